package vharness

// Monitoring core: case bookkeeping, verdicts, watchdog, evidence report.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// R collects what the monitors of one property observed.
type R struct {
	T        *testing.T
	Prop     string
	Thorough bool
	Seed     uint64

	only    string
	curFile string

	mu         sync.Mutex
	evals      int64
	progress   int64
	distinct   map[uint64]struct{}
	samples    []string
	sampleKeys map[string]int
	violations []violation
	nviol      int
	stats      map[string]int64
	cases      int
	inconcl    []string
	broken     []violation
	hang       string
	rule       string
	quiet      bool // only the race detector judges: behavioural oracles are muted
}

type violation struct {
	Case   string `json:"case"`
	Msg    string `json:"msg"`
	Detail string `json:"detail,omitempty"`
}

const maxViolations = 25

func newR(t *testing.T, prop, rule string) *R {
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	r := &R{
		T: t, Prop: prop, Seed: seed, rule: rule,
		Thorough:   os.Getenv("VERIF_TIER") == "thorough",
		only:       os.Getenv("VH_ONLY"),
		curFile:    os.Getenv("VH_CUR"),
		distinct:   map[uint64]struct{}{},
		sampleKeys: map[string]int{},
		stats:      map[string]int64{},
	}
	t.Cleanup(r.write)
	return r
}

// N scales a workload size with the tier.
func (r *R) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Rng gives the random source of one case: it depends on the seed and the case only.
func (r *R) Rng(id string) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(id))
	return rand.New(rand.NewPCG(r.Seed*0x9E3779B97F4A7C15+1, h.Sum64()))
}

// Eval counts one evaluated oracle; key identifies the observed behaviour (for distinctness).
func (r *R) Eval(nontrivial bool, key ...any) {
	r.mu.Lock()
	r.evals++
	if nontrivial {
		h := fnv.New64a()
		for _, k := range key {
			switch v := k.(type) {
			case []byte:
				h.Write(v)
			case string:
				h.Write([]byte(v))
			default:
				fmt.Fprint(h, v)
			}
			h.Write([]byte{0xff, 0})
		}
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
}

// Stat adds to a named observation counter.
func (r *R) Stat(name string, n int64) {
	r.mu.Lock()
	r.stats[name] += n
	r.mu.Unlock()
}

// StatMax keeps a maximum.
func (r *R) StatMax(name string, n int64) {
	r.mu.Lock()
	if r.stats[name] < n {
		r.stats[name] = n
	}
	r.mu.Unlock()
}

// Sample keeps a few written-out cases per kind.
func (r *R) Sample(kind, format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sampleKeys[kind] >= 2 || len(r.samples) > 40 {
		return
	}
	r.sampleKeys[kind]++
	s := kind + ": " + fmt.Sprintf(format, a...)
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	r.samples = append(r.samples, s)
}

// Inconclusive records a check that could not be decided.
func (r *R) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.inconcl) < 50 {
		r.inconcl = append(r.inconcl, fmt.Sprintf(format, a...))
	}
}

// C is one case: a named, individually replayable workload.
type C struct {
	*R
	ID   string
	Rand *rand.Rand
	once sync.Once
}

// Violate records a violation of the property.
func (c *C) Violate(format string, a ...any) {
	c.R.violate(c.ID, fmt.Sprintf(format, a...), "")
}

func (r *R) violate(id, msg, detail string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.quiet {
		r.stats["muted"]++
		return
	}
	r.nviol++
	if len(r.violations) < maxViolations {
		if len(msg) > 3000 {
			msg = msg[:3000] + "…"
		}
		if len(detail) > 8000 {
			detail = detail[:8000] + "…"
		}
		r.violations = append(r.violations, violation{id, msg, detail})
		r.writeLocked(false) // kept even if the process does not survive
	}
}

// broken records a panic of the harness itself: no verdict, unless something else is found.
func (r *R) broke(id, msg, stack string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.broken) < 5 {
		r.broken = append(r.broken, violation{id, msg, stack})
	}
}

func (r *R) full() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.nviol >= maxViolations || r.hang != ""
}

// watchdog bounds how long one case may run without evaluating anything. It is far above what
// any case needs; its firing is confirmed by re-running that case alone before it counts.
func watchdog() time.Duration {
	if s, err := strconv.Atoi(os.Getenv("VH_WATCHDOG")); err == nil {
		return time.Duration(s) * time.Second
	}
	return 45 * time.Second
}

// Case runs one case under the watchdog, turning panics into violations.
func (r *R) Case(id string, fn func(c *C)) {
	if r.only != "" && r.only != id {
		return
	}
	if r.full() {
		return
	}
	r.mu.Lock()
	r.cases++
	r.mu.Unlock()
	if r.curFile != "" {
		os.WriteFile(r.curFile, []byte(id), 0o644)
	}
	done := make(chan struct{})
	c := &C{R: r, ID: id, Rand: r.Rng(id)}
	go func() {
		defer close(done)
		c.Guard(func() { fn(c) })
	}()
	// the watchdog fires only when no oracle has been evaluated for the whole period
	limit, last, since := watchdog(), int64(-1), time.Now()
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return
		case <-tick.C:
		}
		r.mu.Lock()
		n := r.evals + r.progress
		r.mu.Unlock()
		why := " made no progress"
		if heapBytes() > maxHeap {
			why = " uses memory without bound"
		} else {
			if n != last {
				last, since = n, time.Now()
				continue
			}
			if time.Since(since) < limit {
				continue
			}
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		r.mu.Lock()
		r.hang = id
		r.mu.Unlock()
		if f := os.Getenv("VH_HANG"); f != "" {
			os.WriteFile(f, append([]byte("case "+id+why+"\n\n"), buf...), 0o644)
		}
		return
	}
}

// maxHeap is far above what any workload holds
const maxHeap = 8 << 30

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// Progress tells the watchdog that the case is advancing.
func (r *R) Progress() {
	r.mu.Lock()
	r.progress++
	r.mu.Unlock()
}

// Guard runs fn, turning a panic into a violation when the library is on the panicking stack.
func (c *C) Guard(fn func()) (panicked bool) {
	defer func() {
		if p := recover(); p != nil {
			panicked = true
			stack := string(debug.Stack())
			msg := fmt.Sprint(p)
			if strings.HasPrefix(msg, "deadlock: ") || libFrame(stack) {
				c.R.violate(c.ID, "panic: "+msg, trimStack(stack))
				return
			}
			c.R.broke(c.ID, "panic of the harness: "+msg, trimStack(stack))
		}
	}()
	fn()
	return false
}

func libFrame(stack string) bool {
	return strings.Contains(stack, "nathanaelle/syslog5424/v2")
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

// Parallel runs the cases of n independent indices on several goroutines.
func (c *C) Parallel(n int, fn func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	w := runtime.GOMAXPROCS(0)
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.full() {
					return
				}
				c.Guard(func() { fn(i) })
			}
		}()
	}
	wg.Wait()
}

// Cpus runs fn with k processors, then gives all of them back.
func (c *C) Cpus(k int, fn func()) {
	old := runtime.GOMAXPROCS(k)
	defer runtime.GOMAXPROCS(old)
	fn()
	c.Stat(fmt.Sprintf("runs_with_%d_processors", k), 1)
}

// Sub gives a random source for an index of a case.
func (c *C) Sub(i int) *rand.Rand { return c.Rng(c.ID + "#" + strconv.Itoa(i)) }

type report struct {
	Property     string           `json:"property"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     int              `json:"distinct_nontrivial"`
	Cases        int              `json:"cases"`
	Rule         string           `json:"rule"`
	Samples      []string         `json:"samples"`
	Stats        map[string]int64 `json:"observed"`
	Violations   []violation      `json:"violations"`
	NViol        int              `json:"nviol"`
	Inconclusive []string         `json:"inconclusive"`
	Hang         string           `json:"hang"`
	Broken       []violation      `json:"broken"`
	Complete     bool             `json:"complete"`
}

func (r *R) writeLocked(complete bool) {
	rep := report{r.Prop, r.evals, len(r.distinct), r.cases, r.rule, r.samples, r.stats, r.violations, r.nviol, r.inconcl, r.hang, r.broken, complete}
	b, _ := json.MarshalIndent(rep, "", " ")
	if f := os.Getenv("VH_OUT"); f != "" {
		os.WriteFile(f+".new", b, 0o644)
		os.Rename(f+".new", f)
	}
}

func (r *R) write() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.writeLocked(true)
	if testing.Verbose() {
		keys := make([]string, 0, len(r.stats))
		for k := range r.stats {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		fmt.Printf("%s: cases=%d evaluations=%d distinct=%d violations=%d hang=%q\n", r.Prop, r.cases, r.evals, len(r.distinct), r.nviol, r.hang)
		for _, k := range keys {
			fmt.Printf("  %s=%d\n", k, r.stats[k])
		}
		for i, v := range r.violations {
			if i < 8 {
				fmt.Printf("  V %s: %s\n%s\n", v.Case, v.Msg, v.Detail)
			}
		}
	}
}
