package vharness

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// doPrint prints once and gives the text the logger has to produce, without prefix and call site,
// and the line of the call.
func doPrint(g *rand.Rand, l *log.Logger, text string) (want string, line int) {
	switch g.IntN(7) {
	case 0:
		_, _, line, _ = runtime.Caller(0)
		l.Print(text)
		return text, line + 1
	case 1:
		_, _, line, _ = runtime.Caller(0)
		l.Println(text, 12, "x")
		return text + " 12 x", line + 1
	case 2:
		_, _, line, _ = runtime.Caller(0)
		l.Printf("%s|%d", text, 7)
		return text + "|7", line + 1
	case 3:
		_, _, line, _ = runtime.Caller(0)
		l.Output(1, text)
		return text, line + 1
	case 4:
		defer func() { recover() }()
		_, _, line, _ = runtime.Caller(0)
		want, line = text, line+2
		l.Panic(text)
		return
	case 5:
		defer func() { recover() }()
		_, _, line, _ = runtime.Caller(0)
		want, line = "é "+text, line+2
		l.Panicf("é %s", text)
		return
	}
	_, _, line, _ = runtime.Caller(0)
	l.Print(text, 1, 2)
	return text + "1 2", line + 1
}

func c23Text(sev int, prefix, printed string, line int) string {
	site := ""
	if sev == 7 {
		site = fmt.Sprintf("c23_test.go:%d: ", line)
	}
	return refTrim(prefix + site + printed)
}

func TestC23(t *testing.T) {
	r := newR(t, "C23", "one evaluation = one print through a logger or write through a channel, compared with the frames of the monitored output; distinct = distinct expected texts")
	ts := time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)
	syslog.Now = func() time.Time { return ts }
	defer func() { syslog.Now = time.Now }()

	// the loggers of one channel are set up each on its own
	r.Case("loggers", func(c *C) {
		c.Parallel(r.N(1500, 30000), func(i int) {
			g := c.Sub(i)
			rg := newRig()
			m := hostModel()
			m.fac, m.min, m.app = 8*g.IntN(24), g.IntN(8), "lg"
			sl, _ := syslog.New(rg.snd, syslog.Priority(m.fac+m.min), "lg")
			type logger struct {
				n      node
				l      *log.Logger
				prefix string
				buf    *bytes.Buffer // its output, when it is no longer the channel
			}
			var ls []*logger
			var want []string
			var chans []node // a channel is asked for several loggers
			for _, sev := range []int{g.IntN(8), g.IntN(8), 7} {
				chans = append(chans, node{sl.Channel(syslog.Priority(sev)), m, sev, "c"})
			}
			for k := 30; k > 0; k-- {
				if len(ls) < 3 || g.IntN(3) == 0 {
					lg := &logger{n: pick(g, chans...), prefix: pick(g, "", "a ", "b ")}
					lg.l = lg.n.ch.Logger(lg.prefix)
					ls = append(ls, lg)
				}
				lg := pick(g, ls...)
				switch g.IntN(12) {
				case 0:
					lg.prefix = pick(g, "", "c ", "d ")
					lg.l.SetPrefix(lg.prefix)
				case 1:
					lg.buf = &bytes.Buffer{}
					lg.l.SetOutput(lg.buf)
				}
				sizes := make([]int, len(ls))
				for j, o := range ls {
					if o.buf != nil {
						sizes[j] = o.buf.Len()
					}
				}
				text := randText(g, 100)
				printed, line := doPrint(g, lg.l, text)
				c.Eval(true, lg.n.sev, lg.prefix, printed, lg.buf != nil)
				switch {
				case lg.buf != nil: // judged below
				case lg.n.enabled():
					want = append(want, m.frameText(lg.n, ts, c23Text(lg.n.sev, lg.prefix, printed, line)))
				}
				for j, o := range ls {
					if got := o.l.Prefix(); got != o.prefix {
						c.Violate("logger %d (severity %d, minimal %d) has the prefix %s, not its own %s", j, o.n.sev, m.min, q(got), q(o.prefix))
						return
					}
					if o.buf != nil && (o.buf.Len() > sizes[j]) != (o == lg) {
						c.Violate("a print through one logger of severity %d: the output of logger %d (severity %d), a buffer, grew by %d bytes", lg.n.sev, j, o.n.sev, o.buf.Len()-sizes[j])
						return
					}
				}
			}
			c.sameFrames("loggers", rg.end(c), want)
			c.Stat("loggers", int64(len(ls)))
		})
	})

	r.Case("sequential", func(c *C) {
		c.Parallel(r.N(3000, 60000), func(i int) {
			g := c.Sub(i)
			rg := newRig()
			m := hostModel()
			m.fac, m.min, m.app = 8*g.IntN(24), pick(g, 7, 7, g.IntN(8)), "lg"
			sl, _ := syslog.New(rg.snd, syslog.Priority(m.fac+m.min), "lg")
			var want []string
			for k := 1 + g.IntN(6); k > 0; k-- {
				sev := pick(g, 7, g.IntN(8))
				n := node{sl.Channel(syslog.Priority(sev)), m, sev, "c"}
				for d := g.IntN(3); d > 0; d-- {
					n = n.derive(g)
				}
				prefix := pick(g, "", "p", "p: ", " ", "é", "[x] ", "\n", randText(g, 60), "%s ", "very long prefix "+strings.Repeat("x", 100))
				l := n.ch.Logger(prefix)
				for p := 1 + g.IntN(5); p > 0; p-- {
					text := randText(g, 4000)
					if g.IntN(10) == 0 {
						text = strings.Repeat("line\n", g.IntN(2000))
					}
					if i%50 == 0 {
						text = strings.Repeat(text+"x", 1+g.IntN(1500000)/(len(text)+1)) + "end"
					}
					if g.IntN(10) == 0 {
						prefix = pick(g, "new ", "", "other")
						l.SetPrefix(prefix)
					}
					printed, line := doPrint(g, l, text)
					if n.enabled() {
						want = append(want, m.frameText(n, ts, c23Text(sev, prefix, printed, line)))
					}
					c.Eval(true, n.path, sev, prefix, printed)
					c.Stat("prints", 1)
				}
			}
			got := rg.end(c)
			c.sameFrames("prints", got, want)
			c.Stat("frames_observed", int64(len(got)))
			if len(want) > 0 {
				c.Sample("print", "%s", q(want[0]))
			}
		})
	})

	// the writer itself
	r.Case("writer", func(c *C) {
		c.Parallel(r.N(2000, 40000), func(i int) {
			g := c.Sub(i)
			rg := newRig()
			m := hostModel()
			m.fac, m.min, m.app = 8*g.IntN(24), g.IntN(8), "wr"
			sl, _ := syslog.New(rg.snd, syslog.Priority(m.fac+m.min), "wr")
			var want []string
			buf := make([]byte, 0, 8192)
			for k := 1 + g.IntN(10); k > 0; k-- {
				sev := g.IntN(8)
				n := node{sl.Channel(syslog.Priority(sev)), m, sev, "c"}
				text := randText(g, 5000)
				if i%50 == 0 {
					text = strings.Repeat(text+"x", 1+g.IntN(1500000)/(len(text)+1)) + "end"
				}
				buf = append(buf[:0], text...)
				var w int
				var err error
				switch g.IntN(4) {
				case 0:
					w, err = n.ch.Write(buf)
				case 1:
					w, err = io.WriteString(n.ch, text)
				case 2:
					w, err = fmt.Fprintf(n.ch, "%s", text)
				default:
					var k64 int64
					k64, err = io.Copy(n.ch, strings.NewReader(text)) // one write
					w = int(k64)
					if text == "" {
						text = "\x00none"
					}
				}
				if text == "\x00none" {
					continue
				}
				if w != len(text) || err != nil {
					c.Violate("writing %d bytes to a channel (severity %d, minimal %d) gives %d, %v", len(text), sev, m.min, w, err)
				}
				for j := range buf {
					buf[j] = '#'
				}
				if n.enabled() {
					want = append(want, m.frameText(n, ts, refTrim(text)))
				}
				c.Eval(true, text, sev)
			}
			// after End the bytes are still reported as written
			got := rg.end(c)
			c.sameFrames("writes", got, want)
			for sev := 0; sev < 8; sev++ {
				if w, err := sl.Channel(syslog.Priority(sev)).Write([]byte("late")); w != 4 || err != nil {
					c.Violate("a write after End gives %d, %v", w, err)
				}
			}
		})
	})

	r.Case("adapters", func(c *C) {
		// a bufio.Writer and a MultiWriter give one message per Write they make
		rg := newRig()
		m := hostModel()
		m.fac, m.min, m.app = 8, 6, "ad"
		sl, _ := syslog.New(rg.snd, syslog.Priority(8+6), "ad")
		n := node{sl.Channel(syslog.LogINFO), m, 6, "c"}
		bw := bufio.NewWriterSize(n.ch, 64)
		var want []string
		for i := 0; i < 100; i++ {
			fmt.Fprintf(bw, "m%d", i)
			if err := bw.Flush(); err != nil {
				c.Violate("Flush: %v", err)
			}
			want = append(want, m.frameText(n, ts, fmt.Sprintf("m%d", i)))
			mw := io.MultiWriter(n.ch, n.ch)
			fmt.Fprintf(mw, "w%d\n", i)
			want = append(want, m.frameText(n, ts, fmt.Sprintf("w%d", i)), m.frameText(n, ts, fmt.Sprintf("w%d", i)))
			c.Eval(true, i)
		}
		c.sameFrames("adapters", rg.end(c), want)
	})

	// nothing appears anywhere else: the standard streams and the standard logger stay silent
	r.Case("silent", func(c *C) {
		for i := 0; i < r.N(150, 3000); i++ {
			g := c.Sub(i)
			var std lockedBuf
			log.SetOutput(&std)
			withStdio(func(out, err func() string) {
				rg := newRig()
				m := hostModel()
				m.fac, m.min, m.app = 8*g.IntN(24), g.IntN(8), "si"
				sl, _ := syslog.New(rg.snd, syslog.Priority(m.fac+m.min), "si")
				var want []string
				for sev := 0; sev < 8; sev++ {
					n := node{sl.Channel(syslog.Priority(sev)), m, sev, "c"}
					for d := g.IntN(3); d > 0; d-- {
						n = n.derive(g)
					}
					l := n.ch.Logger("p ")
					for p := 1 + g.IntN(4); p > 0; p-- {
						text := "silent " + randText(g, 200)
						printed, line := doPrint(g, l, text)
						fmt.Fprintf(n.ch, "%s", text)
						n.ch.Log(text)
						if n.enabled() {
							want = append(want, m.frameText(n, ts, c23Text(sev, "p ", printed, line)), m.frameText(n, ts, refTrim(text)), n.m.frame(n.sev, ts, "-", text))
						}
						if n.enabled() == n.ch.IsDevNull() {
							c.Violate("severity %d, minimal %d: IsDevNull is %v", sev, m.min, n.ch.IsDevNull())
						}
						c.Eval(true, "silent", sev, m.min, text)
					}
				}
				c.sameFrames("silent", rg.end(c), want)
				if out() != "" || err() != "" || std.String() != "" {
					c.Violate("prints on channels of minimal severity %d also write %s to the standard output, %s to the standard error and %s to the standard logger", m.min, q(out()), q(err()), q(std.String()))
				}
			})
			log.SetOutput(os.Stderr)
			c.Stat("silent_rounds", 1)
		}
	})

	r.Case("concurrent", func(c *C) {
		for round := 0; round < r.N(300, 12000); round++ {
			g := c.Sub(round)
			rg := newRig()
			m := hostModel()
			m.fac, m.min, m.app = 8*g.IntN(24), 7, "cc"
			sl, _ := syslog.New(rg.snd, syslog.Priority(m.fac+m.min), "cc")
			shared := sl.Channel(syslog.LogERR).Logger("shared ")
			sharedDbg := sl.Channel(syslog.LogDEBUG).Logger("dbg ")
			workers := 2 + g.IntN(10)
			seqs := make([][]string, workers)
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				wg.Add(1)
				wr := rand.New(rand.NewPCG(uint64(round), uint64(w)))
				go func() {
					defer wg.Done()
					c.Guard(func() {
						own := node{sl.Channel(syslog.Priority(w % 8)), m, w % 8, "c"}
						ownLog := own.ch.Logger("own ")
						for k := 0; k < 20; k++ {
							text := fmt.Sprintf("w%d k%d ", w, k) + strings.Repeat(string(rune('a'+w)), wr.IntN(300)) + pick(wr, "", "\n", "\nsecond line", "\r\n")
							n, l, prefix := own, ownLog, "own "
							switch wr.IntN(4) {
							case 0:
								n, l, prefix = node{nil, m, 3, ""}, shared, "shared "
							case 1:
								n, l, prefix = node{nil, m, 7, ""}, sharedDbg, "dbg "
							}
							printed, line := doPrint(wr, l, text)
							seqs[w] = append(seqs[w], n.m.frameText(n, ts, c23Text(n.sev, prefix, printed, line)))
							jitter(wr)
							c.Eval(true, text, prefix)
						}
					})
				}()
			}
			wg.Wait()
			got := rg.end(c)
			// every frame belongs to one print, in the order of its goroutine
			owner := map[string]int{}
			for w, s := range seqs {
				for _, x := range s {
					owner[x] = w
				}
			}
			pos := make([]int, workers)
			for i, fr := range got {
				w, ok := owner[fr]
				if !ok {
					c.Violate("concurrent prints: frame %d was never printed: %s", i, q(fr))
					return
				}
				if pos[w] >= len(seqs[w]) || seqs[w][pos[w]] != fr {
					c.Violate("concurrent prints: frame %s is repeated or out of the order of its goroutine", q(fr))
					return
				}
				pos[w]++
			}
			for w := range seqs {
				if pos[w] != len(seqs[w]) {
					c.Violate("concurrent prints: %d of %d prints of a goroutine became messages", pos[w], len(seqs[w]))
				}
			}
			c.Stat("frames_observed", int64(len(got)))
			c.Stat("concurrent_rounds", 1)
		}
	})
}

func (m chanModel) frameText(n node, ts time.Time, text string) string {
	return n.m.frame(n.sev, ts, "-", text)
}

// lockedBuf is a buffer for several writers.
type lockedBuf struct {
	mu sync.Mutex
	b  strings.Builder
}

func (l *lockedBuf) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(b)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}
