package vharness

// Hours and days over real sockets.
//
// check.py builds the harness a second time with the tag "faketime" of the Go runtime: the clock
// of the process jumps to the next timer whenever every goroutine waits, so that deadlines,
// tickers and timeouts of real sockets run in virtual time. The kernel does not know: before a
// jump that matters, settle gives it real time to deliver what is under way.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unsafe"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// Days runs the scenarios of the property in the virtual-time build.
func (c *C) Days() {
	exe := os.Getenv("VH_FAKE")
	if exe == "" {
		c.Inconclusive("no virtual-time build")
		return
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	for try := 0; ; try++ {
		out, log := filepath.Join(dir, fmt.Sprint("out", try)), filepath.Join(dir, fmt.Sprint("log", try))
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.N(80, 1200))*time.Second)
		cmd := exec.CommandContext(ctx, exe, "-test.run", "^TestFake$", "-test.timeout", "0")
		cmd.Env = append(os.Environ(), "VH_FAKE_PROP="+c.Prop, "VH_OUT="+out, "VH_TMP="+dir, "VH_CUR=", "VH_HANG=", "VH_ONLY=", "GOTRACEBACK=all", "GOGC=off", "GODEBUG=updatemaxprocs=0") // a collection can deadlock in this mode of the runtime
		f, _ := os.Create(log)
		cmd.Stdout, cmd.Stderr = f, f
		done := make(chan struct{})
		go func() {
			for {
				select {
				case <-done:
					return
				case <-time.After(time.Second):
					c.Progress()
				}
			}
		}()
		err := cmd.Run()
		close(done)
		cancel()
		f.Close()
		var rep report
		b, rerr := os.ReadFile(out)
		if rerr == nil {
			rerr = json.Unmarshal(b, &rep)
		}
		text, _ := os.ReadFile(log)
		switch crash := playback(text); {
		case len(rep.Violations) > 0:
			if try == 0 { // only what happens again counts
				continue
			}
			for _, v := range rep.Violations {
				c.Violate("in virtual time: %s", v.Msg)
			}
		case rerr != nil || !rep.Complete || err != nil:
			if try == 0 {
				continue
			}
			if i := strings.Index(crash, "panic: "); i >= 0 && libFrame(strings.SplitN(crash[i:], "\n\n", 3)[min(1, strings.Count(crash[i:], "\n\n"))]) {
				c.Violate("in virtual time: crash %s", crash[i:min(len(crash), i+3000)])
				break
			}
			c.Inconclusive("the virtual-time process: %v %v %s", err, rerr, crash[max(0, len(crash)-300):])
		}
		for k, n := range rep.Stats {
			c.Stat(k, n)
		}
		for _, s := range rep.Inconclusive {
			c.Inconclusive("%s", s)
		}
		for k := 0; k < int(rep.Evaluations); k++ {
			c.Eval(k < rep.Distinct, "virtual time", k)
		}
		return
	}
}

// playback removes the headers that the runtime writes in virtual time.
func playback(b []byte) string {
	var s strings.Builder
	for {
		i := bytes.Index(b, []byte("\x00\x00PB"))
		if i < 0 || len(b) < i+16 {
			s.Write(b)
			return s.String()
		}
		s.Write(b[:i])
		b = b[i+16:]
	}
}

// realNow is the clock that does not jump.
func realNow() time.Duration {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return time.Duration(ts.Nano())
}

// realSleep keeps the clock of the process where it is.
func realSleep(d time.Duration) {
	ts := syscall.NsecToTimespec(int64(d))
	syscall.Nanosleep(&ts, nil)
}

// settle lets the kernel deliver what was written.
func settle() {
	for k := 0; k < 3; k++ {
		realSleep(300 * time.Microsecond)
		time.Sleep(time.Microsecond)
	}
}

// nap is a settled pause.
func nap(d time.Duration) {
	settle()
	time.Sleep(d)
	settle()
}

// poll waits for ok: first only for the kernel, then in growing virtual steps too. It is sure of
// a no when the virtual time is over and the kernel had much time too.
func poll(virtual time.Duration, ok func() bool) (yes, sure bool) {
	end, vend := realNow()+40*time.Second, time.Now().Add(virtual)
	step := time.Millisecond
	for k := 0; !ok(); k++ {
		over := time.Now().After(vend)
		if over && k > 4000 {
			return ok(), true
		}
		if realNow() > end {
			return ok(), false
		}
		realSleep(500 * time.Microsecond)
		if k < 100 || over {
			time.Sleep(time.Microsecond)
			continue
		}
		time.Sleep(step)
		step = min(step+step/4+1, virtual/20+1)
	}
	return true, true
}

// await is poll with a verdict: no is a violation only when it is sure.
func (c *C) await(virtual time.Duration, ok func() bool, format string, a ...any) bool {
	yes, sure := poll(virtual, ok)
	switch {
	case yes:
	case sure:
		c.Violate(format, a...)
	default:
		c.Inconclusive("the virtual time is slow: "+format, a...)
	}
	return yes
}

func finished(ch <-chan struct{}) func() bool {
	return func() bool {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}
}

// silent are the errors channels that nothing may come from.
var silent struct {
	mu sync.Mutex
	m  map[*errLog]string
}

func mustBeSilent(what string, l *errLog) {
	silent.mu.Lock()
	if silent.m == nil {
		silent.m = map[*errLog]string{}
	}
	silent.m[l] = what
	silent.mu.Unlock()
}

func mayReport(l *errLog) {
	silent.mu.Lock()
	delete(silent.m, l)
	silent.mu.Unlock()
}

// realTicks is a source of real time: a timer of the kernel, read through the poller.
func realTicks(d time.Duration) (*os.File, error) {
	fd, _, e := syscall.Syscall(syscall.SYS_TIMERFD_CREATE, 1, syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
	if e != 0 {
		return nil, e
	}
	ts := [2]syscall.Timespec{syscall.NsecToTimespec(int64(d)), syscall.NsecToTimespec(int64(d))}
	if _, _, e := syscall.Syscall6(syscall.SYS_TIMERFD_SETTIME, fd, 0, uintptr(unsafe.Pointer(&ts)), 0, 0, 0); e != 0 {
		return nil, e
	}
	return os.NewFile(fd, "timer"), nil
}

// watch ends the process early when something is found.
func watch(r *R) {
	go func() { // the clock always has somewhere to go
		for {
			time.Sleep(100 * 24 * time.Hour)
			realSleep(50 * time.Microsecond)
		}
	}()
	c := &C{R: r, ID: "watch"}
	tick, err := realTicks(200 * time.Millisecond)
	if err != nil {
		c.Inconclusive("timerfd: %v", err)
		return
	}
	var found time.Duration
	for {
		if _, err := tick.Read(make([]byte, 8)); err != nil {
			c.Inconclusive("timerfd: %v", err)
			return
		}
		silent.mu.Lock()
		for l, what := range silent.m {
			if l.count() > 0 {
				c.Violate("%s: errors reported: %v", what, l.all()[0])
				delete(silent.m, l)
			}
		}
		silent.mu.Unlock()
		r.mu.Lock()
		n := r.nviol
		r.mu.Unlock()
		if n > 0 && found == 0 {
			found = realNow()
		}
		if found != 0 && realNow()-found > 3*time.Second {
			r.write()
			os.Exit(0)
		}
	}
}

func TestFake(t *testing.T) {
	prop := os.Getenv("VH_FAKE_PROP")
	if prop == "" {
		t.Skip("not asked")
	}
	if t0 := time.Now(); t0.Year() != 2009 {
		t.Fatal("this is not virtual time")
	}
	r := newR(t, prop, "virtual time")
	go watch(r)
	var wg sync.WaitGroup
	run := func(n int, name string, fn func(c *C, g *rand.Rand, i int)) {
		for i := 0; i < n; i++ {
			c := &C{R: r, ID: name}
			c.Rand = c.Sub(i)
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.Guard(func() { fn(c, c.Rand, i) })
			}()
			if i%8 == 7 {
				wg.Wait()
			}
		}
		wg.Wait()
	}
	switch prop {
	case "C01":
		run(r.N(36, 360), "days", (*C).fakeEndToEnd)
	case "C04":
		run(r.N(24, 240), "days", (*C).fakeOutage)
	case "C13":
		run(r.N(36, 360), "days", (*C).fakeIdle)
	case "C14":
		run(r.N(24, 240), "days", (*C).fakeEnd)
	case "C21":
		run(r.N(32, 320), "days", (*C).fakeFlush)
	}
	r.Stat("virtual_hours", int64(time.Since(time.Date(2009, 11, 10, 23, 0, 0, 0, time.UTC))/time.Hour))
}

// fakeEndToEnd: senders and a receiver which pause for hours, the receiver's user too.
func (c *C) fakeEndToEnd(g *rand.Rand, i int) {
	fs := framings()
	f := fs[i%3]
	network := []string{"tcp", "unix", "unixgram"}[i/3%3]
	dir := scratchDir()
	defer os.RemoveAll(dir)
	l, addr, err := listen(network, dir, i)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	flush := pick(g, 500*time.Millisecond, 5*time.Second, time.Minute, time.Hour)
	longest := flush * time.Duration(pick(g, 1, 20, 400, 4000))
	e := &e2e{f: f, x: newReceiver(c, l, pick(g, 0, 1, 10), f.T, true)}
	cg := rand.New(rand.NewPCG(g.Uint64(), 7))
	lazy := g.IntN(2) == 0
	go func() {
		defer close(e.x.done)
		c.Guard(func() {
			for {
				if lazy && cg.IntN(10) == 0 {
					nap(time.Duration(cg.Int64N(int64(longest))))
				}
				m, err, ok := e.x.R.Receive()
				if !ok {
					return
				}
				e.x.record(m, err)
			}
		})
	}()
	owner, total := map[string]at{}, 0
	var left atomic.Int64
	e.desc = fmt.Sprintf("%s, %s framing, flush %v, pauses up to %v, lazy receiver %v", network, f.Name, flush, longest, lazy)
	mustBeSilent(e.desc+": receiver", e.x.errs)
	defer mayReport(e.x.errs)
	for s := 0; s < 1+g.IntN(2); s++ {
		snd, ch, err := (syslog.Dialer{FlushDelay: flush}).Dial(network, addr, f.T)
		if err != nil {
			c.Violate("%s: Dial: %v", e.desc, err)
			return
		}
		e.snd, e.errs = append(e.snd, snd), append(e.errs, drainErrs(ch))
		mustBeSilent(e.desc+": sender", e.errs[s])
		defer mayReport(e.errs[s])
		var ps []traffic
		var sw sync.WaitGroup
		for p := 0; p < 1+g.IntN(2); p++ {
			tr := mkTraffic(g, f, fmt.Sprintf("v%d.%d.%d", i, s, p), 5+g.IntN(40), pick(g, 1000, 60000, 60000), true)
			ps = append(ps, tr)
			for k, m := range tr.msgs {
				owner[m.Want] = at{s, p, k}
				total++
			}
			pg := rand.New(rand.NewPCG(g.Uint64(), 5))
			sw.Add(1)
			go func() {
				defer sw.Done()
				c.Guard(func() {
					for _, m := range tr.msgs {
						if err := snd.Send(m.M); err != nil {
							c.Violate("%s: send refused: %v", e.desc, err)
						}
						if pg.IntN(6) == 0 {
							nap(time.Duration(pg.Int64N(int64(longest))))
						}
					}
				})
			}()
		}
		e.producers = append(e.producers, ps)
		left.Add(1)
		go func() {
			defer left.Add(-1)
			sw.Wait()
			c.Guard(snd.End)
		}()
	}
	if !c.await(time.Duration(total+10)*longest, func() bool { return left.Load() == 0 }, "%s: End of a sender has not returned", e.desc) {
		return
	}
	if _, sure := poll(time.Duration(total+10)*longest, func() bool { return e.x.count() >= total }); !sure {
		c.Inconclusive("%s: the virtual time is slow", e.desc)
		return
	}
	settle()
	c.e2eJudge(e, owner, total)
	e.x.R.End()
	poll(time.Hour, finished(e.x.done))
	close(e.x.errs.done)
}

// fakeIdle: peers which stop for hours between and inside frames.
func (c *C) fakeIdle(g *rand.Rand, i int) {
	f := framings()[i%3]
	network := []string{"tcp", "unix", "unixgram"}[i/3%3]
	dir := scratchDir()
	defer os.RemoveAll(dir)
	l, addr, err := listen(network, dir, i)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	x := newReceiver(c, l, g.IntN(20), f.T, true)
	longest := pick(g, time.Minute, 10*time.Minute, time.Hour, 100*time.Hour, 1000*time.Hour)
	lazy := g.IntN(3) == 0
	what := fmt.Sprintf("%s over %s, peers with pauses up to %v, lazy receiver: %v", f.Name, network, longest, lazy)
	mustBeSilent(what, x.errs)
	defer mayReport(x.errs)
	cg := rand.New(rand.NewPCG(g.Uint64(), 7))
	go func() {
		defer close(x.done)
		c.Guard(func() {
			for {
				if lazy && cg.IntN(4) == 0 {
					nap(time.Duration(cg.Int64N(int64(longest))))
				}
				m, err, ok := x.R.Receive()
				if !ok {
					return
				}
				x.record(m, err)
			}
		})
	}()
	if g.IntN(2) == 0 {
		nap(time.Duration(g.Int64N(int64(longest))))
	}
	var wg sync.WaitGroup
	total := 0
	streams := map[string]*stream{}
	for k := 0; k < 1+g.IntN(3); k++ {
		s := randStream(g, f, fmt.Sprintf("idle%d.%d", i, k), 3+g.IntN(4), pick(g, 50, 5000))
		streams[fmt.Sprint(k)] = s
		total += len(s.msgs)
		pg := rand.New(rand.NewPCG(g.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			pause := func() {
				if pg.IntN(2) == 0 {
					nap(time.Duration(pg.Int64N(int64(longest))))
				}
			}
			pause()
			conn, err := net.Dial(network, addr)
			if err != nil {
				c.Violate("%s: dial: %v", what, err)
				return
			}
			defer conn.Close()
			from := 0
			for _, end := range s.ends {
				cut := end
				if network != "unixgram" && pg.IntN(2) == 0 {
					cut = from + pg.IntN(end-from)
				}
				for _, to := range []int{cut, end} {
					if to > from {
						pause()
						if _, err := conn.Write(s.data[from:to]); err != nil {
							c.Violate("%s: the peer cannot write: %v", what, err)
							return
						}
						from = to
					}
				}
			}
			pause()
			settle()
		}()
	}
	wg.Wait()
	if _, sure := poll(time.Duration(total+1)*longest, func() bool { return x.count() >= total }); !sure {
		c.Inconclusive("%s: the virtual time is slow", what)
		return
	}
	settle()
	have := map[string]int{}
	for _, r := range x.results() {
		if r.Err != nil {
			c.Violate("%s: error result %v", what, r.Err)
			break
		}
		have[r.Text]++
	}
	for _, s := range streams {
		for _, m := range s.msgs {
			if have[m] != 1 {
				c.Violate("%s: %s received %d times", what, q(m), have[m])
				break
			}
		}
	}
	if n := x.errs.count(); n != 0 {
		c.Violate("%s: errors reported: %v", what, x.errs.all())
	}
	x.R.End()
	poll(time.Hour, finished(x.done))
	close(x.errs.done)
	c.Stat("connections_idle_for_hours", int64(len(streams)))
	c.Eval(true, what, i)
}

// fakeEnd: End after hours, with idle peers in and out of frames.
func (c *C) fakeEnd(g *rand.Rand, i int) {
	f := framings()[i%3]
	network := []string{"tcp", "unix", "unixgram"}[i/3%3]
	dir := scratchDir()
	defer os.RemoveAll(dir)
	l, addr, err := listen(network, dir, i)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	queue := pick(g, 0, 3, 100)
	x := newReceiver(c, l, queue, f.T, true)
	reading := g.IntN(2) == 0
	if reading {
		x.consume(c)
	}
	what := fmt.Sprintf("%s over %s, End after hours", f.Name, network)
	mustBeSilent(what, x.errs)
	defer mayReport(x.errs)
	var conns []net.Conn
	want := map[string]bool{}
	for k := 0; k < g.IntN(6); k++ {
		conn, err := net.Dial(network, addr)
		if err != nil {
			c.Violate("%s: dial: %v", what, err)
			return
		}
		conns = append(conns, conn)
		for n := g.IntN(3); n > 0; n-- {
			m := mkMsg(fmt.Sprintf("fe%d.%d.%d", i, k, n), 14, time.Unix(1e9, 0).UTC(), "text").Want
			conn.Write([]byte(f.enc(m)))
			want[m] = true
		}
		if g.IntN(2) == 0 && network != "unixgram" {
			conn.Write([]byte(f.enc("<1>1 - - - - - - part"))[:10])
		}
	}
	if reading {
		if !c.await(time.Minute, func() bool { return x.count() >= len(want) }, "%s: some of %d messages are not received", what, len(want)) {
			return
		}
	}
	nap(pick(g, 0, time.Minute, 30*time.Hour, 2000*time.Hour))
	if n := x.errs.count(); n != 0 {
		c.Violate("%s: errors reported before End: %v", what, x.errs.all())
	}
	x.R.End()
	if !reading {
		if g.IntN(2) == 0 {
			nap(time.Hour)
		}
		x.consume(c)
	}
	if !c.await(time.Hour, finished(x.done), "%s: Receive does not report the end of the receiver", what) {
		return
	}
	have := map[string]int{}
	for _, r := range x.results() {
		if r.Err == nil {
			have[r.Text]++
			if !want[r.Text] {
				c.Violate("%s: %s was never sent", what, q(r.Text))
			}
			if have[r.Text] > 1 {
				c.Violate("%s: %s is received %d times", what, q(r.Text), have[r.Text])
			}
		}
	}
	if reading {
		for m := range want {
			if have[m] != 1 {
				c.Violate("%s: %s is received %d times", what, q(m), have[m])
				break
			}
		}
	}
	for _, conn := range conns {
		if network == "unixgram" {
			conn.Close()
			continue
		}
		closed := make(chan struct{})
		go func() {
			defer close(closed)
			conn.Read(make([]byte, 1)) // the half of the receiver is closed at once; a write tells the rest
			for k := 0; k < 100000; k++ {
				if _, err := conn.Write([]byte("x")); err != nil {
					return
				}
				nap(time.Second)
			}
		}()
		c.await(time.Hour, finished(closed), "%s: a connection is still open an hour after the end", what)
		conn.Close()
	}
	if conn, err := net.Dial(network, addr); err == nil {
		conn.Close()
		c.Violate("%s: the address still takes connections", what)
	}
	if n := x.errs.count(); n != 0 {
		c.Violate("%s: errors reported by End: %v", what, x.errs.all())
	}
	close(x.errs.done)
	c.Eval(true, what, i)
}

// fakeOutage: the server is not there for hours, or stops to read for hours.
func (c *C) fakeOutage(g *rand.Rand, i int) {
	f := framings()[i%3]
	network := []string{"unix", "unixgram", "local", "local-gram"}[i/3%4]
	dir := scratchDir()
	defer os.RemoveAll(dir)
	addr := filepath.Join(dir, "server")
	served := "unix"
	if strings.HasSuffix(network, "gram") {
		served = "unixgram"
	}
	flush := pick(g, 20*time.Millisecond, 500*time.Millisecond, time.Minute, time.Hour)
	outage := flush * time.Duration(1+g.IntN(pick(g, 10, 300, 20000)))
	what := fmt.Sprintf("%s, %s framing, flush %v, server away for %v", network, f.Name, flush, outage)
	snd, ch, err := (syslog.Dialer{FlushDelay: flush}).Dial(strings.TrimSuffix(network, "-gram"), addr, f.T)
	if err != nil {
		c.Violate("%s: Dial: %v", what, err)
		return
	}
	var errs *errLog
	if g.IntN(2) == 0 {
		errs = drainErrs(ch)
	}
	sent := 0
	var want []string
	send := func() {
		m := randMsg(g, f, fmt.Sprintf("out%d-%d", i, sent), 500)
		sent++
		if err := snd.Send(m.M); err != nil {
			c.Violate("%s: send refused: %v", what, err)
		}
		want = append(want, f.enc(m.Want))
	}
	for round := 0; round < 3; round++ {
		want = nil
		left := outage
		for k := 1 + g.IntN(30); k > 0; k-- {
			send()
			d := time.Duration(g.Int64N(int64(outage))) / 15
			nap(d)
			left -= d
		}
		if left > 0 {
			nap(left)
		}
		if errs != nil && errs.count() == 0 && outage > 2*flush {
			c.Violate("%s: no error was reported", what)
		}
		p, err := plainServer(served, addr)
		if err != nil {
			c.Inconclusive("server: %v", err)
			return
		}
		got := func() string {
			if served == "unixgram" {
				return strings.Join(p.datagrams(), "")
			}
			return strings.Join(p.streams(), "")
		}
		expected := strings.Join(want, "")
		// the very next flush finds the server
		time.Sleep(flush + flush/10)
		if yes, sure := poll(0, func() bool { return len(got()) >= len(expected) }); !sure || !yes || got() != expected {
			if !sure {
				c.Inconclusive("%s: slow", what)
				p.stop()
				return
			}
			c.Violate("%s: one flush period after the return of the server it has %d octets of %d, the same octets: %v", what, len(got()), len(expected), got() == expected)
			p.stop()
			return
		}
		// in use, and then idle for long
		for k := 0; k < 3; k++ {
			send()
			time.Sleep(flush + flush/10)
			expected += want[len(want)-1]
			if yes, sure := poll(0, func() bool { return len(got()) >= len(expected) }); !sure || !yes || got() != expected {
				if !sure {
					c.Inconclusive("%s: slow", what)
					p.stop()
					return
				}
				c.Violate("%s: message %d after the return is not delivered by the next flush, or not identical", what, k)
				p.stop()
				return
			}
			if g.IntN(2) == 0 {
				nap(outage)
			}
		}
		p.stop()
		settle()
	}
	// ended while the server is there, or minutes before it is
	away := i%12 == 0
	var ended atomic.Bool
	stop := func() { c.Guard(snd.End); ended.Store(true) }
	want = nil
	if away {
		what += ", ended while the server is away"
		for k := 0; k < 5; k++ {
			send()
		}
		go stop()
		time.Sleep(time.Duration(60+g.IntN(150)) * time.Second)
	}
	p, err := plainServer(served, addr)
	if err != nil {
		c.Inconclusive("server: %v", err)
		return
	}
	defer p.stop()
	if !away {
		go stop()
	}
	if !c.await(10*flush+time.Hour, ended.Load, "%s: End does not return although the server is back", what) {
		return
	}
	settle()
	got := strings.Join(p.streams(), "") + strings.Join(p.datagrams(), "")
	if got != strings.Join(want, "") {
		c.Violate("%s: %d octets of %d are delivered when End returns", what, len(got), len(strings.Join(want, "")))
	}
	c.Stat("outages_of_hours", 3)
	c.Eval(true, what, i)
}

// fakeFlush: the delay of the Dialer, from milliseconds to days.
func (c *C) fakeFlush(g *rand.Rand, i int) {
	network := []string{"tcp", "unix", "unixgram", "local"}[i%4]
	dir := scratchDir()
	defer os.RemoveAll(dir)
	addr := filepath.Join(dir, "server")
	served := network
	switch network {
	case "tcp":
		addr = "127.0.0.1:0"
	case "local":
		served = pick(g, "unix", "unixgram")
	}
	p, err := plainServer(served, addr)
	if err != nil {
		c.Inconclusive("server: %v", err)
		return
	}
	defer p.stop()
	flush := pick(g, 2*time.Millisecond, 7*time.Millisecond, 100*time.Millisecond, time.Second, 17*time.Second, time.Minute, 5*time.Minute, time.Hour, 24*time.Hour, 500*time.Hour)
	var snd *syslog.Sender
	var ch <-chan error
	if i/4%4 == 3 {
		flush = 500 * time.Millisecond
		snd, ch, err = syslog.Dial(network, p.addr)
	} else {
		snd, ch, err = (syslog.Dialer{FlushDelay: flush}).Dial(network, p.addr, nil)
	}
	what := fmt.Sprintf("%s with a flush delay of %v", network, flush)
	if err != nil {
		c.Violate("%s: Dial: %v", what, err)
		return
	}
	errs := drainErrs(ch)
	mustBeSilent(what, errs)
	defer mayReport(errs)
	start := time.Now()
	size := p.size
	total, instants := 0, 0
	steps := 20 + g.IntN(60)
	for k := 0; k < steps; k++ {
		m := mkMsg(fmt.Sprintf("fl%d-%d", i, k), g.IntN(192), time.Unix(1e9, 0).UTC(), "text")
		if err := snd.Send(m.M); err != nil {
			c.Violate("%s: send refused: %v", what, err)
		}
		total += len(m.Want) + 1
		before := size()
		if g.IntN(10) == 0 {
			// all is delivered within one delay
			nap(flush)
			if !c.await(0, func() bool { return size() == total }, "%s: %v after the send not all of %d octets are delivered", what, flush, total) {
				return
			}
		} else {
			nap(flush / 10)
		}
		if size() != before {
			instants++
		}
	}
	if most := int(time.Since(start)/flush) + 2; instants > most {
		c.Violate("%s: in %v messages were flushed at %d instants", what, time.Since(start), instants)
	}
	var ended atomic.Bool
	go func() { c.Guard(snd.End); ended.Store(true) }()
	if !c.await(time.Hour, ended.Load, "%s: End does not return", what) {
		return
	}
	poll(0, func() bool { return size() == total })
	if size() != total {
		c.Violate("%s: %d octets after End, %d expected", what, size(), total)
	}
	<-errs.done
	if errs.count() > 0 {
		c.Violate("%s: errors %v", what, errs.all())
	}
	c.Stat("flush_delays", 1)
	c.Eval(true, what, i)
}
