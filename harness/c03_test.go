package vharness

import (
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// fault is what happens at one connection or write budget.
type fault struct {
	Kind   string // "connect", "plain", "eof", "epipe", "reset", "nobufs", "full"
	Offset int    // bytes taken (since the previous fault) before the failure
}

var errPlain = errors.New("injected plain failure")

func faultErr(kind string) error {
	switch kind {
	case "plain", "full", "connect":
		return errPlain
	case "eof":
		return io.ErrClosedPipe
	case "epipe":
		return opErr("write", syscall.EPIPE)
	case "reset":
		return opErr("write", syscall.ECONNRESET)
	case "refused":
		return opErr("write", syscall.ECONNREFUSED)
	case "nobufs":
		return errNoBufs
	case "timeout":
		return &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}
	case "closed":
		return &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	case "ioeof":
		return io.EOF
	case "short":
		return io.ErrShortWrite
	case "raw":
		return syscall.EPIPE
	case "raw-again":
		return syscall.EAGAIN
	case "raw-intr":
		return syscall.EINTR
	case "raw-timeout":
		return os.ErrDeadlineExceeded
	case "path":
		return &os.PathError{Op: "write", Path: "pipe", Err: syscall.EAGAIN}
	case "op-again":
		return &net.OpError{Op: "write", Net: "unix", Err: syscall.EAGAIN}
	case "progress":
		return io.ErrNoProgress
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "context":
		return context.DeadlineExceeded
	case "typed":
		return &net.DNSError{Err: "x", IsTemporary: true, IsTimeout: true}
	case "syscall":
		return os.NewSyscallError("write", syscall.EIO)
	case "eagain", "eintr", "enospc", "ebadf", "enetdown", "enomem", "enotconn", "etimedout", "ehostunreach", "emsgsize":
		return opErr("write", map[string]syscall.Errno{"eagain": syscall.EAGAIN, "eintr": syscall.EINTR, "enospc": syscall.ENOSPC, "ebadf": syscall.EBADF, "enetdown": syscall.ENETDOWN,
			"enomem": syscall.ENOMEM, "enotconn": syscall.ENOTCONN, "etimedout": syscall.ETIMEDOUT, "ehostunreach": syscall.EHOSTUNREACH, "emsgsize": syscall.EMSGSIZE}[kind])
	}
	panic(kind)
}

// faultSink takes bytes until the budget of the current fault is used, then fails.
type faultSink struct {
	sink
	plan     []fault
	pos      int
	budget   int
	injected int
	nobufs   int
	conn     int // failed connects
}

func (s *faultSink) arm() {
	if s.pos < len(s.plan) {
		s.budget = s.plan[s.pos].Offset
	}
}

func newFaultSink(plan []fault) *faultSink {
	s := &faultSink{plan: plan}
	s.arm()
	s.onClose = func(c *sinkConn) error {
		if c.idx%2 == 0 { // some failed connections do not even close properly
			return errPlain
		}
		return nil
	}
	s.onConnect = func(int) error {
		if s.pos < len(s.plan) && s.plan[s.pos].Kind == "connect" {
			s.pos++
			s.arm()
			s.conn++
			return errPlain
		}
		return nil
	}
	s.onWrite = func(_ *sinkConn, p []byte) (int, error) {
		// a connect fault waiting behind a live connection is hit when it is reconnected
		if s.pos >= len(s.plan) || s.plan[s.pos].Kind == "connect" {
			return len(p), nil
		}
		f := s.plan[s.pos]
		if s.budget > len(p) || (s.budget == len(p) && f.Kind != "full") {
			s.budget -= len(p)
			return len(p), nil
		}
		n := s.budget
		if f.Kind == "emsgsize" && n == 0 {
			// before the first byte of a frame it means that the message is too big: see C04
			if n = 1; len(p) == 1 {
				return 1, nil
			}
		}
		s.pos++
		s.arm()
		if f.Kind == "nobufs" {
			s.nobufs++
		} else {
			s.injected++
		}
		return n, faultErr(f.Kind)
	}
	return s
}

func planString(p []fault) string {
	var b strings.Builder
	for _, f := range p {
		fmt.Fprintf(&b, "%s@%d ", f.Kind, f.Offset)
	}
	return b.String()
}

// c03Run drives one sender through a fault plan and checks the outcome.
// mode 0: ticks then End; 1: End drains everything; 2: sends between ticks.
func c03Run(c *C, f framing, msgs []sm, plan []fault, mode int, what string) {
	s := newFaultSink(plan)
	tk := make(manualTicker)
	snd, ch := syslog.NewSender(s, f.T, tk)
	l := drainErrs(ch)
	flush := func() { tk.tick(nil); tk.tick(nil) }
	switch mode {
	case 0, 1:
		for _, m := range msgs {
			if err := snd.Send(m.M); err != nil {
				c.Violate("%s: send refused: %v", what, err)
			}
		}
	case 2:
		for i, m := range msgs {
			if err := snd.Send(m.M); err != nil {
				c.Violate("%s: send refused: %v", what, err)
			}
			if i%2 == 0 {
				flush()
			}
		}
	}
	if mode != 1 {
		// one flush per remaining fault is enough, and one more
		for k := 0; k <= len(plan); k++ {
			flush()
		}
		var want string
		for _, m := range msgs {
			want += m.Want
		}
		c.c03Check(s, f, msgs, plan, what+" before End")
	}
	snd.End()
	<-l.done
	c.c03Check(s, f, msgs, plan, what)
	// failures reported
	faults := s.injected + s.conn
	switch n := l.count(); {
	case faults == 0 && s.nobufs == 0 && n > 0:
		c.Violate("%s: plan [%s]: %d errors reported without a failure: %v", what, planString(plan), n, l.all())
	case faults > 0 && n == 0:
		c.Violate("%s: plan [%s]: %d failures, none reported on the error channel", what, planString(plan), faults)
	}
	s.mu.Lock()
	for i, sc := range s.conns {
		if sc.reused > 0 {
			c.Violate("%s: plan [%s]: connection %d is written to after it failed", what, planString(plan), i)
			break
		}
		if sc.closed != 1 {
			c.Violate("%s: plan [%s]: connection %d (failed %v) closed %d times", what, planString(plan), i, sc.failed, sc.closed)
			break
		}
	}
	if len(s.conns) > s.injected+1 {
		c.Violate("%s: plan [%s]: %d connections for %d failures (ENOBUFS must keep the connection)", what, planString(plan), len(s.conns), s.injected)
	}
	s.mu.Unlock()
	c.Stat("faults_injected", int64(s.injected))
	c.Stat("connect_failures", int64(s.conn))
	c.Stat("enobufs_injected", int64(s.nobufs))
	c.Stat("connections_checked", int64(len(s.conns)))
	if s.injected+s.conn+s.nobufs > 0 {
		c.Stat("runs_with_a_fault_hit", 1)
	}
	c.Eval(s.injected+s.conn+s.nobufs > 0, f.Name, planString(plan), mode, s.bytes())
}

// c03Check re-assembles the streams of all connections against the accepted sequence.
func (c *C) c03Check(s *faultSink, f framing, msgs []sm, plan []fault, what string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	next := 0
	for i, sc := range s.conns {
		frames, rest, err := f.split(sc.data)
		if err != nil {
			c.Violate("%s: plan [%s]: connection %d does not start and continue with whole frames: %v", what, planString(plan), i, err)
			return
		}
		for k, fr := range frames {
			if next >= len(msgs) || fr != msgs[next].Want {
				w := "nothing more"
				if next < len(msgs) {
					w = q(msgs[next].Want)
				}
				c.Violate("%s: plan [%s]: frame %d of connection %d is %s, expected %s", what, planString(plan), k, i, q(fr), w)
				return
			}
			next++
		}
		if len(rest) > 0 {
			if !sc.failed {
				c.Violate("%s: plan [%s]: connection %d was not failed but ends inside a frame: %s", what, planString(plan), i, q(rest))
				return
			}
			// a torn frame must be the beginning of the next frame
			if next >= len(msgs) || !strings.HasPrefix(f.enc(msgs[next].Want), string(rest)) {
				c.Violate("%s: plan [%s]: torn tail %s of connection %d is not the beginning of the next frame", what, planString(plan), q(rest), i)
				return
			}
		}
	}
	if next != len(msgs) {
		c.Violate("%s: plan [%s]: only %d of %d accepted messages written", what, planString(plan), next, len(msgs))
	}
}

func TestC03(t *testing.T) {
	r := newR(t, "C03", "one evaluation = one sender driven through one fault plan (positions of connect failures and of write failures by byte offset and error kind) and its per-connection streams re-assembled; non-trivial = at least one fault was hit; distinct by framing, plan, driving mode and bytes written")
	kinds := []string{"plain", "eof", "epipe", "reset", "refused", "nobufs", "full"}
	allKinds := append(append([]string{}, kinds...), "timeout", "closed", "ioeof", "short", "raw", "syscall", "eagain", "eintr", "enospc", "ebadf", "enetdown", "enomem", "enotconn", "etimedout", "ehostunreach", "emsgsize",
		"raw-again", "raw-intr", "raw-timeout", "path", "op-again", "progress", "unexpected", "context", "typed")
	r.Case("no-descriptors", func(c *C) {
		c.Parallel(r.N(24, 400), func(i int) {
			// TCP takes what is written after the server has gone
			network := []string{"tcp", "unix", "unixgram", "local"}[i/3%4]
			c.noFileSend(c.Sub(i), i%3, network, network != "tcp" && i/12%2 == 1, i)
		})
	})
	for _, f := range framings() {
		// every byte offset of a three-frame stream, every kind, every driving mode
		r.Case("single-fault/"+f.Name, func(c *C) {
			msgs := c03Msgs(c.Rand, f, 3, 30)
			total := 0
			for _, m := range msgs {
				total += len(f.enc(m.Want))
			}
			c.Stat("offsets_enumerated_"+f.Name, int64(total+1))
			c.Parallel(total+1, func(off int) {
				for _, k := range kinds {
					for mode := 0; mode < 3; mode++ {
						c03Run(c, f, msgs, []fault{{k, off}}, mode, fmt.Sprintf("single fault, mode %d", mode))
					}
				}
			})
		})
		// failing to connect k times, alone and before or after a write fault
		// every kind of error at some offsets, alone and repeated
		r.Case("every-error/"+f.Name, func(c *C) {
			msgs := c03Msgs(c.Rand, f, 4, 30)
			total := 0
			for _, m := range msgs {
				total += len(f.enc(m.Want))
			}
			c.Parallel(len(allKinds), func(i int) {
				for k := 0; k < 24; k++ {
					off := (k / 3) * total / 8
					c03Run(c, f, msgs, []fault{{allKinds[i], off}}, k%3, "every error")
					c03Run(c, f, msgs, []fault{{allKinds[i], off}, {allKinds[i], 3 * k}, {"connect", 0}, {allKinds[i], 0}}, k%3, "every error, repeated")
				}
			})
		})
		// very many failures, in virtual time
		r.Case("long-outage/"+f.Name, func(c *C) {
			for i := 0; i < r.N(6, 40) && !r.full(); i++ {
				g := c.Sub(i)
				k := []int{300, 1000, 5000, 20000, 70000, 200000}[i%6]
				var plan []fault
				for j := 0; j < k; j++ {
					plan = append(plan, fault{"connect", 0})
				}
				synctest.Test(t, func(*testing.T) {
					c.Guard(func() {
						c03Run(c, f, c03Msgs(g, f, 1+g.IntN(20), 40), plan, 1-i/6%2, fmt.Sprintf("%d connect failures", k))
					})
				})
				plan = nil
				for j := 0; j < k/10; j++ {
					plan = append(plan, fault{pick(g, allKinds...), pick(g, 0, 0, 1, g.IntN(80))})
				}
				synctest.Test(t, func(*testing.T) {
					c.Guard(func() {
						c03Run(c, f, c03Msgs(g, f, 1+g.IntN(200), 40), plan, g.IntN(2), fmt.Sprintf("%d failures", k/10))
					})
				})
			}
		})
		// producers run while connections fail
		r.Case("concurrent/"+f.Name, func(c *C) {
			c.Parallel(r.N(400, 12000), func(i int) { c03Concurrent(c, c.Sub(i), f, allKinds) })
		})
		// a very long queue is kept while nothing can be written
		r.Case("backlog/"+f.Name, func(c *C) {
			for i := 0; i < 2; i++ {
				c03Backlog(c, f, i, r.N(300000, 2000000))
			}
		})
		r.Case("connect-faults/"+f.Name, func(c *C) {
			msgs := c03Msgs(c.Rand, f, 3, 30)
			for k := 0; k < 8; k++ {
				var plan []fault
				for j := 0; j < k; j++ {
					plan = append(plan, fault{"connect", 0})
				}
				for mode := 0; mode < 3; mode++ {
					c03Run(c, f, msgs, plan, mode, "connect failures")
					for _, kind := range kinds {
						for _, off := range []int{0, 1, 10, 60, len(f.enc(msgs[0].Want)), len(f.enc(msgs[0].Want)) + 1} {
							c03Run(c, f, msgs, append(append([]fault{}, plan...), fault{kind, off}), mode, "connect then write failure")
							c03Run(c, f, msgs, append([]fault{{kind, off}}, plan...), mode, "write then connect failures")
						}
					}
				}
			}
		})
		// two faults: pairs of offsets
		r.Case("double-fault/"+f.Name, func(c *C) {
			msgs := c03Msgs(c.Rand, f, 3, 12)
			total := 0
			for _, m := range msgs {
				total += len(f.enc(m.Want))
			}
			step := r.N(7, 1)
			c.Parallel((total+step)/step, func(i int) {
				g := c.Sub(i)
				for b := 0; b <= total; b += step {
					c03Run(c, f, msgs, []fault{{pick(g, kinds...), i * step}, {pick(g, kinds...), b}}, g.IntN(3), "double fault")
				}
			})
		})
		r.Case("random/"+f.Name, func(c *C) {
			c.Parallel(r.N(1500, 40000), func(i int) {
				g := c.Sub(i)
				msgs := c03Msgs(g, f, 1+g.IntN(pick(g, 4, 12, 150)), pick(g, 20, 300, 3000))
				var plan []fault
				for k := 1 + g.IntN(8); k > 0; k-- {
					switch g.IntN(4) {
					case 0:
						plan = append(plan, fault{"connect", 0})
					default:
						off := g.IntN(200)
						switch g.IntN(4) {
						case 0:
							off = 0
						case 1: // exactly at a frame boundary
							off = 0
							for j := g.IntN(len(msgs)); j > 0; j-- {
								off += len(f.enc(msgs[j].Want))
							}
							off += g.IntN(3) - 1
							if off < 0 {
								off = 0
							}
						case 2:
							off = g.IntN(20000)
						}
						plan = append(plan, fault{pick(g, allKinds...), off})
					}
				}
				c03Run(c, f, msgs, plan, g.IntN(3), "random plan")
				c.Sample("random/"+f.Name, "%d messages, plan [%s]", len(msgs), planString(plan))
			})
		})
	}
}

// c03Concurrent: sends happen before, while and after connections and connects fail, in particular
// inside of the calls of the connection (as far as the sender lets them in).
func c03Concurrent(c *C, g *rand.Rand, f framing, kinds []string) {
	var plan []fault
	for k := 1 + g.IntN(12); k > 0; k-- {
		if g.IntN(4) == 0 {
			plan = append(plan, fault{"connect", 0})
		} else {
			plan = append(plan, fault{pick(g, kinds...), pick(g, 0, 1, g.IntN(60), g.IntN(500))})
		}
	}
	s := newFaultSink(plan)
	kick, sent := make(chan struct{}), make(chan struct{}, 1)
	sg := rand.New(rand.NewPCG(g.Uint64(), 1)) // used by the sender's goroutine only
	intrude := func() {
		if sg.IntN(3) > 0 {
			return
		}
		select {
		case <-sent:
		default:
		}
		select {
		case kick <- struct{}{}:
			select {
			case <-sent:
				c.Stat("sends_inside_calls", 1)
			case <-time.After(300 * time.Microsecond):
			}
		case <-time.After(50 * time.Microsecond):
		}
	}
	write, connect := s.onWrite, s.onConnect
	s.onWrite = func(sc *sinkConn, p []byte) (int, error) {
		intrude()
		n, err := write(sc, p)
		if err != nil {
			intrude()
		}
		return n, err
	}
	s.onConnect = func(k int) error { intrude(); return connect(k) }
	s.onClose = func(*sinkConn) error { intrude(); return nil }
	tk := make(manualTicker)
	snd, ch := syslog.NewSender(s, f.T, tk)
	l := drainErrs(ch)
	stop := make(chan struct{})
	var ticks sync.WaitGroup
	ticks.Add(1)
	tg := rand.New(rand.NewPCG(g.Uint64(), 2))
	go func() {
		defer ticks.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			jitter(tg)
			tk.tick(stop)
		}
	}()
	type span struct {
		p, k     int
		from, to int64
	}
	var clock atomic.Int64
	var mu sync.Mutex
	spans := map[string]span{}
	var wg sync.WaitGroup
	total := 0
	for p := 1 + g.IntN(4); p > 0; p-- {
		n := 1 + g.IntN(40)
		total += n
		pg := rand.New(rand.NewPCG(g.Uint64(), uint64(p)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				select {
				case <-kick:
				case <-time.After(time.Duration(pg.IntN(300)) * time.Microsecond):
				}
				m := randMsg(pg, f, fmt.Sprintf("p%d.%d", p, k), 60)
				from := clock.Add(1)
				err := snd.Send(m.M)
				to := clock.Add(1)
				select {
				case sent <- struct{}{}:
				default:
				}
				if err != nil {
					c.Violate("send refused: %v", err)
				}
				mu.Lock()
				spans[m.Want] = span{p, k, from, to}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	close(stop)
	ticks.Wait()
	snd.End()
	<-l.done
	what := fmt.Sprintf("%s framing, %d messages sent while connections fail, plan [%s]", f.Name, total, planString(plan))
	s.mu.Lock()
	defer s.mu.Unlock()
	seen := map[string]bool{}
	latest := int64(0)
	torn := ""
	var order strings.Builder
	for i, sc := range s.conns {
		frames, rest, err := f.split(sc.data)
		if err != nil {
			c.Violate("%s: connection %d does not start and continue with whole frames: %v", what, i, err)
			return
		}
		for k, fr := range frames {
			sp, ok := spans[fr]
			switch {
			case !ok:
				c.Violate("%s: frame %d of connection %d was never sent: %s", what, k, i, q(fr))
				return
			case seen[fr]:
				c.Violate("%s: frame %d of connection %d is written again: %s", what, k, i, q(fr))
				return
			case sp.to < latest:
				c.Violate("%s: frame %d of connection %d comes behind one whose send began after its send returned: %s", what, k, i, q(fr))
				return
			case torn != "" && k == 0 && !strings.HasPrefix(f.enc(fr), torn):
				c.Violate("%s: connection %d begins with %s, the last frame of the connection before was torn: %s", what, i, q(fr), q(torn))
				return
			}
			seen[fr] = true
			latest = max(latest, sp.from)
			fmt.Fprintf(&order, "%d.%d ", sp.p, sp.k)
			torn = ""
		}
		if len(rest) > 0 && !sc.failed {
			c.Violate("%s: connection %d was not failed but ends inside a frame: %s", what, i, q(rest))
			return
		}
		if len(rest) > 0 {
			torn = string(rest)
		}
		if sc.closed != 1 {
			c.Violate("%s: connection %d (failed %v) closed %d times", what, i, sc.failed, sc.closed)
		}
	}
	if len(seen) != total {
		c.Violate("%s: %d of %d accepted messages written", what, len(seen), total)
	}
	if len(s.conns) > s.injected+1 {
		c.Violate("%s: %d connections for %d failures", what, len(s.conns), s.injected)
	}
	if s.injected+s.conn > 0 && l.count() == 0 {
		c.Violate("%s: no failure reported", what)
	}
	c.Stat("concurrent_faults", int64(s.injected+s.conn+s.nobufs))
	c.Eval(s.injected+s.conn+s.nobufs > 0, planString(plan), order.String())
}

// shortConn takes some octets, then fails.
type shortConn struct {
	left int
	data []byte
}

func (s *shortConn) Write(p []byte) (int, error) {
	n := min(s.left, len(p))
	s.left -= n
	s.data = append(s.data, p[:n]...)
	if n < len(p) {
		return n, errPlain
	}
	return n, nil
}

func (s *shortConn) Close() error { return nil }

// c03Backlog: k messages are accepted while connecting fails (i=0), or while every connection fails
// behind some octets (i=1); then a connection works.
func c03Backlog(c *C, f framing, i, k int) {
	hc := &hashConn{h: sha256.New()}
	var down atomic.Bool
	down.Store(true)
	var failed []*shortConn
	tk := make(manualTicker)
	snd, ch := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) {
		switch {
		case !down.Load():
			return hc, nil
		case i%2 == 0:
			return nil, errPlain
		}
		sc := &shortConn{left: 1000}
		failed = append(failed, sc)
		return sc, nil
	}), f.T, tk)
	l := drainErrs(ch)
	frame := func(j int) string { return f.enc("<0>1 1970-01-01T00:00:00Z - huge - - - " + strconv.Itoa(j)) }
	base := syslog.EmptyMessage().Time(time.Unix(0, 0).UTC()).AppName("huge")
	for j := 0; j < k; j++ {
		if err := snd.Send(base.Msg(strconv.Itoa(j))); err != nil {
			c.Violate("message %d of a queue of %d refused: %v", j, k, err)
			break
		}
		if j%(k/7) == 1 {
			tk.tick(nil)
			tk.tick(nil)
		}
	}
	tk.tick(nil)
	down.Store(false)
	snd.End()
	<-l.done
	next := 0
	for n, sc := range failed {
		frames, rest, err := f.split(sc.data)
		for _, fr := range frames {
			if err == nil && f.enc(fr) != frame(next) {
				err = fmt.Errorf("frame %s where %s is due", q(fr), q(frame(next)))
			}
			next++
		}
		if err == nil && !strings.HasPrefix(frame(next), string(rest)) {
			err = fmt.Errorf("the torn frame %s is not the begin of %s", q(rest), q(frame(next)))
		}
		if err != nil {
			c.Violate("%s framing, failing connection %d with %d messages queued: %v", f.Name, n, k, err)
			return
		}
	}
	want, bytes := sha256.New(), int64(0)
	for j := next; j < k; j++ {
		want.Write([]byte(frame(j)))
		bytes += int64(len(frame(j)))
	}
	if hc.n != bytes || string(hc.h.Sum(nil)) != string(want.Sum(nil)) {
		c.Violate("%s framing: %d messages accepted while nothing works, %d left to be written: %d octets written, their frames are %d octets (or not the same)", f.Name, k, k-next, hc.n, bytes)
	}
	c.Stat("backlog_messages", int64(k))
	c.Eval(true, "backlog", f.Name, i, k)
}

func c03Msgs(g *rand.Rand, f framing, n, max int) []sm {
	out := make([]sm, n)
	repeats := g.IntN(4) == 0
	for i := range out {
		out[i] = randMsg(g, f, fmt.Sprintf("f%d", i), max)
		if repeats && i > 0 && g.IntN(2) == 0 { // the same message again
			out[i] = out[i-1-g.IntN(min(i, 3))]
		}
	}
	return out
}
