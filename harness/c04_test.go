package vharness

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// destination states of a script
const (
	destOK = iota
	destNoConnect
	destWriteFails
	destNoBufs
	destSlow
	destStates
)

var destNames = []string{"healthy", "connect fails", "writes fail", "no buffers", "slow"}

// c04World is a sender in virtual time over a destination that changes its state.
type c04World struct {
	c      *C
	f      framing
	s      *sink
	state  atomic.Int32
	busy   atomic.Int32 // the sender sleeps in the destination, with its lock held
	g      *rand.Rand
	gmu    sync.Mutex
	snd    *syslog.Sender
	ch     <-chan error
	errs   *errLog
	period time.Duration
	limit  int // frames above are refused with EMSGSIZE
	sent   []sm
	over   map[string]bool
	toobig int
	what   string
}

func (w *c04World) rnd(n int) int {
	w.gmu.Lock()
	defer w.gmu.Unlock()
	return w.g.IntN(n)
}

func newC04World(c *C, g *rand.Rand, f framing, errMode int, limit int) *c04World {
	w := &c04World{c: c, f: f, g: g, limit: limit, over: map[string]bool{}}
	w.s = &sink{
		onConnect: func(int) error {
			if w.state.Load() == destNoConnect {
				return []error{errSink, opErr("connect", syscall.ECONNREFUSED), io.EOF}[w.rnd(3)]
			}
			if w.state.Load() == destSlow {
				time.Sleep(time.Duration(w.rnd(50)) * time.Millisecond)
			}
			return nil
		},
		onWrite: func(_ *sinkConn, p []byte) (int, error) {
			if w.limit > 0 && len(p) > w.limit {
				return 0, errMsgSize
			}
			switch w.state.Load() {
			case destWriteFails, destNoConnect:
				return w.rnd(len(p)), []error{errSink, opErr("write", syscall.EPIPE), opErr("write", syscall.ECONNRESET), io.ErrShortWrite}[w.rnd(4)]
			case destNoBufs:
				n := w.rnd(len(p))
				if w.limit > 0 {
					n = 0
				}
				return n, errNoBufs
			case destSlow:
				w.busy.Add(1)
				time.Sleep(time.Duration(w.rnd(20)) * time.Millisecond)
				w.busy.Add(-1)
			}
			return len(p), nil
		},
	}
	w.period = time.Duration(1+g.IntN(1000)) * time.Millisecond
	tick := time.NewTicker(w.period)
	w.snd, w.ch = syslog.NewSender(w.s, f.T, tick.C)
	if errMode == 0 {
		w.errs = drainErrs(w.ch)
	}
	return w
}

func (w *c04World) send(id string) bool {
	max := 200
	m := randMsg(w.g, w.f, id, max)
	if w.limit > 0 && w.g.IntN(6) == 0 {
		m = sizedMsg(w.g, w.f, id, w.limit+1+w.g.IntN(1000))
	}
	if w.limit > 0 && len(w.f.enc(m.Want)) > w.limit {
		w.over[m.Want] = true
		w.toobig++
	}
	// virtual time stands still while a goroutine waits for a mutex: only send
	// when the sender holds none
	for synctest.Wait(); w.busy.Load() > 0; synctest.Wait() {
		time.Sleep(time.Millisecond)
	}
	if err := w.snd.Send(m.M); err != nil && !w.over[m.Want] {
		w.c.Violate("%s: send refused: %v", w.what, err)
		return false
	}
	w.sent = append(w.sent, m)
	return true
}

// missing gives the accepted, deliverable messages which are on no connection.
func (w *c04World) missing() (n int, first string) {
	have := map[string]bool{}
	w.s.mu.Lock()
	for _, sc := range w.s.conns {
		frames, _, _ := w.f.split(sc.data)
		for _, fr := range frames {
			have[fr] = true
		}
	}
	w.s.mu.Unlock()
	for _, m := range w.sent {
		if !have[m.Want] && !w.over[m.Want] {
			if n == 0 {
				first = m.Want
			}
			n++
		}
	}
	return
}

// endIn runs End and tells whether it returned within d of virtual time.
func (w *c04World) endIn(d time.Duration) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		w.c.Guard(w.snd.End)
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func TestC04(t *testing.T) {
	r := newR(t, "C04", "one evaluation = one moment at which a live sender must have delivered (a tick, the ticks after a recovery, or End), in virtual time; distinct = distinct (script position, delivered bytes)")
	fs := framings()

	r.Case("days", func(c *C) { c.Days() })
	r.Case("healthy", func(c *C) {
		for i := 0; i < r.N(700, 20000) && !r.full(); i++ {
			c.c04Healthy(t, c.Sub(i), fs[i%3], i)
		}
	})
	r.Case("scripts", func(c *C) {
		for i := 0; i < r.N(1500, 40000) && !r.full(); i++ {
			c.c04Script(t, c.Sub(i), fs[i%3], i)
		}
	})
	// many failures while nobody reads the error channel
	r.Case("unread-errors", func(c *C) {
		for _, k := range []int{1, 2, 3, 5, 10, 11, 50, 100, 1000} {
			for _, st := range []int{destNoConnect, destWriteFails, destNoBufs} {
				for mode := 1; mode <= 2; mode++ {
					c.c04Unread(t, c.Sub(k*10+st), fs[k%3], k, st, mode)
				}
			}
		}
	})
	r.Case("nothing-sent", func(c *C) {
		for i := 0; i < r.N(60, 1000); i++ {
			g := c.Sub(i)
			synctest.Test(t, func(*testing.T) {
				c.Guard(func() {
					w := newC04World(c, g, fs[i%3], i%2, 0)
					w.state.Store(int32(i % destStates))
					w.what = "nothing sent, destination " + destNames[i%destStates]
					time.Sleep(time.Duration(i%4) * 3 * w.period)
					if !w.endIn(time.Minute) {
						c.Violate("%s: End does not return", w.what)
						w.state.Store(destOK)
						time.Sleep(time.Minute)
					}
					c.afterEnd(w)
					c.Eval(true, w.what, i%4)
				})
			})
		}
	})
	r.Case("too-big", func(c *C) {
		for i := 0; i < r.N(300, 8000) && !r.full(); i++ {
			c.c04TooBig(t, c.Sub(i), fs[i%3], i)
		}
	})
	r.Case("too-big-datagrams", func(c *C) {
		c.Parallel(r.N(9, 100), func(i int) { c.c04TooBigSocket(c.Sub(i), fs[i%3], i) })
	})
	// many goroutines, real scheduler
	r.Case("contention", func(c *C) {
		c.Parallel(r.N(40, 1500), func(i int) { c.c04Contention(c.Sub(i), fs[i%3], i) })
	})
	r.Case("few-processors", func(c *C) {
		for k := 1; k <= 3; k++ {
			c.Cpus(k, func() {
				c.Parallel(r.N(10, 300), func(i int) { c.c04Contention(c.Sub(1000*k+i), fs[i%3], 1000*k+i) })
				c.Parallel(r.N(6, 100), func(i int) { c.c04Closed(c.Sub(1000*k+900+i), fs[i%3], 1000*k+i) })
			})
		}
	})
	r.Case("no-more-ticks", func(c *C) {
		c.Parallel(r.N(30, 600), func(i int) { c.c04Closed(c.Sub(i), fs[i%3], i) })
	})
	r.Case("end-while-failing", func(c *C) {
		for i := 0; i < r.N(300, 8000) && !r.full(); i++ {
			c.c04EndFailing(t, c.Sub(i), fs[i%3], i)
		}
	})
}

// afterEnd: sends are refused, the error channel gets closed.
func (c *C) afterEnd(w *c04World) {
	synctest.Wait()
	if err := w.snd.Send(mkMsg("late", 1, time.Unix(1, 0), "late").M); err == nil {
		c.Violate("%s: a send after End is accepted", w.what)
	}
	if w.errs != nil {
		select {
		case <-w.errs.done:
		default:
			c.Violate("%s: the error channel is not closed after End", w.what)
		}
		return
	}
	for k := 0; k < 100000; k++ {
		select {
		case _, ok := <-w.ch:
			if !ok {
				return
			}
		default:
			c.Violate("%s: the error channel is not closed after End", w.what)
			return
		}
	}
}

func (c *C) c04Healthy(t *testing.T, g *rand.Rand, f framing, i int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			w := newC04World(c, g, f, g.IntN(2), 0)
			w.what = fmt.Sprintf("%s framing, healthy destination, flush every %v", f.Name, w.period)
			// between two ticks
			time.Sleep(w.period / 2)
			n := 0
			for k := 2 + g.IntN(8); k > 0; k-- {
				for j := pick(g, 0, 1, 1, 2, 10, 1200); j > 0; j-- {
					n++
					if !w.send(fmt.Sprintf("h%d-%d", i, n)) {
						break
					}
				}
				time.Sleep(w.period) // passes one tick
				synctest.Wait()
				if k, first := w.missing(); k > 0 {
					c.Violate("%s: one tick after they were accepted %d messages are not delivered, first %s", w.what, k, q(first))
					break
				}
				c.Eval(n > 0, fmt.Sprint(i, n), f.Name)
			}
			for j := g.IntN(3); j > 0; j-- {
				n++
				w.send(fmt.Sprintf("h%d-%d", i, n))
			}
			if !w.endIn(w.period/4 + time.Second) {
				c.Violate("%s: End does not return", w.what)
				time.Sleep(time.Hour)
			}
			if k, first := w.missing(); k > 0 {
				c.Violate("%s: End returned and %d messages are not delivered, first %s", w.what, k, q(first))
			}
			c.afterEnd(w)
			c.Stat("healthy_messages", int64(n))
		})
	})
}

func (c *C) c04Script(t *testing.T, g *rand.Rand, f framing, i int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			errMode := g.IntN(3) // 0 read, 1 never, 2 late
			w := newC04World(c, g, f, errMode, pick(g, 0, 0, 3000))
			time.Sleep(w.period / 2)
			n := 0
			log := ""
			for o := 3 + g.IntN(15); o > 0; o-- {
				st := g.IntN(destStates)
				if g.IntN(3) == 0 {
					st = destOK
				}
				w.state.Store(int32(st))
				ticks := pick(g, 0, 1, 2, 7)
				k := pick(g, 0, 1, 3, 20)
				log += fmt.Sprintf("%s: %d sent, %d ticks; ", destNames[st], k, ticks)
				w.what = fmt.Sprintf("%s framing, error channel mode %d, script %s", f.Name, errMode, log)
				for ; k > 0; k-- {
					n++
					if !w.send(fmt.Sprintf("x%d-%d", i, n)) {
						break
					}
				}
				time.Sleep(time.Duration(ticks) * w.period)
			}
			if errMode == 2 {
				w.errs = drainErrs(w.ch)
			}
			w.state.Store(destOK)
			time.Sleep(5 * w.period)
			// a slow write may still be under way
			for k := 0; k < 20; k++ {
				if n, _ := w.missing(); n == 0 {
					break
				}
				time.Sleep(5 * time.Second)
				if k == 19 {
					n, first := w.missing()
					c.Violate("%s: the destination recovered 5 ticks ago, %d of %d messages are not delivered, first %s", w.what, n, len(w.sent), q(first))
				}
			}
			c.Eval(n > 0, log, f.Name, errMode)
			// live again: the next tick delivers
			n++
			w.send(fmt.Sprintf("x%d-%d", i, n))
			time.Sleep(w.period + 100*time.Millisecond)
			synctest.Wait()
			if k, first := w.missing(); k > 0 {
				c.Violate("%s: after the recovery a message is not delivered by the next tick: %s", w.what, q(first))
			}
			n++
			w.send(fmt.Sprintf("x%d-%d", i, n))
			if !w.endIn(time.Minute) {
				c.Violate("%s: End does not return", w.what)
				return
			}
			if k, first := w.missing(); k > 0 {
				c.Violate("%s: End returned and %d messages are not delivered, first %s", w.what, k, q(first))
			}
			c.afterEnd(w)
			c.Stat("script_messages", int64(n))
			c.Stat("script_connects", int64(w.s.attempts))
			c.Sample("script", "%s", w.what)
		})
	})
}

func (c *C) c04Unread(t *testing.T, g *rand.Rand, f framing, fails, st, mode int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			w := newC04World(c, g, f, mode, 0)
			w.what = fmt.Sprintf("%s framing, %d ticks while %s, nobody reads the error channel (mode %d)", f.Name, fails, destNames[st], mode)
			w.state.Store(int32(st))
			time.Sleep(w.period / 2)
			for k := 0; k < 5; k++ {
				w.send(fmt.Sprintf("u%d-%d-%d-%d", fails, st, mode, k))
			}
			for k := 0; k < fails; k++ {
				time.Sleep(w.period)
			}
			w.send(fmt.Sprintf("u%d-%d-%d-more", fails, st, mode))
			if mode == 2 {
				w.errs = drainErrs(w.ch)
			}
			w.state.Store(destOK)
			time.Sleep(5 * w.period)
			synctest.Wait()
			if k, first := w.missing(); k > 0 {
				c.Violate("%s: the destination recovered 5 ticks ago, %d of %d messages are not delivered, first %s", w.what, k, len(w.sent), q(first))
			}
			if !w.endIn(time.Minute) {
				c.Violate("%s: End does not return", w.what)
				return
			}
			c.afterEnd(w)
			c.Eval(true, w.what)
			c.Stat("unread_failures", int64(fails))
		})
	})
}

func (c *C) c04TooBig(t *testing.T, g *rand.Rand, f framing, i int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			errMode := g.IntN(2)
			w := newC04World(c, g, f, errMode, pick(g, 300, 1000, 3000))
			w.what = fmt.Sprintf("%s framing, datagrams up to %d bytes, error channel mode %d", f.Name, w.limit, errMode)
			time.Sleep(w.period / 2)
			n := 0
			for k := 1 + g.IntN(5); k > 0; k-- {
				for j := 1 + g.IntN(6); j > 0; j-- {
					n++
					id := fmt.Sprintf("t%d-%d", i, n)
					if g.IntN(3) == 0 {
						m := sizedMsg(g, f, id, w.limit+1+g.IntN(2000))
						w.over[m.Want] = true
						w.toobig++
						w.sent = append(w.sent, m)
						if err := w.snd.Send(m.M); err != nil {
							c.Stat("refused_at_send", 1) // telling at once is a report too
						}
					} else {
						m := mkMsg(id, 1, time.Unix(int64(n), 0), "fits")
						w.sent = append(w.sent, m)
						if err := w.snd.Send(m.M); err != nil {
							c.Violate("%s: send refused: %v", w.what, err)
						}
					}
				}
				time.Sleep(w.period)
				synctest.Wait()
				if k, first := w.missing(); k > 0 {
					c.Violate("%s: one tick later %d messages that fit are not delivered (%d do not fit), first %s", w.what, k, w.toobig, q(first))
					break
				}
				c.Eval(w.toobig > 0, fmt.Sprint(i, n), f.Name)
			}
			if !w.endIn(time.Minute) {
				c.Violate("%s: End does not return", w.what)
				return
			}
			if k, first := w.missing(); k > 0 {
				c.Violate("%s: End returned and %d messages are not delivered, first %s", w.what, k, q(first))
			}
			if w.toobig > 0 && errMode == 0 && w.errs.count() == 0 {
				c.Violate("%s: %d messages that can never be sent, none reported", w.what, w.toobig)
			}
			c.afterEnd(w)
			c.Stat("messages_too_big", int64(w.toobig))
		})
	})
}

// c04Closed: the ticker given by the user is closed, absent or silent. Sends are
// accepted until End, and End delivers all of them.
func (c *C) c04Closed(g *rand.Rand, f framing, i int) {
	s := &sink{}
	var tick chan time.Time
	what := f.Name + " framing, " + []string{"closed ticker", "no ticker", "silent ticker"}[i%3]
	if i%3 != 1 {
		tick = make(chan time.Time, 1)
	}
	snd, ch := syslog.NewSender(s, f.T, tick)
	errs := drainErrs(ch)
	var want []string
	send := func(n int) bool {
		for k := 0; k < n; k++ {
			m := randMsg(g, f, fmt.Sprintf("ct%d-%d", i, len(want)), 200)
			if err := snd.Send(m.M); err != nil {
				c.Violate("%s: send %d before End refused: %v", what, len(want), err)
				return false
			}
			want = append(want, m.Want)
		}
		return true
	}
	ok := send(g.IntN(5))
	if i%3 == 0 {
		if g.IntN(2) == 0 {
			tick <- time.Now()
		}
		close(tick)
	}
	for k := 0; ok && k < 4; k++ {
		time.Sleep(time.Duration(g.IntN(2000)) * time.Microsecond)
		ok = send(1 + g.IntN(4))
	}
	done := make(chan struct{})
	go func() { defer close(done); c.Guard(snd.End) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		c.Violate("%s: End does not return", what)
		return
	}
	c.Progress()
	have := map[string]int{}
	s.mu.Lock()
	for _, sc := range s.conns {
		frames, _, _ := f.split(sc.data)
		for _, fr := range frames {
			have[fr]++
		}
	}
	s.mu.Unlock()
	for k, m := range want {
		if have[m] == 0 {
			c.Violate("%s: message %d of %d is not delivered after End: %s", what, k, len(want), q(m))
			break
		}
	}
	<-errs.done
	c.Stat("sends_without_ticks", int64(len(want)))
	c.Eval(true, "closed", i, len(want))
}

func (c *C) c04TooBigSocket(g *rand.Rand, f framing, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	addr := dir + "/d"
	peer, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: addr, Net: "unixgram"})
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	defer peer.Close()
	var mu sync.Mutex
	got := map[string]bool{}
	go func() {
		buf := make([]byte, 1<<20)
		for {
			n, err := peer.Read(buf)
			if err != nil {
				return
			}
			mu.Lock()
			got[string(buf[:n])] = true
			mu.Unlock()
		}
	}()
	snd, ch, err := (syslog.Dialer{FlushDelay: 3 * time.Millisecond}).Dial("unixgram", addr, f.T)
	if err != nil {
		c.Violate("Dial: %v", err)
		return
	}
	errs := drainErrs(ch)
	var fit []string
	big := 0
	for k := 0; k < 20; k++ {
		id := fmt.Sprintf("bs%d-%d", i, k)
		if k%4 == 1 {
			m := sizedMsg(g, f, id, 1<<20+g.IntN(1<<20))
			snd.Send(m.M)
			big++
			continue
		}
		m := randMsg(g, f, id, 200)
		if err := snd.Send(m.M); err != nil {
			c.Violate("send refused: %v", err)
		}
		fit = append(fit, f.enc(m.Want))
		if k%5 == 0 {
			time.Sleep(4 * time.Millisecond)
		}
	}
	done := make(chan struct{})
	go func() { defer close(done); c.Guard(snd.End) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		c.Violate("%s framing over unixgram with datagrams above the limit: End does not return", f.Name)
		return
	}
	c.Progress()
	have := func() (n int) {
		mu.Lock()
		defer mu.Unlock()
		for _, m := range fit {
			if got[m] {
				n++
			}
		}
		return
	}
	if !waitFor(10*time.Second, func() bool { return have() == len(fit) }) {
		c.Violate("%s framing over unixgram with datagrams above the limit: %d of %d messages that fit arrived", f.Name, have(), len(fit))
	}
	<-errs.done
	if errs.count() == 0 {
		c.Violate("%s framing over unixgram: %d datagrams above the limit, none reported", f.Name, big)
	}
	c.Eval(true, "dgram", i, f.Name)
}

func (c *C) c04EndFailing(t *testing.T, g *rand.Rand, f framing, i int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			errMode := g.IntN(2)
			w := newC04World(c, g, f, errMode, 0)
			st := 1 + g.IntN(3)
			w.what = fmt.Sprintf("%s framing, End while %s, error channel mode %d", f.Name, destNames[st], errMode)
			w.state.Store(int32(pick(g, st, destOK)))
			time.Sleep(w.period / 2)
			for k := 1 + g.IntN(10); k > 0; k-- {
				w.send(fmt.Sprintf("e%d-%d", i, k))
			}
			if g.IntN(2) == 0 {
				time.Sleep(w.period)
			}
			w.state.Store(int32(st))
			w.send(fmt.Sprintf("e%d-last", i))
			done := make(chan struct{})
			go func() {
				defer close(done)
				c.Guard(w.snd.End)
			}()
			time.Sleep(time.Duration(g.IntN(3000)) * time.Millisecond)
			w.state.Store(destOK)
			select {
			case <-done:
			case <-time.After(time.Minute):
				c.Violate("%s: a minute after the recovery End has not returned", w.what)
				return
			}
			if k, first := w.missing(); k > 0 {
				c.Violate("%s: End returned and %d accepted messages are not delivered, first %s", w.what, k, q(first))
			}
			c.afterEnd(w)
			c.Eval(true, w.what, i)
			c.Stat("ends_while_failing", 1)
		})
	})
}

func (c *C) c04Contention(g *rand.Rand, f framing, i int) {
	var fails atomic.Int64
	s := &sink{
		onConnect: func(k int) error {
			if fails.Load() > 0 && k%2 == 0 {
				return errSink
			}
			return nil
		},
		onWrite: func(_ *sinkConn, p []byte) (int, error) {
			if fails.Add(-1) > 0 {
				return len(p) / 2, errors.New("failed write")
			}
			return len(p), nil
		},
	}
	tick := time.NewTicker(time.Duration(100+g.IntN(1000)) * time.Microsecond)
	defer tick.Stop()
	snd, ch := syslog.NewSender(s, f.T, tick.C)
	var errs *errLog
	if i%2 == 0 {
		errs = drainErrs(ch)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var want []string
	for p := 0; p < 6; p++ {
		wg.Add(1)
		pg := rand.New(rand.NewPCG(uint64(i), uint64(p)))
		go func() {
			defer wg.Done()
			c.Guard(func() {
				for k := 0; k < 200; k++ {
					if pg.IntN(50) == 0 {
						fails.Store(int64(pg.IntN(20)))
					}
					m := mkMsg(fmt.Sprintf("c%d.%d-%d", i, p, k), 1, time.Unix(int64(k), 0), "contention")
					if err := snd.Send(m.M); err != nil {
						c.Violate("send refused: %v", err)
						return
					}
					mu.Lock()
					want = append(want, m.Want)
					mu.Unlock()
				}
			})
		}()
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		fails.Store(0)
		c.Guard(snd.End)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		c.Violate("%s framing, 6 producers, failing writes, error channel read %v: Send or End never returns", f.Name, errs != nil)
		return
	}
	have := map[string]bool{}
	for _, sc := range s.conns {
		frames, _, _ := f.split(sc.data)
		for _, fr := range frames {
			have[fr] = true
		}
	}
	for _, m := range want {
		if !have[m] {
			c.Violate("%s framing, contention: End returned and %s is not delivered", f.Name, q(m))
			break
		}
	}
	c.Eval(true, "contention", i)
	c.Stat("contended_sends", int64(len(want)))
}
