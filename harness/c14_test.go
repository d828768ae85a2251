package vharness

import (
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// endBound is how long everything may take to be over after End: far above the delay given to
// the peers, far below a leak.
const endBound = 20 * time.Second

// floodConn never stops sending frames.
type floodConn struct {
	mu     sync.Mutex
	frame  []byte
	tag    string
	f      framing
	k      int
	buf    []byte
	closed int
	late   int
	every  time.Duration
}

func (s *floodConn) RemoteAddr() net.Addr { return &net.UnixAddr{Name: "flood", Net: "unix"} }
func (s *floodConn) Close() error {
	s.mu.Lock()
	s.closed++
	s.mu.Unlock()
	return nil
}

func (s *floodConn) Read(p []byte) (int, error) {
	time.Sleep(s.every)
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed > 0 {
		s.late++
		return 0, os.ErrClosed
	}
	if len(s.buf) == 0 {
		s.buf = []byte(s.f.enc(fmt.Sprintf("<1>1 - host app %s - - %d", s.tag, s.k)))
		s.k++
	}
	n := copy(p, s.buf)
	s.buf = s.buf[n:]
	return n, nil
}

// lateListener hands out a connection even after its Close, once.
type lateListener struct {
	*scriptListener
	extra *scriptConn
	given bool
}

func (l *lateListener) Accept() (syslog.DataReader, error) {
	d, err := l.scriptListener.Accept()
	if err != nil && !l.given {
		l.given = true
		return l.extra, nil
	}
	return d, err
}

func TestC14(t *testing.T) {
	r := newR(t, "C14", "one evaluation = one receiver ended in one state, with its remaining results, the closes of the listener and of every connection, the error channel and the goroutines left checked afterwards; distinct = distinct (state, framing, moment)")
	fs := framings()
	base, _ := census()
	if base != 0 {
		r.Inconclusive("%d goroutines of the library run before anything was started", base)
	}

	r.Case("days", func(c *C) { c.Days() })
	r.Case("states", func(c *C) {
		for i := 0; i < r.N(1500, 40000) && !r.full(); i++ {
			c.c14State(t, c.Sub(i), fs[i%3], i)
		}
	})
	r.Case("full-queue", func(c *C) {
		for i := 0; i < r.N(300, 8000) && !r.full(); i++ {
			c.c14Full(t, c.Sub(i), fs[i%3], i)
		}
	})
	// real time: End races with everything
	r.Case("racing", func(c *C) {
		for i := 0; i < r.N(6, 150) && !r.full(); i++ {
			c.c14Racing(c.Sub(i), fs, i)
		}
	})
	r.Case("few-processors", func(c *C) {
		for k := 1; k <= 3; k++ {
			c.Cpus(k, func() {
				c.c14Racing(c.Sub(1000+k), fs, 1000+k)
				c.c14Sockets(c.Sub(2000+k), fs, 1000+k)
			})
		}
	})
	r.Case("sockets", func(c *C) {
		for i := 0; i < r.N(4, 80) && !r.full(); i++ {
			c.c14Sockets(c.Sub(i), fs, i)
		}
	})
}

// c14State ends a receiver in a random but settled or running state, in virtual time.
func (c *C) c14State(t *testing.T, g *rand.Rand, f framing, i int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			var sl *scriptListener
			var ll syslog.Listener
			sl = newListener()
			ll = sl
			var conns []*scriptConn
			var floods []*floodConn
			if g.IntN(4) == 0 {
				e := newScript(endIdle, []byte(f.enc("<1>1 - host app late - - 0")))
				ll = &lateListener{scriptListener: sl, extra: e}
				conns = append(conns, e)
			}
			streams := map[string]*stream{}
			state := ""
			conn := g.IntN(6)
			if i%100 == 99 {
				conn = 300 + g.IntN(300)
			}
			for k := conn; k > 0; k-- {
				switch g.IntN(5) {
				case 0:
					state += "idle "
					sc := newScript(endIdle)
					conns = append(conns, sc)
					sl.add(sc)
				case 1:
					state += "mid-frame "
					fr := f.enc("<1>1 - host app mid - - incomplete")
					sc := newScript(endIdle, []byte(fr[:1+g.IntN(len(fr)-1)]))
					conns = append(conns, sc)
					sl.add(sc)
				case 2, 3:
					tag := fmt.Sprintf("good%d.%d", i, k)
					s, chunks := goodData(g, f, tag)
					streams[tag] = s
					end := pick(g, endIdle, endIdle, endEOF)
					state += "sent, " + endNames[end] + " "
					sc := newScript(end, chunks...)
					if g.IntN(2) == 0 { // still sending at the moment of End
						d := time.Duration(g.IntN(300)) * time.Millisecond
						sc.pause = func(int) { time.Sleep(d) }
						state += "slowly "
					}
					conns = append(conns, sc)
					sl.add(sc)
				case 4:
					state += "flood "
					fc := &floodConn{f: f, tag: fmt.Sprintf("flood%d", k), every: time.Duration(1+g.IntN(20)) * time.Millisecond}
					floods = append(floods, fc)
					sl.add(fc)
				}
			}
			injected := 0
			if g.IntN(4) == 0 {
				sl.add(errAcceptFailure)
				injected++
				state += "accept failure "
			}
			readErrs := g.IntN(2) == 0
			x := newReceiver(c, ll, g.IntN(20), f.T, readErrs)
			consumer := g.IntN(3)
			if consumer > 0 {
				x.consume(c)
			}
			at := time.Duration(g.IntN(400)) * time.Millisecond
			if g.IntN(4) > 0 {
				time.Sleep(at)
				if g.IntN(2) == 0 {
					synctest.Wait()
				}
			}
			ended := make(chan struct{})
			t0 := time.Now()
			go func() {
				defer close(ended)
				c.Guard(x.R.End)
			}()
			if g.IntN(3) == 0 { // connections arriving at the end
				sc := newScript(endIdle, []byte(f.enc("<1>1 - host app new - - 0")))
				conns = append(conns, sc)
				sl.add(sc)
				state += "new connection "
			}
			synctest.Wait()
			if consumer == 0 {
				x.consume(c)
			}
			what := fmt.Sprintf("%s framing, End %v after the start with connections: %s(consumer %d)", f.Name, at, state, consumer)
			timer := time.NewTimer(endBound)
			defer timer.Stop()
			select {
			case <-ended:
			case <-timer.C:
				c.Violate("%s: End does not return", what)
			}
			select {
			case <-x.done:
				c.StatMax("virtual_ms_until_finished", time.Since(t0).Milliseconds())
			case <-timer.C:
				c.Violate("%s: %v after End, Receive does not report that the receiver is finished", what, endBound)
				return
			}
			time.Sleep(endBound)
			synctest.Wait()
			// nothing is left
			sl.mu.Lock()
			if sl.closed == 0 {
				c.Violate("%s: the listener was not closed", what)
			}
			accepted := map[*scriptConn]bool{}
			for _, sc := range sl.given {
				accepted[sc] = true
			}
			sl.mu.Unlock()
			for k, sc := range conns {
				late, _ := ll.(*lateListener)
				if !accepted[sc] && !(late != nil && late.extra == sc && late.given) {
					continue // never handed out
				}
				if fa := sc.facts(); fa.closed == 0 {
					c.Violate("%s: accepted connection %d (of %d) was not closed", what, k, len(conns))
				}
				c.Stat("connections_closed", 1)
			}
			for _, fc := range floods {
				fc.mu.Lock()
				if fc.closed == 0 && fc.k > 0 {
					c.Violate("%s: a busy connection was not closed", what)
				}
				fc.mu.Unlock()
			}
			if n, stacks := census(); n > 0 {
				c.Violate("%s: %d goroutines of the receiver run after End\n%s", what, n, stacks)
			}
			errs := 0
			if readErrs {
				errs = x.errs.count()
				close(x.errs.done)
			} else {
				errs = len(x.ch)
			}
			if errs > injected {
				c.Violate("%s: %d errors on the error channel, %d failures were injected", what, errs, injected)
			}
			c.judgeEnded(x, streams, what)
			for k := 0; k < 2; k++ {
				if m, err, ok := x.R.Receive(); ok {
					c.Violate("%s: Receive gives %s, %v after it reported the end", what, q(m.String()), err)
				}
			}
			c.Eval(true, state, f.Name, consumer, at)
			c.Sample("state", "%s", what)
		})
	})
}

// judgeEnded: whatever was received is an in-order, duplicate-free prefix of what each peer sent.
func (c *C) judgeEnded(x *receiver, streams map[string]*stream, what string) {
	owner := map[string]string{}
	for tag, s := range streams {
		for _, m := range s.msgs {
			owner[m] = tag
		}
	}
	pos := map[string]int{}
	for _, res := range x.results() {
		if res.Err != nil {
			c.Violate("%s: an intact stream gives the error %v", what, res.Err)
			return
		}
		if tag, ok := owner[res.Text]; ok {
			s := streams[tag]
			if k := pos[tag]; k >= len(s.msgs) || s.msgs[k] != res.Text {
				c.Violate("%s: message delivered twice or out of order: %s", what, q(res.Text))
				return
			}
			pos[tag]++
			continue
		}
		f := strings.Fields(res.Text)
		if len(f) != 8 || f[3] != "app" || !strings.HasPrefix(res.Text, "<1>1 - host app ") {
			c.Violate("%s: a message that was never completely sent: %s", what, q(res.Text))
			return
		}
		tag := f[4]
		if tag == "mid" || f[7] != fmt.Sprint(pos[tag]) {
			c.Violate("%s: %s is delivered as number %d of its connection", what, q(res.Text), pos[tag])
			return
		}
		pos[tag]++
	}
}

// c14Full: nobody receives, the queue is full, the readers are blocked; then End.
func (c *C) c14Full(t *testing.T, g *rand.Rand, f framing, i int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			l := newListener()
			streams := map[string]*stream{}
			total := 0
			var conns []*scriptConn
			conn := 1 + g.IntN(5)
			if i%50 == 49 {
				conn = 300
			}
			for k := conn; k > 0; k-- {
				tag := fmt.Sprintf("good%d.%d", i, k)
				s, chunks := goodData(g, f, tag)
				streams[tag] = s
				total += len(s.msgs)
				sc := newScript(pick(g, endIdle, endEOF), chunks...)
				conns = append(conns, sc)
				l.add(sc)
			}
			queue := g.IntN(total+8) - 3 // below zero: no queue
			x := newReceiver(c, l, queue, f.T, false)
			synctest.Wait()
			queued := max(0, min(queue, total))
			// some are received before
			before := g.IntN(queued + 1)
			for k := 0; k < before; k++ {
				m, err, ok := x.R.Receive()
				if !ok {
					c.Violate("Receive reports the end before End")
				}
				x.record(m, err)
			}
			synctest.Wait()
			queued = max(0, min(queue, total-before)) // refilled by the blocked readers
			what := fmt.Sprintf("%s framing, %d connections, %d messages, %d received before End, queue of %d", f.Name, len(conns), total, before, queue)
			ended := make(chan struct{})
			go func() {
				defer close(ended)
				c.Guard(x.R.End)
			}()
			timer := time.NewTimer(endBound)
			defer timer.Stop()
			select {
			case <-ended:
			case <-timer.C:
				c.Violate("%s: End does not return while nobody receives", what)
				return
			}
			if g.IntN(2) == 0 {
				time.Sleep(endBound)
			}
			x.consume(c)
			select {
			case <-x.done:
			case <-time.After(endBound):
				c.Violate("%s: Receive never reports that the receiver is finished", what)
				return
			}
			if got := x.count() - before; got < queued {
				c.Violate("%s: %d results were queued at End, %d could be received", what, queued, got)
			}
			c.judgeEnded(x, streams, what)
			time.Sleep(endBound)
			synctest.Wait()
			for k, sc := range conns {
				if sc.facts().closed == 0 {
					c.Violate("%s: connection %d was not closed", what, k)
				}
			}
			if n, stacks := census(); n > 0 {
				c.Violate("%s: %d goroutines run after End\n%s", what, n, stacks)
			}
			if n := len(x.ch); n > 0 {
				c.Violate("%s: End put %d errors on the error channel", what, n)
			}
			c.Eval(queued > 0, fmt.Sprint("full", i), f.Name, queue, before)
			c.Stat("queued_at_end", int64(queued))
		})
	})
}

// c14Racing ends many receivers in real time while connections and consumers are active.
func (c *C) c14Racing(g *rand.Rand, fs []framing, i int) {
	var xs []*receiver
	var ls []*scriptListener
	var all [][]*scriptConn
	var streams []map[string]*stream
	for k := 0; k < 40; k++ {
		f := fs[k%3]
		l := newListener()
		x := newReceiver(c, l, g.IntN(12)-2, f.T, k%2 == 0)
		x.consume(c)
		var conns []*scriptConn
		st := map[string]*stream{}
		for j := 0; j < 5; j++ {
			tag := fmt.Sprintf("good%d.%d.%d", i, k, j)
			s, chunks := goodData(g, f, tag)
			st[tag] = s
			conns = append(conns, newScript(pick(g, endIdle, endEOF), chunks...))
		}
		xs, ls, all, streams = append(xs, x), append(ls, l), append(all, conns), append(streams, st)
	}
	var wg sync.WaitGroup
	for k := range xs {
		wg.Add(2)
		delay := time.Duration(g.IntN(400)) * time.Microsecond
		kg := rand.New(rand.NewPCG(uint64(i), uint64(k)))
		go func() {
			defer wg.Done()
			for _, sc := range all[k] {
				jitter(kg)
				ls[k].add(sc)
			}
		}()
		go func() {
			defer wg.Done()
			time.Sleep(delay)
			c.Guard(xs[k].R.End)
		}()
	}
	wg.Wait()
	c.Progress()
	for k, x := range xs {
		select {
		case <-x.done:
		case <-time.After(endBound):
			c.Violate("racing End: Receive never reports that the receiver is finished")
			return
		}
		c.judgeEnded(x, streams[k], "racing End")
		for _, sc := range ls[k].given {
			if sc.facts().closed == 0 && !waitFor(endBound, func() bool { return sc.facts().closed > 0 }) {
				c.Violate("racing End: an accepted connection was not closed")
			}
		}
		c.Eval(true, "racing", i, k)
	}
	if !waitFor(endBound, func() bool { n, _ := census(); return n == 0 }) {
		n, stacks := census()
		c.Violate("racing End: %d goroutines of the receivers run %v after End\n%s", n, endBound, stacks)
	}
	for _, x := range xs {
		n := len(x.ch)
		if x.errs != nil {
			n += x.errs.count()
			close(x.errs.done)
		}
		if n > 0 {
			c.Violate("racing End: %d errors on the error channel", n)
		}
	}
	c.Stat("racing_ends", int64(len(xs)))
}

// c14Sockets ends receivers of real listeners in several states.
func (c *C) c14Sockets(g *rand.Rand, fs []framing, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	type one struct {
		network, addr string
		x             *receiver
		peers         []net.Conn
		state         int
		sent          map[string]*stream
		stop          chan struct{}
	}
	var os1 []*one
	var bg sync.WaitGroup
	for k := 0; k < 24; k++ {
		network := []string{"unix", "tcp", "unixgram"}[k%3]
		f := fs[g.IntN(3)]
		l, addr, err := listen(network, dir, k)
		if err != nil {
			c.Inconclusive("listen: %v", err)
			continue
		}
		o := &one{network: network, addr: addr, state: k / 3 % 5, sent: map[string]*stream{}, stop: make(chan struct{})}
		o.x = newReceiver(c, l, pick(g, 0, 5, 1000), f.T, true)
		if o.state != 3 {
			o.x.consume(c)
		}
		os1 = append(os1, o)
		if o.state == 0 {
			continue // no connection
		}
		for p := 0; p < 3; p++ {
			conn, err := net.Dial(network, addr)
			if err != nil {
				c.Inconclusive("dial: %v", err)
				continue
			}
			o.peers = append(o.peers, conn)
			tag := fmt.Sprintf("good%d.%d.%d", i, k, p)
			switch o.state {
			case 1: // idle
			case 2: // in mid-frame
				if network != "unixgram" {
					conn.Write([]byte(f.enc("<1>1 - host app mid - - incomplete"))[:10])
				}
			case 3: // more than the queue holds, nobody receives
				s := randStream(g, f, tag, 20, 100)
				o.sent[tag] = s
				conn.SetWriteDeadline(time.Now().Add(200 * time.Millisecond))
				for _, m := range s.msgs {
					conn.Write([]byte(f.enc(m)))
				}
				conn.SetWriteDeadline(time.Time{})
			case 4: // still writing
				bg.Add(1)
				go func() {
					defer bg.Done()
					for n := 0; ; n++ {
						select {
						case <-o.stop:
							return
						default:
						}
						conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
						if _, err := conn.Write([]byte(f.enc(fmt.Sprintf("<1>1 - host app w%d.%d - - %d", k, p, n)))); err != nil {
							return
						}
						time.Sleep(50 * time.Microsecond)
					}
				}()
			}
		}
	}
	time.Sleep(30 * time.Millisecond)
	c.Progress()
	var wg sync.WaitGroup
	for _, o := range os1 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Guard(o.x.R.End)
		}()
	}
	ok := make(chan struct{})
	go func() { wg.Wait(); close(ok) }()
	select {
	case <-ok:
	case <-time.After(endBound):
		c.Violate("End of a receiver of real sockets does not return")
		return
	}
	for _, o := range os1 {
		what := fmt.Sprintf("%s listener, state %d", o.network, o.state)
		if o.state == 3 {
			o.x.consume(c)
		}
		select {
		case <-o.x.done:
		case <-time.After(endBound):
			c.Violate("%s: Receive never reports that the receiver is finished", what)
			return
		}
		c.Progress()
		c.judgeEnded(o.x, o.sent, what)
		if conn, err := net.Dial(o.network, o.addr); err == nil {
			// a datagram socket may still exist shortly
			conn.Close()
			if !waitFor(endBound, func() bool {
				conn, err := net.Dial(o.network, o.addr)
				if err == nil {
					conn.Close()
				}
				return err != nil
			}) {
				c.Violate("%s: the address still accepts connections after End", what)
			}
		}
		for _, p := range o.peers {
			if o.network != "unixgram" {
				if !waitFor(endBound, func() bool {
					p.SetWriteDeadline(time.Now().Add(10 * time.Millisecond))
					_, err := p.Write([]byte("x"))
					ne, isNet := err.(net.Error)
					return err != nil && !(isNet && ne.Timeout())
				}) {
					c.Violate("%s: an accepted connection is open after End", what)
				}
			}
		}
		close(o.stop)
		if n := o.x.errs.count(); n > 0 {
			c.Violate("%s: errors on the error channel: %v", what, o.x.errs.all())
		}
		close(o.x.errs.done)
		c.Eval(true, what, i, o.addr)
	}
	bg.Wait()
	for _, o := range os1 {
		for _, p := range o.peers {
			p.Close()
		}
	}
	if !waitFor(endBound, func() bool { n, _ := census(); return n == 0 }) {
		n, stacks := census()
		c.Violate("%d goroutines of ended receivers of real sockets are left\n%s", n, stacks)
	}
	c.Stat("socket_receivers_ended", int64(len(os1)))
}
