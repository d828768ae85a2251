package vharness

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// memPipe is an in-memory connection: a byte stream (or packets) whose reads are cut at random.
type memPipe struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	g      *rand.Rand
	closed bool
	rdone  bool
	limit  int
}

func newMemPipe(seed uint64, limit int) *memPipe {
	p := &memPipe{g: rand.New(rand.NewPCG(seed, 3)), limit: limit}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *memPipe) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for n < len(b) {
		for len(p.buf) >= p.limit && !p.rdone {
			p.cond.Wait()
		}
		if p.rdone || p.closed {
			return n, io.ErrClosedPipe
		}
		k := min(len(b)-n, p.limit-len(p.buf))
		p.buf = append(p.buf, b[n:n+k]...)
		n += k
		p.cond.Broadcast()
	}
	return n, nil
}

func (p *memPipe) Close() error {
	p.mu.Lock()
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
	return nil
}

// memReader is the other side.
type memReader struct{ p *memPipe }

func (r memReader) RemoteAddr() net.Addr { return &net.UnixAddr{Name: "mem", Net: "unix"} }
func (r memReader) Close() error {
	r.p.mu.Lock()
	r.p.rdone = true
	r.p.cond.Broadcast()
	r.p.mu.Unlock()
	return nil
}

func (r memReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.buf) == 0 && !p.closed && !p.rdone {
		p.cond.Wait()
	}
	if p.rdone {
		return 0, os.ErrClosed
	}
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	n := min(len(b), len(p.buf))
	switch p.g.IntN(4) {
	case 0:
		n = 1 + p.g.IntN(n)
	case 1:
		n = min(n, 1+p.g.IntN(100))
	}
	copy(b, p.buf[:n])
	p.buf = p.buf[n:]
	p.cond.Broadcast()
	if len(p.buf) == 0 && p.closed && p.g.IntN(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

type memListener struct {
	*scriptListener
	seed  uint64
	limit int
}

func (l *memListener) Connect() (syslog.WriteCloser, error) {
	l.mu.Lock()
	l.seed++
	p := newMemPipe(l.seed, l.limit)
	l.mu.Unlock()
	l.add(memReader{p})
	return p, nil
}

// traffic is what one producer sends.
type traffic struct {
	msgs []sm
	via  int // 0 Sender.Send, 1 Channel.Log
}

type e2e struct {
	f         framing
	snd       []*syslog.Sender
	errs      []*errLog
	producers [][]traffic // per sender
	x         *receiver
	desc      string
}

func mkTraffic(g *rand.Rand, f framing, id string, n, max int, mix bool) traffic {
	tr := traffic{}
	for j := 0; j < n; j++ {
		m := randMsg(g, f, fmt.Sprintf("%s-%d", id, j), 300)
		switch {
		case mix && g.IntN(4) == 0:
			m = sizedMsg(g, f, fmt.Sprintf("%s-%d", id, j), pickSize(g, max))
		case mix && g.IntN(40) == 0:
			m = sizedMsg(g, f, fmt.Sprintf("%s-%d", id, j), max-g.IntN(3))
		}
		tr.msgs = append(tr.msgs, m)
	}
	return tr
}

// sizedMsg gives a message whose encoding has about the given size.
func sizedMsg(g *rand.Rand, f framing, id string, size int) sm {
	ts := randTime(g)
	prio := g.IntN(192)
	m := mkMsg(id, prio, ts, "")
	n := size - len(m.Want) - 1
	if n <= 0 {
		return m
	}
	return mkMsg(id, prio, ts, f.clean(string(randBytes(g, n))))
}

// at is the place of a message: sender, producer, number.
type at struct{ s, p, k int }

// run sends everything, ends the senders and judges what the receiver returned.
func (c *C) e2eRun(e *e2e, g *rand.Rand, settle time.Duration) {
	owner := map[string]at{}
	total := 0
	var wg sync.WaitGroup
	for s := range e.snd {
		var sw sync.WaitGroup
		for p := range e.producers[s] {
			for k, m := range e.producers[s][p].msgs {
				owner[m.Want] = at{s, p, k}
				total++
			}
			sw.Add(1)
			pg := rand.New(rand.NewPCG(g.Uint64(), 5))
			go func() {
				defer sw.Done()
				c.Guard(func() {
					for _, m := range e.producers[s][p].msgs {
						if err := e.snd[s].Send(m.M); err != nil {
							c.Violate("%s: send refused: %v", e.desc, err)
							return
						}
						if pg.IntN(4) == 0 {
							jitter(pg)
						}
					}
				})
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sw.Wait()
			c.Guard(e.snd[s].End)
		}()
	}
	ok := make(chan struct{})
	go func() { wg.Wait(); close(ok) }()
	// progress is what the receiver returns: patience is measured without any
	last, since := -1, time.Now()
	for done := false; ; {
		if !done {
			select {
			case <-ok:
				done = true
			default:
			}
		}
		n := e.x.count()
		if n != last {
			last, since = n, time.Now()
			c.Progress()
		}
		if done && n >= total {
			break
		}
		if time.Since(since) > settle {
			break
		}
		time.Sleep(300 * time.Microsecond)
	}
	select {
	case <-ok:
	default:
		c.Violate("%s: nothing happens for %v, End of a sender has not returned, %d of %d messages received", e.desc, settle, last, total)
		return
	}
	time.Sleep(500 * time.Microsecond)
	c.e2eJudge(e, owner, total)
}

func (c *C) e2eJudge(e *e2e, owner map[string]at, total int) {
	res := e.x.results()
	pos := map[[2]int]int{}
	good := true
	for i, r := range res {
		if r.Err != nil {
			c.Violate("%s: result %d is the error %v", e.desc, i, r.Err)
			good = false
			break
		}
		o, ok := owner[r.Text]
		if !ok {
			c.Violate("%s: result %d was never sent: %s", e.desc, i, q(r.Text))
			good = false
			break
		}
		k := pos[[2]int{o.s, o.p}]
		if o.k != k {
			what := "out of order"
			if o.k < k {
				what = "a second time"
			}
			c.Violate("%s: message %d of producer %d/%d is returned %s, message %d is due: %s", e.desc, o.k, o.s, o.p, what, k, q(r.Text))
			good = false
			break
		}
		pos[[2]int{o.s, o.p}]++
	}
	if good && len(res) != total {
		for s := range e.producers {
			for p, tr := range e.producers[s] {
				if k := pos[[2]int{s, p}]; k < len(tr.msgs) {
					c.Violate("%s: %d of %d messages received; message %d of producer %d/%d is missing: %s", e.desc, len(res), total, k, s, p, q(tr.msgs[k].Want))
					good = false
					break
				}
			}
			if !good {
				break
			}
		}
	}
	for s, l := range e.errs {
		<-l.done
		if l.count() > 0 {
			c.Violate("%s: sender %d reports %v on a healthy connection", e.desc, s, l.all())
		}
	}
	if e.x.errs.count() > 0 {
		c.Violate("%s: the receiver reports %v", e.desc, e.x.errs.all())
	}
	c.Stat("messages_exactly_once", int64(len(res)))
	var sig strings.Builder
	for _, r := range res {
		o := owner[r.Text]
		fmt.Fprint(&sig, o.s, o.p, " ")
	}
	c.Eval(total > 1, e.desc, sig.String())
	c.Sample(e.desc[:min(len(e.desc), 12)], "%s: %d messages", e.desc, total)
}

func TestC01(t *testing.T) {
	r := newR(t, "C01", "one evaluation = one run with senders and a receiver whose results are compared one by one with the messages sent; distinct = distinct (configuration, order of producers in the results)")
	fs := framings()

	r.Case("days", func(c *C) { c.Days() })
	r.Case("in-memory", func(c *C) {
		c.Parallel(r.N(400, 12000), func(i int) {
			g := c.Sub(i)
			f := fs[i%3]
			l := &memListener{scriptListener: newListener(), seed: uint64(i) << 20, limit: pick(g, 50, 1000, 65536, 1<<20)}
			e := &e2e{f: f, x: newReceiver(c, l, g.IntN(100), f.T, true)}
			e.x.consume(c)
			senders := 1 + g.IntN(3)
			for s := 0; s < senders; s++ {
				tk := (<-chan time.Time)(make(chan time.Time))
				if g.IntN(4) > 0 {
					tick := time.NewTicker(time.Duration(50+g.IntN(2000)) * time.Microsecond)
					defer tick.Stop()
					tk = tick.C
				}
				snd, ch := syslog.NewSender(l, f.T, tk)
				e.snd, e.errs = append(e.snd, snd), append(e.errs, drainErrs(ch))
				var ps []traffic
				for p := 1 + g.IntN(4); p > 0; p-- {
					ps = append(ps, mkTraffic(g, f, fmt.Sprintf("m%d.%d.%d", i, s, p), 1+g.IntN(60), 100000, g.IntN(2) == 0))
				}
				e.producers = append(e.producers, ps)
			}
			e.desc = fmt.Sprintf("in-memory stream, %s framing, %d senders", f.Name, senders)
			c.e2eRun(e, g, 20*time.Second)
			e.x.stop()
		})
	})

	for _, network := range []string{"unix", "tcp", "unixgram"} {
		for _, f := range fs {
			network, f := network, f
			r.Case(network+"-"+f.Name, func(c *C) {
				c.Parallel(r.N(16, 400), func(i int) { c.c01Socket(c.Sub(i), network, f, i, "") })
			})
		}
	}
	// the stream is cut by a relay
	for _, network := range []string{"unix", "tcp"} {
		network := network
		r.Case("relay-"+network, func(c *C) {
			c.Parallel(r.N(24, 600), func(i int) { c.c01Socket(c.Sub(i), network, fs[i%3], i, "relay") })
		})
	}
	// big messages alone
	r.Case("big-messages", func(c *C) {
		c.Parallel(r.N(18, 300), func(i int) {
			c.c01Socket(c.Sub(i), []string{"unix", "tcp", "unixgram"}[i%3], fs[i/3%3], i, "big")
		})
	})
	// sizes at the limits of datagrams and of buffers
	r.Case("edge-sizes", func(c *C) {
		c.Parallel(27, func(i int) {
			c.c01Socket(c.Sub(i), []string{"unix", "tcp", "unixgram"}[i%3], fs[i/3%3], i, "edge")
		})
	})
	// very many messages, the most of them in few flushes; very many senders
	r.Case("volume", func(c *C) {
		c.Parallel(r.N(9, 90), func(i int) {
			c.c01Socket(c.Sub(i), []string{"unix", "tcp", "unixgram"}[i%3], fs[i/3%3], i, "volume")
		})
	})
	r.Case("crowd", func(c *C) {
		for i := 0; i < r.N(3, 30) && !r.full(); i++ {
			c.c01Socket(c.Sub(i), []string{"tcp", "unix", "unixgram"}[i%3], fs[i/3%3], i, "crowd")
		}
	})
	// producers and consumer which pause for anything from a microsecond to days
	r.Case("few-processors", func(c *C) {
		for k := 1; k <= 3; k++ {
			c.Cpus(k, func() {
				c.Parallel(r.N(9, 200), func(i int) {
					c.c01Socket(c.Sub(1000*k+i), []string{"unix", "tcp", "unixgram"}[i%3], fs[i/3%3], 1000*k+i, "")
				})
			})
		}
	})
	r.Case("slow", func(c *C) {
		for i := 0; i < r.N(250, 6000) && !r.full(); i++ {
			c.c01Slow(t, c.Sub(i), fs[i%3], i)
		}
	})
	// one receiver, very many senders one after the other
	r.Case("successive", func(c *C) {
		c.Parallel(9, func(i int) {
			c.c01Successive(c.Sub(i), []string{"mem", "tcp", "unix"}[i%3], fs[i/3], i, r.N(1500, 8000))
		})
	})
	// nobody receives for long, with more to send than buffers hold
	r.Case("stalled", func(c *C) {
		var wg sync.WaitGroup
		for i := 0; i < 9; i++ {
			g := c.Sub(i)
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.Guard(func() { c.c01Stalled(g, []string{"unix", "tcp", "unixgram"}[i%3], fs[i/3], i, r.N(40, 330)) })
			}()
		}
		wg.Wait()
	})
	// the same messages again and again
	r.Case("repeats", func(c *C) {
		c.Parallel(r.N(36, 720), func(i int) {
			c.c01Repeats(c.Sub(i), []string{"mem", "unix", "tcp", "unixgram"}[i%4], fs[i/4%3], i)
		})
	})
	// every message size in a range, one message each
	r.Case("every-size", func(c *C) {
		c.Parallel(9, func(i int) {
			c.c01Socket(c.Sub(i), []string{"unix", "tcp", "unixgram"}[i%3], fs[i/3%3], i, "sizes")
		})
	})
}

// c01Slow runs in virtual time.
func (c *C) c01Slow(t *testing.T, g *rand.Rand, f framing, i int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			longest := pick(g, time.Second, time.Minute, time.Hour, 72*time.Hour)
			nap := func(g *rand.Rand) {
				if g.IntN(3) == 0 {
					time.Sleep(time.Duration(g.Int64N(int64(pick(g, longest, longest/10, longest/1000, longest/100000)))))
				}
			}
			l := &memListener{scriptListener: newListener(), seed: uint64(i) << 20, limit: 1 << 30}
			e := &e2e{f: f, x: newReceiver(c, l, pick(g, 0, 1, 5, 100), f.T, true)}
			cg := rand.New(rand.NewPCG(g.Uint64(), 7))
			first := pick(g, 0, 0, longest/100, longest)
			go func() {
				defer close(e.x.done)
				c.Guard(func() {
					time.Sleep(first)
					for {
						m, err, ok := e.x.R.Receive()
						if !ok {
							return
						}
						e.x.record(m, err)
						nap(cg)
					}
				})
			}()
			owner, total := map[string]at{}, 0
			senders := 1 + g.IntN(4)
			var wg sync.WaitGroup
			var tickers []*time.Ticker
			for s := 0; s < senders; s++ {
				tk := time.NewTicker(longest / pick[time.Duration](g, 10, 100, 500))
				tickers = append(tickers, tk)
				snd, ch := syslog.NewSender(l, f.T, tk.C)
				e.snd, e.errs = append(e.snd, snd), append(e.errs, drainErrs(ch))
				var ps []traffic
				var sw sync.WaitGroup
				for p := 0; p < 1+g.IntN(3); p++ {
					tr := mkTraffic(g, f, fmt.Sprintf("w%d.%d.%d", i, s, p), 1+g.IntN(40), 5000, g.IntN(2) == 0)
					ps = append(ps, tr)
					for k, m := range tr.msgs {
						owner[m.Want] = at{s, p, k}
						total++
					}
					pg := rand.New(rand.NewPCG(g.Uint64(), 5))
					sw.Add(1)
					go func() {
						defer sw.Done()
						c.Guard(func() {
							for _, m := range tr.msgs {
								if err := snd.Send(m.M); err != nil {
									c.Violate("%s: send refused: %v", e.desc, err)
								}
								nap(pg)
							}
						})
					}()
				}
				e.producers = append(e.producers, ps)
				wg.Add(1)
				go func() {
					defer wg.Done()
					sw.Wait()
					c.Guard(snd.End)
				}()
			}
			e.desc = fmt.Sprintf("in-memory stream in virtual time, %s framing, %d senders, consumer with pauses after %v", f.Name, senders, first)
			wg.Wait()
			for _, tk := range tickers {
				tk.Stop()
			}
			time.Sleep(time.Duration(total+1) * longest)
			c.e2eJudge(e, owner, total)
			e.x.stop()
		})
	})
}

// c01Successive sends from n senders, a few at a time.
func (c *C) c01Successive(g *rand.Rand, network string, f framing, i, n int) {
	var l syslog.Listener
	var addr string
	var ml *memListener
	if network == "mem" {
		ml = &memListener{scriptListener: newListener(), seed: uint64(i) << 20, limit: 65536}
		l = ml
	} else {
		dir := scratchDir()
		defer os.RemoveAll(dir)
		var err error
		if l, addr, err = listen(network, dir, i); err != nil {
			c.Inconclusive("listen: %v", err)
			return
		}
	}
	e := &e2e{f: f, x: newReceiver(c, l, 50, f.T, true)}
	e.x.consume(c)
	defer e.x.stop()
	owner, total := map[string]at{}, 0
	e.desc = fmt.Sprintf("%s, %s framing, %d senders one after the other", network, f.Name, n)
	for from := 0; from < n; from += 10 {
		var wg sync.WaitGroup
		for s := from; s < from+10; s++ {
			tr := mkTraffic(g, f, fmt.Sprintf("u%d.%d", i, s), 1+g.IntN(2), 500, false)
			for k, m := range tr.msgs {
				owner[m.Want] = at{s, 0, k}
				total++
			}
			e.producers = append(e.producers, []traffic{tr})
			var snd *syslog.Sender
			var ch <-chan error
			if network == "mem" {
				snd, ch = syslog.NewSender(ml, f.T, nil)
			} else {
				var err error
				if snd, ch, err = (syslog.Dialer{FlushDelay: time.Millisecond}).Dial(network, addr, f.T); err != nil {
					c.Violate("%s: Dial: %v", e.desc, err)
					return
				}
			}
			e.errs = append(e.errs, drainErrs(ch))
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.Guard(func() {
					for _, m := range tr.msgs {
						if err := snd.Send(m.M); err != nil {
							c.Violate("%s: send refused: %v", e.desc, err)
						}
					}
					snd.End()
				})
			}()
		}
		wg.Wait()
		c.Progress()
		if !waitFor(20*time.Second, func() bool { return e.x.count() >= total }) {
			break
		}
	}
	c.e2eJudge(e, owner, total)
}

// c01Repeats: one sender, a few different messages which come back at once or later.
func (c *C) c01Repeats(g *rand.Rand, network string, f framing, i int) {
	var l syslog.Listener
	var snd *syslog.Sender
	var ch <-chan error
	var err error
	if network == "mem" {
		ml := &memListener{scriptListener: newListener(), seed: uint64(i) << 20, limit: 65536}
		l = ml
		snd, ch = syslog.NewSender(ml, f.T, make(manualTicker))
	} else {
		dir := scratchDir()
		defer os.RemoveAll(dir)
		var addr string
		if l, addr, err = listen(network, dir, i); err != nil {
			c.Inconclusive("listen: %v", err)
			return
		}
		if snd, ch, err = (syslog.Dialer{FlushDelay: time.Duration(1+g.IntN(20)) * time.Millisecond}).Dial(network, addr, f.T); err != nil {
			c.Violate("Dial %s: %v", network, err)
			return
		}
	}
	errs := drainErrs(ch)
	x := newReceiver(c, l, g.IntN(50), f.T, true)
	x.consume(c)
	defer x.stop()
	few := make([]sm, 1+g.IntN(4))
	for k := range few {
		few[k] = randMsg(g, f, fmt.Sprintf("again%d.%d", i, k), pick(g, 10, 300, 3000))
	}
	var sent []string
	for n := 1 + g.IntN(300); n > 0; n-- {
		m := few[g.IntN(len(few))]
		for k := pick(g, 1, 1, 2, 3, 1+g.IntN(40)); k > 0; k-- {
			if err := snd.Send(m.M); err != nil {
				c.Violate("send refused: %v", err)
			}
			sent = append(sent, m.Want)
		}
	}
	snd.End()
	waitFor(20*time.Second, func() bool { return x.count() >= len(sent) })
	time.Sleep(3 * time.Millisecond)
	var got []string
	for _, r := range x.results() {
		if r.Err != nil {
			c.Violate("%s, %s framing, repeated messages: error result %v", network, f.Name, r.Err)
		}
		got = append(got, r.Text)
	}
	c.sameFrames(fmt.Sprintf("%s, %s framing, %d messages, %d different", network, f.Name, len(sent), len(few)), got, sent)
	if n := errs.count() + x.errs.count(); n > 0 {
		c.Violate("%s, %s framing, repeated messages: errors reported: %v %v", network, f.Name, errs.all(), x.errs.all())
	}
	c.Eval(true, strings.Join(sent, "\n"), network, f.Name)
	c.Stat("repeated_messages", int64(len(sent)))
}

// c01Stalled: the receiver's user is away in the middle of the traffic.
func (c *C) c01Stalled(g *rand.Rand, network string, f framing, i, seconds int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	l, addr, err := listen(network, dir, i)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	e := &e2e{f: f, x: newReceiver(c, l, 2, f.T, true), desc: fmt.Sprintf("%s, %s framing, nobody receives for %d s", network, f.Name, seconds)}
	owner, total := map[string]at{}, 0
	var wg sync.WaitGroup
	for s := 0; s < 2; s++ {
		snd, ch, err := (syslog.Dialer{FlushDelay: 20 * time.Millisecond}).Dial(network, addr, f.T)
		if err != nil {
			c.Violate("%s: Dial: %v", e.desc, err)
			return
		}
		tr := traffic{}
		for k := 0; k < 400; k++ {
			m := sizedMsg(g, f, fmt.Sprintf("z%d.%d.%d", i, s, k), pick(g, 100, 20000, 50000))
			owner[m.Want] = at{s, 0, k}
			total++
			tr.msgs = append(tr.msgs, m)
		}
		e.snd, e.errs, e.producers = append(e.snd, snd), append(e.errs, drainErrs(ch)), append(e.producers, []traffic{tr})
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Guard(func() {
				for _, m := range tr.msgs {
					if err := snd.Send(m.M); err != nil {
						c.Violate("%s: send refused: %v", e.desc, err)
					}
				}
				snd.End()
			})
		}()
	}
	for k := 0; k < seconds; k++ {
		time.Sleep(time.Second)
		c.Progress()
	}
	e.x.consume(c)
	last, since := 0, time.Now()
	for e.x.count() < total && time.Since(since) < 20*time.Second {
		if n := e.x.count(); n != last {
			last, since = n, time.Now()
			c.Progress()
		}
		time.Sleep(time.Millisecond)
	}
	ok := make(chan struct{})
	go func() { wg.Wait(); close(ok) }()
	select {
	case <-ok:
	case <-time.After(20 * time.Second):
		c.Violate("%s: End of a sender has not returned, %d of %d messages received", e.desc, e.x.count(), total)
		return
	}
	c.e2eJudge(e, owner, total)
	e.x.stop()
}

func (c *C) c01Socket(g *rand.Rand, network string, f framing, i int, kind string) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	l, addr, err := listen(network, dir, i)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	e := &e2e{f: f, x: newReceiver(c, l, pick(g, 0, 1, 100), f.T, true)}
	e.x.consume(c)
	defer func() {
		e.x.stop()
	}()
	to := addr
	if kind == "relay" {
		raddr, stop := relay(g, network, addr, dir)
		if stop == nil {
			c.Inconclusive("relay")
			return
		}
		defer stop()
		to = raddr
	}
	max := 400000
	if network == "unixgram" {
		max = pick(g, 60000, dgramLimit())
		if n := len(f.enc(strings.Repeat("x", 1000))); f.X != nil { // the part of a frame which is no message
			max = max * 400 / (n + 1000)
		} else {
			max -= 20
		}
	}
	delay := pick(g, 0, 2*time.Millisecond, 2*time.Millisecond, 10*time.Millisecond, 50*time.Millisecond)
	senders := 1 + g.IntN(3)
	switch kind {
	case "sizes":
		senders = 1
	case "volume":
		senders, delay = 1+i%2, pick(g, 0, 100*time.Millisecond)
	case "crowd":
		senders, delay = 300, 20*time.Millisecond
	}
	for s := 0; s < senders; s++ {
		snd, ch, err := (syslog.Dialer{FlushDelay: delay}).Dial(network, to, f.T)
		if err != nil {
			c.Violate("Dial(%s, %s): %v", network, to, err)
			return
		}
		e.snd, e.errs = append(e.snd, snd), append(e.errs, drainErrs(ch))
		var ps []traffic
		id := fmt.Sprintf("%s%d.%d", network, i, s)
		switch kind {
		case "big":
			ps = append(ps, traffic{})
			for j := 0; j < 6; j++ {
				ps[0].msgs = append(ps[0].msgs, sizedMsg(g, f, fmt.Sprintf("%s-%d", id, j), max-g.IntN(max/4)))
			}
			ps = append(ps, mkTraffic(g, f, id+".x", 20, 100, false))
		case "volume":
			ps = append(ps, traffic{})
			for j := 0; j < 20000; j++ {
				m := mkMsg(fmt.Sprintf("%s-%d", id, j), j%192, time.Unix(int64(j), 0), "x")
				if j%64 == 0 {
					m = sizedMsg(g, f, fmt.Sprintf("%s-%d", id, j), pickSize(g, min(max, 70000)/(1+j%3*9)))
				}
				ps[0].msgs = append(ps[0].msgs, m)
			}
		case "edge":
			ps = append(ps, traffic{})
			top := []int{1 << 16, 1 << 17, 1 << 18}[i/9%3]
			if network == "unixgram" {
				top = min(top, dgramLimit())
			}
			for j := 0; j < 40; j++ { // frames around the limit
				size := top + 3 - j
				size -= len(f.enc(strings.Repeat("x", size))) - size
				ps[0].msgs = append(ps[0].msgs, sizedMsg(g, f, fmt.Sprintf("%s-%d", id, j), size))
				if g.IntN(3) == 0 {
					ps[0].msgs = append(ps[0].msgs, sizedMsg(g, f, fmt.Sprintf("%s-%d-s", id, j), 60+g.IntN(600)))
				}
			}
		case "crowd":
			ps = append(ps, mkTraffic(g, f, id, 12, 2000, true))
		case "sizes":
			ps = append(ps, traffic{})
			for j := 0; j < c.N(1200, 20000); j++ {
				ps[0].msgs = append(ps[0].msgs, sizedMsg(g, f, fmt.Sprintf("%05d", j), 60+j))
			}
		default:
			for p := 1 + g.IntN(4); p > 0; p-- {
				ps = append(ps, mkTraffic(g, f, fmt.Sprintf("%s.%d", id, p), 1+g.IntN(150), max/4, g.IntN(2) == 0))
			}
		}
		e.producers = append(e.producers, ps)
	}
	e.desc = fmt.Sprintf("%s, %s framing, %d senders, flush %v %s", network, f.Name, senders, delay, kind)
	c.e2eRun(e, g, 30*time.Second)
}

// dgramLimit is an usual maximum of the unix datagrams of a socket without any option.
func dgramLimit() int {
	n := 212992
	if b, err := os.ReadFile("/proc/sys/net/core/wmem_default"); err == nil {
		n, _ = strconv.Atoi(strings.TrimSpace(string(b)))
	}
	return max(min(200000, n-4096), 65536)
}

// relay forwards connections, cutting the stream into random pieces.
func relay(g *rand.Rand, network, addr, dir string) (string, func()) {
	laddr := filepath.Join(dir, "relay")
	if network == "tcp" {
		laddr = "127.0.0.1:0"
	}
	l, err := net.Listen(network, laddr)
	if err != nil {
		return "", nil
	}
	var wg sync.WaitGroup
	seed := g.Uint64()
	go func() {
		for {
			in, err := l.Accept()
			if err != nil {
				return
			}
			seed++
			wg.Add(1)
			go func(seed uint64) {
				defer wg.Done()
				defer in.Close()
				out, err := net.Dial(network, addr)
				if err != nil {
					return
				}
				defer out.Close()
				rg := rand.New(rand.NewPCG(seed, 1))
				buf := make([]byte, 1<<17)
				for {
					n, err := in.Read(buf)
					for b := buf[:n]; len(b) > 0; {
						k := 1 + rg.IntN(len(b))
						if rg.IntN(2) == 0 {
							k = min(len(b), 1+rg.IntN(50))
						}
						if _, err := out.Write(b[:k]); err != nil {
							return
						}
						b = b[k:]
						if rg.IntN(50) == 0 {
							time.Sleep(50 * time.Microsecond)
						}
					}
					if err != nil {
						return
					}
				}
			}(seed)
		}
	}()
	return l.Addr().String(), func() { l.Close(); wg.Wait() }
}
