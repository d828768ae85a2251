package vharness

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"hash"
	"math/rand/v2"
	"net"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// sendRec is one send in the recorded history.
type sendRec struct {
	sm
	call, ret int64
	err       error
}

// yieldTransport perturbs the schedule inside the library's own critical path.
type yieldTransport struct {
	syslog.Transport
	n atomic.Int64
}

func (y *yieldTransport) Encode(b []byte) []byte {
	if y.n.Add(1)%7 == 0 {
		time.Sleep(time.Duration(y.n.Load()%3) * 20 * time.Microsecond)
	}
	return y.Transport.Encode(b)
}

func TestC02(t *testing.T) {
	r := newR(t, "C02", "one evaluation = one recorded send history (accepted messages, Write calls, Close calls) checked offline; distinct = distinct written byte streams with at least two frames")
	fs := framings()

	// sequential histories with exact expectations after every flush
	r.Case("sequential", func(c *C) {
		n := r.N(400, 6000)
		c.Parallel(n, func(i int) {
			c02Sequential(c, i, c.Sub(i), fs[i%3])
		})
	})
	r.Case("bursts", func(c *C) {
		for i, k := range []int{0, 1, 2, 99, 100, 101, 999, 1000, 1001, 1024, 1025, 2500, 5000} {
			c02Burst(c, i, k, fs[i%3])
		}
		for i, k := range sizes(4000) {
			if i%r.N(3, 1) == 0 {
				c02Burst(c, i, k, fs[i%3])
			}
		}
	})
	// a queue far longer than any other: one flush, or one End, writes it all
	r.Case("huge-queue", func(c *C) {
		for i := 0; i < r.N(2, 6); i++ {
			c02Huge(c, i, r.N(400000, 3000000)+i*50000, fs[i%3])
		}
	})
	// messages far larger than any other
	r.Case("giants", func(c *C) {
		c.Parallel(r.N(6, 24), func(i int) {
			g, f := c.Sub(i), fs[i%3]
			s := &sink{}
			snd, ch := syslog.NewSender(s, f.T, make(chan time.Time))
			l := drainErrs(ch)
			want := sha256.New()
			n := 0
			for _, size := range []int{1<<20 + 1, 10, 1<<22 + g.IntN(1<<20), 1000, 1<<24 + g.IntN(1<<22), 3} {
				m := sizedMsg(g, f, fmt.Sprintf("giant%d-%d", i, size), size)
				if err := snd.Send(m.M); err != nil {
					c.Violate("a message of %d bytes is refused on a healthy sender: %v", size, err)
				}
				n += len(f.enc(m.Want))
				want.Write([]byte(f.enc(m.Want)))
			}
			c.Guard(snd.End)
			<-l.done
			got := s.bytes()
			h := sha256.Sum256(got)
			if string(h[:]) != string(want.Sum(nil)) {
				c.Violate("large messages, %s framing: %d bytes are written, %d accepted, or they are altered", f.Name, len(got), n)
			}
			c.checkClosedOnce(s, "large messages")
			if l.count() > 0 {
				c.Violate("large messages, %s framing: errors %v", f.Name, l.all())
			}
			c.Eval(true, "giant", i)
		})
	})
	// concurrent histories
	r.Case("concurrent", func(c *C) {
		n := r.N(500, 8000)
		c.Parallel(n, func(i int) {
			c02Concurrent(c, i, c.Sub(i), fs[i%3], i%2 == 0)
		})
	})
	// with one processor the goroutines run in turn, in long slices
	r.Case("few-processors", func(c *C) {
		for k := 1; k <= 3; k++ {
			c.Cpus(k, func() {
				c.Parallel(r.N(80, 1500), func(i int) { c02Concurrent(c, 1000*k+i, c.Sub(1000*k+i), fs[i%3], i%2 == 0) })
				c.Parallel(3, func(i int) { c02EndRace(c, 1000*k+i, c.Sub(1000*k+900+i), r.N(25, 1000)) })
			})
		}
	})
	// End racing with sends, again and again
	r.Case("end-race", func(c *C) {
		c.Parallel(16, func(i int) {
			c02EndRace(c, i, c.Sub(i), r.N(600, 40000))
		})
	})
	// a connection (with deadlines, as net.Conn has) which takes nothing for hours
	r.Case("stalled", func(c *C) {
		for i := 0; i < r.N(120, 3000) && !r.full(); i++ {
			c02Stalled(t, c, i, c.Sub(i), fs[i%3])
		}
	})
	r.Case("nothing-sent", func(c *C) {
		for _, f := range fs {
			s := &sink{}
			snd, ch := syslog.NewSender(s, f.T, make(chan time.Time))
			l := drainErrs(ch)
			snd.End()
			<-l.done
			if len(s.bytes()) != 0 {
				c.Violate("nothing was sent but %s was written", q(s.bytes()))
			}
			c.Eval(true, "nothing", f.Name)
		}
	})
}

func (c *C) checkClosedOnce(s *sink, what string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, sc := range s.conns {
		if sc.closed != 1 {
			c.Violate("%s: connection %d closed %d times at the end", what, i, sc.closed)
		}
		if sc.late != 0 {
			c.Violate("%s: %d writes after the connection was closed", what, sc.late)
		}
	}
}

// checkWrites verifies that each Write call carried exactly one frame.
func (c *C) checkWrites(s *sink, f framing, what string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, sc := range s.conns {
		for _, w := range sc.writes {
			fr, rest, err := f.split(w)
			if err != nil || len(fr) != 1 || len(rest) != 0 {
				c.Violate("%s: one Write carried %d frames and %d odd bytes: %s", what, len(fr), len(rest), q(w))
				return
			}
		}
		c.Stat("writes_observed", int64(len(sc.writes)))
	}
}

// hashConn keeps the number and the digest of the octets it is given.
type hashConn struct {
	h hash.Hash
	n int64
}

func (h *hashConn) Write(p []byte) (int, error) {
	h.h.Write(p)
	h.n += int64(len(p))
	return len(p), nil
}
func (h *hashConn) Close() error { return nil }

func c02Huge(c *C, i, k int, f framing) {
	hc := &hashConn{h: sha256.New()}
	tk := make(manualTicker)
	snd, ch := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) { return hc, nil }), f.T, tk)
	l := drainErrs(ch)
	want, bytes := sha256.New(), int64(0)
	base := syslog.EmptyMessage().Time(time.Unix(0, 0).UTC()).AppName("huge")
	for j := 0; j < k; j++ {
		m := base.Msg(strconv.Itoa(j))
		if err := snd.Send(m); err != nil {
			c.Violate("message %d of a queue of %d refused on a healthy sender: %v", j, k, err)
			break
		}
		fr := f.enc("<0>1 1970-01-01T00:00:00Z - huge - - - " + strconv.Itoa(j))
		want.Write([]byte(fr))
		bytes += int64(len(fr))
		if i%2 == 1 && j == k/2 {
			tk.tick(nil)
		}
	}
	snd.End()
	<-l.done
	if hc.n != bytes || string(hc.h.Sum(nil)) != string(want.Sum(nil)) {
		c.Violate("a queue of %d messages: %d octets written, the accepted frames are %d octets (or not the same)", k, hc.n, bytes)
	}
	c.Stat("huge_queue_messages", int64(k))
	c.Eval(true, "huge", i, k)
}

// lineConn counts the lines it is given.
type lineConn struct{ lines int }

func (l *lineConn) Write(p []byte) (int, error) {
	l.lines += bytes.Count(p, []byte{'\n'})
	return len(p), nil
}
func (l *lineConn) Close() error { return nil }

// c02EndRace ends senders while messages are sent: what was accepted is written. Short histories,
// many of them: only the moment of End matters.
func c02EndRace(c *C, i int, g *rand.Rand, n int) {
	m := syslog.EmptyMessage().Msg("end race")
	accepted, refused := int64(0), int64(0)
	for k := 0; k < n; k++ {
		lc := &lineConn{}
		snd, ch := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) { return lc, nil }), syslog.TransportLFEnded, nil)
		var wg sync.WaitGroup
		var acc, ref atomic.Int64
		var over atomic.Bool
		for w := 1 + k%4; w > 0; w-- {
			wg.Add(1)
			spin := g.IntN(60)
			go func() {
				defer wg.Done()
				x := 0
				for !over.Load() {
					if err := snd.Send(m); err != nil {
						ref.Add(1)
						return
					}
					acc.Add(1)
					for j := 0; j < spin; j++ {
						x += j
					}
				}
				jitterSink.Add(int64(x))
			}()
		}
		for j := g.IntN(4); j > 0; j-- {
			runtime.Gosched()
		}
		snd.End()
		over.Store(true)
		wg.Wait()
		for range ch {
		}
		// the connection is not written any more: End returned
		if int64(lc.lines) != acc.Load() {
			c.Violate("end race %d.%d: %d messages accepted, %d written", i, k, acc.Load(), lc.lines)
			return
		}
		accepted += acc.Load()
		refused += ref.Load()
	}
	c.Stat("end_races", int64(n))
	c.Stat("end_race_accepted", accepted)
	c.Stat("end_race_refused", refused)
	c.Eval(accepted > 0 && refused > 0, "end-race", i)
}

func c02Burst(c *C, i, k int, f framing) {
	s := &sink{}
	tk := make(manualTicker)
	snd, ch := syslog.NewSender(s, f.T, tk)
	l := drainErrs(ch)
	var want string
	sent := 0
	send := func(n int) {
		for j := 0; j < n; j++ {
			m := mkMsg(fmt.Sprintf("b%d-%d", i, sent), sent%192, time.Unix(int64(sent), 0).UTC(), "burst "+strconv.Itoa(sent))
			sent++
			if err := snd.Send(m.M); err != nil {
				c.Violate("send refused on a healthy sender: %v", err)
			}
			want += f.enc(m.Want)
		}
	}
	send(k)
	tk.tick(nil)
	tk.tick(nil)
	send(k / 2)
	tk.tick(nil)
	tk.tick(nil)
	if string(s.bytes()) != want {
		c.Violate("burst of %d messages: written %s, want %s", k, q(s.bytes()), q(want))
	}
	send(k/3 + 1)
	snd.End()
	<-l.done
	if string(s.bytes()) != want {
		c.Violate("burst of %d messages: written after End %s, want %s", k, q(s.bytes()), q(want))
	}
	if l.count() != 0 {
		c.Violate("errors reported on a healthy connection: %v", l.all())
	}
	c.checkWrites(s, f, "burst")
	c.checkClosedOnce(s, "burst")
	c.StatMax("max_burst", int64(k))
	c.Eval(true, want)
}

func c02Sequential(c *C, i int, g *rand.Rand, f framing) {
	s := &sink{}
	tk := make(manualTicker)
	snd, ch := syslog.NewSender(s, f.T, tk)
	l := drainErrs(ch)
	var want string
	frames := 0
	ops := 3 + g.IntN(12)
	for o := 0; o < ops; o++ {
		for k := g.IntN(pick(g, 2, 5, 30)); k > 0; k-- {
			m := randMsg(g, f, fmt.Sprintf("s%d-%d", i, frames), 3000)
			if err := snd.Send(m.M); err != nil {
				c.Violate("send refused on a healthy sender: %v", err)
				return
			}
			frames++
			want += f.enc(m.Want)
		}
		if g.IntN(2) == 0 {
			tk.tick(nil)
			tk.tick(nil)
			if got := string(s.bytes()); got != want {
				c.Violate("after a flush: written %s, want %s", q(got), q(want))
				return
			}
		}
	}
	snd.End()
	<-l.done
	if got := string(s.bytes()); got != want {
		c.Violate("after End: written %s, want %s", q(got), q(want))
	}
	if s.attempts > 1 {
		c.Violate("%d connections were made to a healthy destination", s.attempts)
	}
	c.checkWrites(s, f, "sequential")
	c.checkClosedOnce(s, "sequential")
	c.Stat("frames_observed", int64(frames))
	c.Eval(frames > 1, want)
	if frames > 3 {
		c.Sample("sequential", "%s framing, %d frames, stream %s", f.Name, frames, q(want))
	}
}

func c02Concurrent(c *C, i int, g *rand.Rand, f framing, raceEnd bool) {
	s := &sink{}
	if g.IntN(2) == 0 {
		s.onWrite = func(_ *sinkConn, p []byte) (int, error) {
			if len(p)%5 == 0 {
				time.Sleep(30 * time.Microsecond)
			}
			return len(p), nil
		}
	}
	tk := make(manualTicker)
	var tr syslog.Transport = f.T
	if g.IntN(2) == 0 {
		tr = &yieldTransport{Transport: f.T}
	}
	snd, ch := syslog.NewSender(s, tr, tk)
	l := drainErrs(ch)
	stop := make(chan struct{})
	var tg, wg sync.WaitGroup
	tg.Add(1)
	tgen := rand.New(rand.NewPCG(uint64(i), 7))
	go func() {
		defer tg.Done()
		for tk.tick(stop) {
			jitter(tgen)
		}
	}()
	producers := 1 + g.IntN(8)
	per := 1 + g.IntN(25)
	var clock atomic.Int64
	recs := make([][]sendRec, producers)
	for p := 0; p < producers; p++ {
		pg := rand.New(rand.NewPCG(uint64(i), uint64(100+p)))
		recs[p] = make([]sendRec, per)
		for j := range recs[p] {
			recs[p][j].sm = randMsg(pg, f, fmt.Sprintf("p%d-%d", p, j), 400)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Guard(func() {
				for j := range recs[p] {
					x := &recs[p][j]
					x.call = clock.Add(1)
					x.err = snd.Send(x.M)
					x.ret = clock.Add(1)
					jitter(pg)
				}
			})
		}()
	}
	var endCall int64
	if raceEnd {
		time.Sleep(time.Duration(g.IntN(300)) * time.Microsecond)
	} else {
		wg.Wait()
	}
	close(stop)
	tg.Wait()
	endCall = clock.Add(1)
	snd.End()
	got := s.bytes() // End returned: everything accepted has been written by now
	wg.Wait()
	if raceEnd {
		after := mkMsg("after", 1, time.Unix(1, 0), "after End")
		if err := snd.Send(after.M); err == nil {
			c.Violate("a send after End returned was accepted, it can never be written")
		}
		c.Stat("sends_after_end", 1)
	}
	<-l.done
	if late := s.bytes(); len(late) != len(got) {
		c.Violate("%d bytes were written after End returned", len(late)-len(got))
	}
	// offline oracle
	frames, rest, err := f.split(got)
	if err != nil || len(rest) > 0 {
		c.Violate("stream is not a sequence of frames: %v, tail %s", err, q(rest))
		return
	}
	byMsg := map[string]*sendRec{}
	accepted, refused, racing := 0, 0, 0
	for p := range recs {
		for j := range recs[p] {
			x := &recs[p][j]
			byMsg[x.Want] = x
			if x.err == nil {
				accepted++
			} else {
				refused++
				if x.ret < endCall {
					c.Violate("a send that returned before End was called was refused: %v", x.err)
				}
			}
			if x.ret > endCall {
				racing++
			}
		}
	}
	seen := map[*sendRec]int{}
	order := make([]*sendRec, 0, len(frames))
	for k, fr := range frames {
		x := byMsg[fr]
		if x == nil {
			c.Violate("frame %d was never sent: %s", k, q(fr))
			return
		}
		if seen[x]++; seen[x] > 1 {
			c.Violate("frame written twice: %s", q(fr))
			return
		}
		if x.err != nil {
			c.Violate("message refused with %v was written: %s", x.err, q(fr))
		}
		order = append(order, x)
	}
	for _, x := range byMsg {
		if x.err == nil && seen[x] == 0 {
			c.Violate("accepted message never written (sends %d, written %d, send returned at %d, End called at %d): %s", len(byMsg), len(frames), x.ret, endCall, q(x.Want))
			break
		}
	}
	// real-time order
	minRet := int64(1) << 60
	for k := len(order) - 1; k >= 0; k-- {
		if order[k].call > minRet {
			c.Violate("frame %d was sent entirely after a frame written behind it: %s", k, q(order[k].Want))
			break
		}
		if order[k].ret < minRet {
			minRet = order[k].ret
		}
	}
	c.checkWrites(s, f, "concurrent")
	c.checkClosedOnce(s, "concurrent")
	c.Stat("frames_observed", int64(len(frames)))
	c.Stat("sends_racing_with_end", int64(racing))
	c.Stat("sends_refused", int64(refused))
	c.Stat("concurrent_histories", 1)
	sig := ""
	for _, x := range order {
		sig += x.Want[len("<0>1 "):min(len(x.Want), 60)]
	}
	c.Eval(len(frames) > 1, sig)
	c.Sample("concurrent", "%s, %d producers x %d, racing End %v: accepted %d, refused %d", f.Name, producers, per, raceEnd, accepted, refused)
}

// c02Stalled runs in virtual time over net.Pipe, whose Write waits for the reader.
func c02Stalled(t *testing.T, c *C, i int, g *rand.Rand, f framing) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			var conns []net.Conn
			var mu sync.Mutex
			tk := time.NewTicker(time.Minute)
			snd, ch := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) {
				a, b := net.Pipe()
				mu.Lock()
				conns = append(conns, b)
				mu.Unlock()
				return a, nil
			}), f.T, tk.C)
			l := drainErrs(ch)
			var want []byte
			k := 1 + g.IntN(12)
			for j := 0; j < k; j++ {
				m := randMsg(g, f, fmt.Sprintf("st%d-%d", i, j), 3000)
				if err := snd.Send(m.M); err != nil {
					c.Violate("send refused: %v", err)
				}
				want = append(want, f.enc(m.Want)...)
			}
			ended := make(chan struct{})
			endFirst := g.IntN(2) == 0
			if endFirst {
				go func() { defer close(ended); c.Guard(snd.End) }()
			}
			stall := time.Duration(1+g.Int64N(int64(48*time.Hour))) + 2*time.Minute
			time.Sleep(stall)
			tk.Stop()
			what := fmt.Sprintf("%d messages, %s framing, over a connection which takes them slowly after %v", k, f.Name, stall)
			mu.Lock()
			n := len(conns)
			mu.Unlock()
			if n != 1 {
				c.Violate("%s: %d connections were made", what, n)
				return
			}
			if endFirst {
				select {
				case <-ended:
					c.Violate("%s: End returned before anything was read", what)
				default:
				}
			}
			// read, with pauses
			var got []byte
			rd := make(chan struct{})
			pg := rand.New(rand.NewPCG(g.Uint64(), 1))
			go func() {
				defer close(rd)
				buf := make([]byte, 1000)
				for {
					k, err := conns[0].Read(buf[:1+pg.IntN(1000)])
					got = append(got, buf[:k]...)
					if err != nil {
						return
					}
					if pg.IntN(8) == 0 {
						time.Sleep(time.Duration(pg.Int64N(int64(3 * time.Hour))))
					}
				}
			}()
			time.Sleep(1000 * time.Hour)
			if !endFirst {
				go func() { defer close(ended); c.Guard(snd.End) }()
			}
			<-ended
			<-rd
			<-l.done
			if string(got) != string(want) {
				c.Violate("%s: read %s, want %s", what, q(got), q(want))
			}
			if l.count() > 0 {
				c.Violate("%s: errors reported: %v", what, l.all())
			}
			if len(conns) != 1 {
				c.Violate("%s: %d connections were made", what, len(conns))
			}
			c.Eval(k > 1, want, endFirst)
			c.Stat("stalled_writes", int64(k))
		})
	})
}
