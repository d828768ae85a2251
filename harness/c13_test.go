package vharness

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// census counts the goroutines that run library code, without those of the harness that are
// inside a library call.
func census() (n int, stacks string) {
	buf := make([]byte, 1<<20)
	for {
		k := runtime.Stack(buf, true)
		if k < len(buf) {
			buf = buf[:k]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !libFrame(g) {
			continue
		}
		// the origin tells who started it
		i := strings.LastIndex(g, "created by ")
		if i < 0 || !strings.Contains(g[i:], "nathanaelle/syslog5424") {
			continue
		}
		n++
		stacks += g + "\n\n"
	}
	return
}

// readErrors are errors a connection can end with.
var readErrors = []error{errReadFailure, io.ErrUnexpectedEOF, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}, os.ErrDeadlineExceeded, errors.New("EOF"), io.ErrClosedPipe,
	fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF)}

// expectEnd computes what a stream cut at n and ended must give.
type endWant struct {
	msgs    []string
	partial string // what is left
}

func (s *stream) endsAt(n int) endWant {
	k := s.complete(n)
	w := endWant{msgs: s.msgs[:k]}
	from := 0
	if k > 0 {
		from = s.ends[k-1]
	}
	w.partial = string(s.data[from:n])
	return w
}

func (c *C) c13One(t *testing.T, f framing, s *stream, n int, at []int, end int, rerr error, readErrs bool, queue int) {
	c.c13Zero(t, f, s, n, at, end, rerr, readErrs, queue, false)
}

// c13Full: reads which fill the buffer of the receiver exactly, the last of them with the end.
func (c *C) c13Full(t *testing.T, f framing, s *stream, endAt, end int, rerr error, queue int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			conn := newFull(s.data, endAt, end, rerr)
			l := newListener(conn)
			x := newReceiver(c, l, queue, f.T, true)
			x.consume(c)
			synctest.Wait()
			what := fmt.Sprintf("%s framing, frames end at %v, reads which fill the buffer, of %v bytes, read %d with or before %s (%v)", f.Name, s.ends, conn.sizes, endAt, endNames[end], rerr)
			c.judgeEnd(what, f, s.endsAt(conn.sent), x, conn, end, rerr, true)
			c.Eval(true, conn.sent, s.data, end, f.Name, fmt.Sprint(rerr))
			c.Stat("filled_reads", int64(conn.reads))
			x.stop()
		})
	})
}

// c13Zero: as c13One, the connection may give reads without data.
func (c *C) c13Zero(t *testing.T, f framing, s *stream, n int, at []int, end int, rerr error, readErrs bool, queue int, zero bool) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			conn := newScript(end, cut(s.data[:n], at...)...)
			conn.err = rerr
			conn.zero = zero
			l := newListener(conn)
			x := newReceiver(c, l, queue, f.T, readErrs)
			x.consume(c)
			synctest.Wait()
			what := fmt.Sprintf("%s framing, %d of %d bytes, frames end at %v, cuts %s, then %s (%v)", f.Name, n, len(s.data), s.ends, cutsOf(conn), endNames[end], rerr)
			c.judgeEnd(what, f, s.endsAt(n), x, conn, end, rerr, readErrs)
			c.Eval(true, s.data[:n], end, f.Name, fmt.Sprint(rerr))
			c.Stat("end_"+endNames[end], 1)
			x.stop()
		})
	})
}

// sameError tells whether an error reports another one.
func sameError(got, want error) bool {
	return got == want || errors.Is(got, want) || (got != nil && strings.Contains(got.Error(), want.Error()))
}

func (c *C) judgeEnd(what string, f framing, w endWant, x *receiver, conn interface{ facts() connFacts }, end int, rerr error, readErrs bool) {
	res := x.results()
	for k, m := range w.msgs {
		if k >= len(res) {
			c.Violate("%s: %d complete messages were read, %d delivered; the first missing is %s", what, len(w.msgs), len(res), q(m))
			return
		}
		if res[k].Err != nil || res[k].Text != m {
			c.Violate("%s: result %d is %s, %v; want %s", what, k, q(res[k].Text), res[k].Err, q(m))
			return
		}
	}
	rest := res[len(w.msgs):]
	var errs []error
	if readErrs {
		errs = x.errs.all()
	} else {
		for more := true; more; {
			select {
			case e := <-x.ch:
				errs = append(errs, e)
			default:
				more = false
			}
		}
	}
	eof := end == endEOF || end == endEOFData
	switch {
	case w.partial == "":
		if len(rest) > 0 {
			c.Violate("%s: one more result: %s, %v", what, q(rest[0].Text), rest[0].Err)
		}
	case !eof:
		// an error inside a frame: the rest may be dropped or reported, never taken for more than it is
		if len(rest) > 1 {
			c.Violate("%s: %d results for one incomplete frame", what, len(rest))
		}
		if len(rest) == 1 && rest[0].Err == nil && (f.Term != 0 || rest[0].Text != w.partial) {
			c.Violate("%s: the incomplete frame was delivered as %s", what, q(rest[0].Text))
		}
	case f.Term == 0:
		_, bad := refRead([]byte(w.partial))
		if len(rest) != 1 {
			c.Violate("%s: %d results for the unterminated last frame %s", what, len(rest), q(w.partial))
		} else if bad == nil && (rest[0].Err != nil || rest[0].Text != w.partial) {
			c.Violate("%s: the unterminated last message %s gives %s, %v", what, q(w.partial), q(rest[0].Text), rest[0].Err)
		} else if rest[0].Err == nil && rest[0].Text != w.partial {
			c.Violate("%s: the unterminated last frame %s gives %s", what, q(w.partial), q(rest[0].Text))
		}
	default:
		told := 0
		for _, e := range errs {
			if sameError(e, syslog.ErrTransportIncomplete) {
				told++
			}
		}
		for _, r := range rest {
			if r.Err == nil {
				c.Violate("%s: the incomplete frame %s was delivered as %s", what, q(w.partial), q(r.Text))
				return
			}
			if sameError(r.Err, syslog.ErrTransportIncomplete) {
				told++
			}
		}
		if told != 1 || len(rest)+len(errs) != 1 {
			c.Violate("%s: the incomplete last frame was reported %d times as incomplete: %v %v", what, told, rest, errs)
		}
	}
	if !eof {
		n := 0
		for _, e := range errs {
			if sameError(e, rerr) {
				n++
			}
		}
		if n != 1 {
			c.Violate("%s: the read error was reported %d times on the error channel: %v", what, n, errs)
		}
	} else if (w.partial == "" || f.Term == 0) && len(errs) > 0 {
		c.Violate("%s: errors reported for a regular end: %v", what, errs)
	}
	k := conn.facts()
	if k.closed == 0 {
		c.Violate("%s: the connection was closed %d times", what, k.closed)
	}
	if k.after > 0 || k.late > 0 {
		c.Violate("%s: %d reads after the end was told, %d after Close", what, k.after, k.late)
	}
}

func TestC13(t *testing.T) {
	r := newR(t, "C13", "one evaluation = one connection ended at one position in one way, whose results, reported errors, reads and closes were compared with the frames read; distinct = distinct (stream, end kind, error)")
	fs := framings()

	r.Case("days", func(c *C) { c.Days() })
	r.Case("every-position-every-end", func(c *C) {
		for v := 0; v < r.N(4, 40); v++ {
			for fi, f := range fs {
				g := c.Sub(v*3 + fi)
				s := randStream(g, f, "e", 2, 20)
				for n := 0; n <= len(s.data); n++ {
					for end := endEOF; end <= endErrData; end++ {
						if r.full() {
							return
						}
						var at []int
						if g.IntN(2) == 0 {
							at = []int{g.IntN(n + 1)}
						}
						c.c13One(t, f, s, n, at, end, readErrors[0], true, g.IntN(3))
					}
				}
			}
		}
	})
	r.Case("every-error", func(c *C) {
		for i := 0; i < r.N(600, 20000) && !r.full(); i++ {
			g := c.Sub(i)
			f := fs[i%3]
			s := randStream(g, f, "r", 1+g.IntN(5), 200)
			n := pick(g, len(s.data), g.IntN(len(s.data)+1), s.ends[g.IntN(len(s.ends))])
			var at []int
			for k := g.IntN(4); k > 0; k-- {
				at = append(at, g.IntN(n+1))
			}
			sort.Ints(at)
			c.c13Zero(t, f, s, n, at, pick(g, endErr, endErrData), readErrors[i%len(readErrors)], g.IntN(2) == 0, g.IntN(4), i/3%4 == 1)
		}
	})
	r.Case("long-streams", func(c *C) {
		sz := sizes(150000)
		for i := 0; i < r.N(150, 4000) && !r.full(); i++ {
			g := c.Sub(i)
			f := fs[i%3]
			var msgs []string
			for k := 1 + g.IntN(12); k > 0; k-- {
				size := g.IntN(2000)
				if g.IntN(3) == 0 {
					size = sz[g.IntN(len(sz))]
				}
				msgs = append(msgs, sized(g, f, fmt.Sprintf("l%d-%d", i, k), size))
			}
			s := mkStream(f, msgs...)
			n := pick(g, len(s.data), g.IntN(len(s.data)+1), s.ends[g.IntN(len(s.ends))])
			var at []int
			for p := 0; p < n; p += 1 + pickSize(g, 100000) {
				at = append(at, p)
			}
			c.c13Zero(t, f, s, n, at, g.IntN(4), readErrors[i%len(readErrors)], true, g.IntN(20), i/3%4 == 1)
		}
	})
	// reads which fill whatever buffer the receiver gives
	r.Case("filled-reads", func(c *C) {
		for i := 0; i < r.N(240, 5000) && !r.full(); i++ {
			g := c.Sub(i)
			f := fs[i%3]
			var msgs []string
			total := pick(g, 1000, 100000, 400000, 2000000)
			for k := 0; total > 0; k++ {
				size := pick(g, g.IntN(2000), pickSize(g, 3000), pickSize(g, 150000), 300)
				msgs = append(msgs, sized(g, f, fmt.Sprintf("F%d-%d", i, k), size))
				total -= size + 50
			}
			c.c13Full(t, f, mkStream(f, msgs...), 1+g.IntN(pick(g, 2, 8, 40)), g.IntN(4), readErrors[i%len(readErrors)], g.IntN(20))
		}
	})

	// many connections ending, error channel read or not: nothing stays behind
	r.Case("many-connections", func(c *C) {
		for i := 0; i < r.N(60, 2000) && !r.full(); i++ {
			c.c13Many(t, c.Sub(i), fs[i%3], i)
		}
	})
	r.Case("accept-failures", func(c *C) {
		for i := 0; i < r.N(200, 6000) && !r.full(); i++ {
			c.c13Accept(t, c.Sub(i), fs[i%3], i)
		}
	})
	r.Case("no-descriptors", func(c *C) {
		c.Parallel(r.N(18, 300), func(i int) { c.noFileReceive(c.Sub(i), i%3, []string{"tcp", "unix"}[i/3%2], i) })
	})
	r.Case("sockets", func(c *C) {
		c.Parallel(r.N(60, 1500), func(i int) {
			c.c13Sockets(c.Sub(i), fs[i%3], []string{"unix", "tcp"}[i/3%2], i)
		})
	})
	r.Case("idle-hours", func(c *C) {
		for i := 0; i < r.N(200, 5000) && !r.full(); i++ {
			c.c13Hours(t, c.Sub(i), fs[i%3], i)
		}
	})
	// connections, senders and sockets which do nothing for long (in real time)
	r.Case("idle", func(c *C) {
		var wg sync.WaitGroup
		for i := 0; i < 9; i++ {
			g := c.Sub(i)
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				c.Guard(func() { c.c13Idle(g, fs[i%3], []string{"unix", "tcp", "unixgram"}[i/3], i, r.N(70, 660)) })
			}(i)
		}
		wg.Wait()
	})
}

// c13Hours: connections with deadlines (net.Pipe) which pause for hours between and inside frames.
func (c *C) c13Hours(t *testing.T, g *rand.Rand, f framing, i int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			l := newListener()
			x := newReceiver(c, l, g.IntN(5), f.T, true)
			x.consume(c)
			goods := map[string]*stream{}
			var wg sync.WaitGroup
			for k := 0; k < 1+g.IntN(3); k++ {
				tag := fmt.Sprintf("good%d.%d", i, k)
				s, chunks := goodData(g, f, tag)
				goods[tag] = s
				a, b := net.Pipe()
				l.add(syslog.DataReader(b))
				pg := rand.New(rand.NewPCG(g.Uint64(), 1))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, ch := range chunks {
						if pg.IntN(2) == 0 {
							time.Sleep(time.Duration(pg.Int64N(int64(pick(pg, time.Minute, time.Hour, 100*time.Hour)))))
						}
						a.SetWriteDeadline(time.Now().Add(time.Hour))
						if n, err := a.Write(ch); err != nil {
							c.Violate("%s framing: the peer wrote %d of %d bytes after a pause: %v; errors reported: %v", f.Name, n, len(ch), err, x.errs.all())
							return
						}
					}
					time.Sleep(time.Duration(pg.Int64N(int64(pick(pg, time.Minute, time.Hour, 100*time.Hour)))))
					a.Close()
				}()
			}
			wg.Wait()
			synctest.Wait()
			c.judgeGoods(x, goods, f, "pausing for hours")
			if x.errs.count() > 0 {
				c.Violate("%s framing, pauses of hours: errors reported: %v", f.Name, x.errs.all())
			}
			c.Stat("paused_connections", int64(len(goods)))
			c.Eval(true, "hours", i)
			x.stop()
		})
	})
}

// c13Idle leaves a receiver, a connection in the middle of a frame and a sender alone.
func (c *C) c13Idle(g *rand.Rand, f framing, network string, i, seconds int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	l, addr, err := listen(network, dir, i)
	if err != nil {
		c.Violate("listen on %s: %v", network, err)
		return
	}
	x := newReceiver(c, l, 16, f.T, true)
	x.consume(c)
	defer func() {
		x.R.End()
		<-x.done
		close(x.errs.done)
	}()
	s := randStream(g, f, fmt.Sprintf("idle%d", i), 4, 100)
	conn, err := net.Dial(network, addr)
	if err != nil {
		c.Violate("dial %s: %v", network, err)
		return
	}
	defer conn.Close()
	snd, ch, err := (syslog.Dialer{FlushDelay: 50 * time.Millisecond}).Dial(network, addr, f.T)
	if err != nil {
		c.Violate("Dial %s: %v", network, err)
		return
	}
	errs := drainErrs(ch)
	first := mkMsg(fmt.Sprintf("isnd%d-0", i), 14, time.Unix(1e9, 0).UTC(), "before")
	second := mkMsg(fmt.Sprintf("isnd%d-1", i), 14, time.Unix(1e9, 0).UTC(), "after")
	snd.Send(first.M)
	at := s.ends[1]
	if network != "unixgram" {
		at += (s.ends[2] - s.ends[1]) / 2
		conn.Write(s.data[:at])
	} else {
		conn.Write(s.data[:s.ends[0]])
		conn.Write(s.data[s.ends[0]:at])
	}
	waitFor(10*time.Second, func() bool { return x.count() >= 3 })
	for k := 0; k < seconds; k++ {
		time.Sleep(time.Second)
		c.Progress()
	}
	snd.Send(second.M)
	if network != "unixgram" {
		conn.Write(s.data[at:])
	} else {
		conn.Write(s.data[at:s.ends[2]])
		conn.Write(s.data[s.ends[2]:])
	}
	waitFor(10*time.Second, func() bool { return x.count() >= 6 })
	time.Sleep(20 * time.Millisecond)
	what := fmt.Sprintf("%s over %s, idle for %d s", f.Name, network, seconds)
	want := append([]string{first.Want, second.Want}, s.msgs...)
	have := map[string]int{}
	for _, res := range x.results() {
		if res.Err != nil {
			c.Violate("%s: error result %v", what, res.Err)
		}
		have[res.Text]++
	}
	for _, m := range want {
		if have[m] != 1 {
			c.Violate("%s: %s received %d times", what, q(m), have[m])
		}
	}
	if n := errs.count() + x.errs.count(); n != 0 {
		c.Violate("%s: errors reported: %v %v", what, errs.all(), x.errs.all())
	}
	snd.End()
	c.Eval(true, "idle", network, f.Name)
	c.Stat("idle_connections", 1)
}

func (c *C) c13Many(t *testing.T, g *rand.Rand, f framing, i int) {
	readErrs := g.IntN(2) == 0
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			l := newListener()
			x := newReceiver(c, l, g.IntN(30), f.T, readErrs)
			x.consume(c)
			synctest.Wait()
			before, _ := census()
			goods := map[string]*stream{}
			var conns []*scriptConn
			for round := 0; round < 3; round++ {
				crowd := 15
				if i%20 == 19 {
					crowd = 700
				}
				for k := 0; k < crowd; k++ {
					tag := fmt.Sprintf("good%d.%d.%d", i, round, k)
					s, chunks := goodData(g, f, tag)
					goods[tag] = s
					end := g.IntN(4)
					if g.IntN(4) == 0 && f.Term != 0 { // in the middle of a next frame
						part := f.enc("<1>1 - - - - - - cut short")
						chunks = append(chunks, []byte(part[:1+g.IntN(len(part)-1)]))
					}
					sc := newScript(end, chunks...)
					conns = append(conns, sc)
					l.add(sc)
				}
				synctest.Wait()
				time.Sleep(10 * time.Millisecond)
				synctest.Wait()
			}
			c.judgeGoods(x, goods, f, fmt.Sprintf("of ending connections (errors read: %v)", readErrs))
			for k, sc := range conns {
				if fa := sc.facts(); fa.closed == 0 || fa.after > 0 || fa.late > 0 {
					c.Violate("%s framing: connection %d ended by %s: closed %d times, %d reads after its end, %d after Close", f.Name, k, endNames[sc.end], fa.closed, fa.after, fa.late)
					break
				}
			}
			if after, stacks := census(); after > before {
				c.Violate("%s framing: %d goroutines of the receiver are left for ended connections\n%s", f.Name, after-before, stacks)
			}
			c.Stat("connections_ended", int64(len(conns)))
			c.Eval(true, fmt.Sprint("many", i), f.Name, readErrs)
			x.stop()
		})
	})
}

func (c *C) c13Accept(t *testing.T, g *rand.Rand, f framing, i int) {
	readErrs := g.IntN(3) > 0
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			l := newListener()
			x := newReceiver(c, l, g.IntN(30), f.T, readErrs)
			x.consume(c)
			goods := map[string]*stream{}
			fails := 0
			spaced := g.IntN(2) == 0
			for k := 2 + g.IntN(20); k > 0; k-- {
				if g.IntN(2) == 0 {
					for j := pick(g, 1, 1, 2, 5, 40); j > 0; j-- {
						fails++
						err := pick(g, errAcceptFailure, error(syscall.EMFILE), error(&net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED}),
							// what accept(2) may give, temporary in the sense of package net or not
							opErr("accept", pick(g, syscall.EMFILE, syscall.ENFILE, syscall.ENOBUFS, syscall.ENOMEM, syscall.EPROTO, syscall.EPERM, syscall.ENETDOWN, syscall.ENETUNREACH, syscall.EHOSTUNREACH,
								syscall.EHOSTDOWN, syscall.EOPNOTSUPP, syscall.ENOPROTOOPT, syscall.EINTR, syscall.ECONNABORTED, syscall.ECONNRESET, syscall.EIO, syscall.EAGAIN)),
							error(&net.OpError{Op: "accept", Net: "tcp", Err: os.ErrDeadlineExceeded}), error(os.NewSyscallError("accept", syscall.EPROTO)), io.ErrUnexpectedEOF, error(&net.DNSError{Err: "x", IsTemporary: true}))
						if g.IntN(2) == 0 {
							err = fmt.Errorf("accept failure %d: %w", fails, err)
						}
						l.add(err)
						if spaced {
							time.Sleep(time.Second)
							synctest.Wait()
						}
					}
				} else {
					tag := fmt.Sprintf("good%d.%d", i, k)
					s, chunks := goodData(g, f, tag)
					goods[tag] = s
					l.add(newScript(pick(g, endEOF, endIdle), chunks...))
				}
			}
			time.Sleep(time.Minute)
			synctest.Wait()
			c.judgeGoods(x, goods, f, fmt.Sprintf("among %d accept failures (errors read: %v)", fails, readErrs))
			if len(l.items) > 0 {
				c.Violate("after %d accept failures (errors read: %v) the receiver stopped accepting: %d connections or failures still wait", fails, readErrs, len(l.items))
			}
			if readErrs && spaced && x.errs.count() != fails {
				c.Violate("%d accept failures, far from each other, %d reported: %v", fails, x.errs.count(), x.errs.all())
			}
			if readErrs && fails > 0 && x.errs.count() == 0 {
				c.Violate("%d accept failures, none reported", fails)
			}
			c.Stat("accept_failures", int64(fails))
			c.Eval(fails > 0, fmt.Sprint("accept", i), readErrs, spaced)
			x.stop()
		})
	})
}

// c13Sockets ends real connections.
func (c *C) c13Sockets(g *rand.Rand, f framing, network string, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	l, addr, err := listen(network, dir, i)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	x := newReceiver(c, l, 16, f.T, true)
	x.consume(c)
	defer func() {
		x.R.End()
		<-x.done
		close(x.errs.done)
	}()
	for round := 0; round < 3; round++ {
		s := randStream(g, f, fmt.Sprintf("s%d-%d", i, round), 1+g.IntN(6), pick(g, 50, 3000, 60000))
		n := pick(g, len(s.data), g.IntN(len(s.data)+1))
		w := s.endsAt(n)
		conn, err := net.Dial(network, addr)
		if err != nil {
			c.Inconclusive("dial: %v", err)
			return
		}
		seen := x.count()
		for _, ch := range cut(s.data[:n], g.IntN(n+1)) {
			conn.Write(ch)
		}
		if g.IntN(2) == 0 {
			time.Sleep(time.Millisecond)
		}
		conn.Close()
		total := len(w.msgs)
		if w.partial != "" {
			total++
		}
		waitFor(10*time.Second, func() bool { return x.count() >= seen+total })
		time.Sleep(time.Millisecond)
		res := x.results()[seen:]
		what := fmt.Sprintf("%s over %s, %d of %d bytes, then close", f.Name, network, n, len(s.data))
		for k, m := range w.msgs {
			if k >= len(res) || res[k].Err != nil || res[k].Text != m {
				c.Violate("%s: result %d of %d is wrong or missing, want %s", what, k, len(res), q(m))
				return
			}
		}
		if w.partial == "" && len(res) > total {
			c.Violate("%s: one more result: %s, %v", what, q(res[total].Text), res[total].Err)
		}
		if w.partial != "" {
			if len(res) != total {
				c.Violate("%s: %d results, want %d", what, len(res), total)
				return
			}
			last := res[total-1]
			if last.Err == nil && (f.Term != 0 || last.Text != w.partial) {
				c.Violate("%s: the incomplete frame %s was delivered as %s", what, q(w.partial), q(last.Text))
			}
		}
		c.Eval(true, network, s.data[:n], f.Name)
		c.Stat("socket_connections", 1)
	}
}
