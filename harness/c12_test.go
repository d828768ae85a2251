package vharness

import (
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// malformed gives a frame body that no reading of RFC 5424 accepts: header fields missing or
// empty, no structured data, brackets or quotes which do not match, no space behind them.
func malformed(g *rand.Rand, f framing) string {
	if g.IntN(4) == 0 {
		bad := []string{"hello", "<1>1", "<1>1 ", "<1>1 - - - - -", "<1>1 - - - - - ", "<1>1 - - - - - x", "<1>1 - - - - - [a", "<1>1 - - - - - [a b=\"c",
			"<1>1 - - - - - [a b=\"c\"", "<1>1 - - - - - [a b=\"c\"]x", "<1>1 - - - - - -x", "<1>1  - - - - -", " <1>1 - - - - - -", "<1>1 - - -  - - -", "<1>1 - - - - - [a]]", "<1>1 - - - - - [a][",
			"<1>1 - - - - - [a b=\"]\"]", "x", "-", "[", "]", "\"", "\\", "\ufeff", "<34>1 2003-10-11T22:14:15.003Z h", "\xff\xfe", strings.Repeat("a", 3000), "<1>1 - - - - - [a b=\"\\\"]", "<1>1 - - - - - [" + strings.Repeat("a", 5000),
			"GET / HTTP/1.1\r", "<13>Oct 11 22:14:15 host su:failed"}
		if f.Term < 0 || g.IntN(2) == 0 {
			bad = append(bad, "")
		}
		return f.clean(bad[g.IntN(len(bad))])
	}
	// a valid message broken in one place
	m := gMessage(g)
	if len(m.elems) == 0 {
		m.elems = []string{"[a b=\"c\"]"}
	}
	if m.text == "" || !m.hasText {
		m.hasText, m.text = true, "t"
	}
	head := fmt.Sprintf("<%d>1 %s %s %s %s %s", m.prio, m.ts, m.host, m.app, m.proc, m.msgid)
	fields := strings.Split(head, " ")
	sd := strings.Join(m.elems, "")
	switch g.IntN(6) {
	case 0: // cut inside the header
		return f.clean(head[:g.IntN(len(head))])
	case 1: // an empty field
		fields[g.IntN(6)] = ""
		return f.clean(strings.Join(fields, " ") + " " + sd + " " + m.text)
	case 2: // no structured data
		return f.clean(head + " " + pick(g, "x", "\"", "]", "(", "a[") + m.text)
	case 3: // cut inside the structured data
		return f.clean(head + " " + sd[:len(sd)-1-g.IntN(min(len(m.elems[len(m.elems)-1])-1, len(sd)))])
	case 4: // no space behind the structured data
		return f.clean(head + " " + sd + pick(g, "x", "]", "\"", "-", "\t", "=", "\\"))
	default: // an unescaped bracket in a value
		return f.clean(head + " [x y=\"" + escapeSD(sdValue(g, 10)) + "]" + escapeSD(sdValue(g, 10)) + "\"] " + m.text)
	}
}

// brokenHeader gives bytes which do not begin a RFC 5425 frame.
func brokenHeader(g *rand.Rand) string {
	if g.IntN(2) == 0 {
		return pick(g, "x", " ", " 5 hello", "-1 x", "+5 hello", "12x hello", "a5 hello", "5\thello", "5\nhello", "99999999999999999999999 x", "9999999999999999999999999999999999999999", "18446744073709551617 x", "0x10 x", "5.0 hello", "<1>1 - - - - - -\n", "1e3 x", "\x00", "\xff5 ", "９ x", "GET / HTTP/1.1\r\n\r\n", "12345678901234567890123456789 x", "1,000 x", "5;hello")
	}
	return fmt.Sprint(g.IntN(1000)) + string([]byte{pick(g, byte('x'), '\n', 0, '\t', '-', '.', 0xff, ',', '<')}) + string(randBytes(g, g.IntN(100)))
}

type expect struct {
	text string
	bad  bool
}

func TestC12(t *testing.T) {
	r := newR(t, "C12", "one evaluation = one connection (or datagram socket) whose sequence of results is compared with the sequence expected for its valid and malformed frames; distinct = distinct streams")
	fs := framings()

	// one connection: the exact sequence of results
	r.Case("malformed-among-valid", func(c *C) {
		for i := 0; i < r.N(3000, 60000) && !r.full(); i++ {
			g := c.Sub(i)
			f := fs[i%3]
			var data []byte
			var want []expect
			frames, one := 1+g.IntN(8), ""
			if i%200 == 199 { // a peer that does nothing but badly
				frames = 300 + g.IntN(3000)
				one = pick(g, "", malformed(g, f))
			}
			for k := frames; k > 0; k-- {
				if g.IntN(2) == 0 || frames > 100 && k%64 > 0 {
					b := one
					if b == "" {
						b = malformed(g, f)
					}
					data = append(data, f.enc(b)...)
					want = append(want, expect{b, true})
				} else {
					m := randMsg(g, f, fmt.Sprintf("v%d-%d", i, k), 500).Want
					data = append(data, f.enc(m)...)
					want = append(want, expect{m, false})
				}
			}
			broken := ""
			if f.Term < 0 && g.IntN(4) == 0 {
				broken = brokenHeader(g)
				data = append(data, broken...)
				if g.IntN(2) == 0 { // what follows is lost
					data = append(data, f.enc("<1>1 - - - - - - behind")...)
				}
			}
			var at []int
			for k := g.IntN(6); k > 0; k-- {
				at = append(at, g.IntN(len(data)+1))
			}
			sort.Ints(at)
			end := pick(g, endEOF, endEOFData, endIdle)
			if broken != "" {
				end = pick(g, endIdle, endEOF)
			}
			c.c12One(t, f, data, at, end, want, broken, g.IntN(20))
		}
	})

	// hostile peers beside well-behaved ones
	r.Case("hostile-peers", func(c *C) {
		for i := 0; i < r.N(500, 12000) && !r.full(); i++ {
			g := c.Sub(i)
			c.c12Hostile(t, g, fs[i%3], i)
		}
	})

	// real sockets
	r.Case("sockets", func(c *C) {
		c.Parallel(r.N(48, 800), func(i int) {
			c.c12Sockets(c.Sub(i), fs[i%3], pick(c.Sub(i), "unix", "tcp"), i)
		})
	})
	r.Case("endless", func(c *C) {
		for _, f := range fs {
			for _, head := range []string{"", "<1>1 - - - - - - ", "<1>1 - - - - - [a b=\""} {
				c.c12Endless(f, head, "x", true)
			}
			c.c12Endless(f, "", f.enc("<1>1 - - - - - - "+strings.Repeat("y", 900)), false)
		}
	})
	r.Case("datagrams", func(c *C) {
		c.Parallel(r.N(90, 2000), func(i int) {
			c.c12Datagrams(c.Sub(i), fs[i%3], i)
		})
	})
}

// endless gives head and then pattern again and again, up to max bytes.
type endless struct {
	*scriptConn
	head, pattern []byte
	pos           atomic.Int64
	max           int64
}

func (e *endless) Read(p []byte) (int, error) {
	pos := e.pos.Load()
	if pos >= e.max {
		<-e.closedCh
	}
	select {
	case <-e.closedCh:
		return 0, os.ErrClosed
	default:
	}
	n := 0
	if pos < int64(len(e.head)) {
		n = copy(p, e.head[pos:])
	} else {
		n = copy(p, e.pattern[int(pos-int64(len(e.head)))%len(e.pattern):])
		for n < len(p) {
			n += copy(p[n:], e.pattern)
		}
	}
	e.pos.Add(int64(n))
	return n, nil
}

// c12Endless: a frame that never ends, or frames nobody receives, do not fill the memory; another
// connection is served meanwhile (when results are received).
func (c *C) c12Endless(f framing, head, pattern string, received bool) {
	const size, bound = 1 << 30, 256 << 20
	if f.Term < 0 && received {
		head = "999999999 " + head
	}
	e := &endless{scriptConn: newScript(endIdle), head: []byte(head), pattern: []byte(pattern), max: size}
	if len(pattern) == 1 {
		e.pattern = []byte(strings.Repeat(pattern, 1<<16))
	}
	runtime.GC()
	base := heapBytes()
	l := newListener(e)
	x := newReceiver(c, l, 4, f.T, true)
	if received {
		x.consume(c)
	}
	var top uint64
	still, last := time.Now(), int64(-1)
	waitFor(60*time.Second, func() bool {
		if h := heapBytes(); h > base && h-base > top {
			if top = h - base; top > bound {
				// without what is garbage
				runtime.GC()
				top = max(heapBytes(), base) - base
			}
		}
		pos := e.pos.Load()
		if pos != last {
			last, still = pos, time.Now()
			c.Progress()
		}
		idle := 3 * time.Second
		if !received {
			idle = 200 * time.Millisecond
		}
		return top > bound || e.facts().closed > 0 || pos >= size || time.Since(still) > idle
	})
	what := fmt.Sprintf("%s: a peer sending %s then %d bytes of %.20q", f.Name, q([]byte(head)), e.pos.Load(), pattern)
	if top > bound {
		c.Violate("%s makes the receiver hold %d MiB", what, top>>20)
	} else {
		c.Stat("endless_mib", e.pos.Load()>>20)
		if received {
			good := newScript(endEOF, []byte(f.enc("<9>1 - - - - - - good")))
			l.add(good)
			if !waitFor(30*time.Second, func() bool {
				for _, r := range x.results() {
					if r.Err == nil && r.Text == "<9>1 - - - - - - good" {
						return true
					}
				}
				return false
			}) {
				c.Violate("%s: another connection is not served", what)
			}
		}
	}
	if !received {
		x.consume(c)
	}
	e.Close()
	x.stop()
	c.Eval(true, "endless", f.Name, head, received)
}

func (c *C) c12One(t *testing.T, f framing, data []byte, at []int, end int, want []expect, broken string, queue int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			conn := newScript(end, cut(data, at...)...)
			l := newListener(conn)
			x := newReceiver(c, l, queue, f.T, true)
			x.consume(c)
			synctest.Wait()
			res := x.results()
			what := fmt.Sprintf("%s framing, stream %s", f.Name, q(data))
			for k := 0; k < len(want); k++ {
				if k >= len(res) {
					c.Violate("%s: %d results, the frames give %d; the first missing is for %s", what, len(res), len(want), q(want[k].text))
					break
				}
				w, got := want[k], res[k]
				if w.bad && (got.Err == nil || got.Text != "") {
					c.Violate("%s: result %d is message %s, %v; the malformed frame %s gives one error", what, k, q(got.Text), got.Err, q(w.text))
					break
				}
				if !w.bad && (got.Err != nil || got.Text != w.text) {
					c.Violate("%s: result %d is %s, %v; want %s", what, k, q(got.Text), got.Err, q(w.text))
					break
				}
			}
			extra := 0
			if len(res) > len(want) {
				extra = len(res) - len(want)
			}
			f5 := conn.facts()
			if broken == "" {
				if extra > 0 {
					c.Violate("%s: %d results, the frames give %d; one more: %s, %v", what, len(res), len(want), q(res[len(want)].Text), res[len(want)].Err)
				}
				if x.errs.count() > 0 {
					c.Violate("%s: errors reported: %v", what, x.errs.all())
				}
				if end == endIdle && f5.closed > 0 {
					c.Violate("%s: the connection was closed because of a malformed frame", what)
				}
			} else {
				// the broken framing is reported, as a result or as an error, and ends the connection
				told := x.errs.count()
				for k := len(want); k < len(res); k++ {
					if res[k].Err == nil {
						c.Violate("%s: message %s taken from behind the broken header %s", what, q(res[k].Text), q(broken))
					}
					told++
				}
				if told != 1 {
					c.Violate("%s: the broken header %s was reported %d times", what, q(broken), told)
				}
				if f5.closed == 0 {
					c.Violate("%s: connection closed %d times after the broken header %s", what, f5.closed, q(broken))
				}
				c.Stat("broken_headers", 1)
			}
			c.Stat("results_observed", int64(len(res)))
			c.Eval(len(want) > 1 || broken != "", data, f.Name, end)
			c.Sample("stream "+f.Name, "%s", q(data))
			x.stop()
		})
	})
}

// goodConn sends tagged valid messages.
func goodData(g *rand.Rand, f framing, tag string) (*stream, [][]byte) {
	s := randStream(g, f, tag, 1+g.IntN(12), pick(g, 30, 300, 5000))
	var at []int
	for k := g.IntN(10); k > 0; k-- {
		at = append(at, g.IntN(len(s.data)+1))
	}
	sort.Ints(at)
	return s, cut(s.data, at...)
}

// hostileBytes is what a hostile peer sends.
func hostileBytes(g *rand.Rand, f framing) []byte {
	switch g.IntN(6) {
	case 0:
		return randBytes(g, pickSize(g, 100000))
	case 1:
		var b []byte
		for k := g.IntN(20); k > 0; k-- {
			b = append(b, f.enc(malformed(g, f))...)
		}
		return b
	case 2:
		return []byte(brokenHeader(g))
	case 3: // a frame that never ends
		return []byte("2147483647 " + strings.Repeat("x", g.IntN(200000)))
	case 4:
		s := []byte(f.enc(randMsg(g, f, "hostile", 300).Want))
		for k := 1 + g.IntN(4); k > 0 && len(s) > 0; k-- {
			s[g.IntN(len(s))] = byte(g.IntN(256))
		}
		return s
	default:
		return []byte(hostileStream(g, f))
	}
}

func (c *C) c12Hostile(t *testing.T, g *rand.Rand, f framing, i int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			l := newListener()
			goods := map[string]*stream{}
			n := 0
			for k := 2 + g.IntN(6); k > 0; k-- {
				if g.IntN(2) == 0 {
					tag := fmt.Sprintf("good%d.%d", i, k)
					s, chunks := goodData(g, f, tag)
					goods[tag] = s
					l.add(newScript(pick(g, endEOF, endEOFData, endIdle), chunks...))
					n += len(s.msgs)
				} else {
					data := hostileBytes(g, f)
					var at []int
					for j := g.IntN(8); j > 0; j-- {
						at = append(at, g.IntN(len(data)+1))
					}
					sort.Ints(at)
					hc := newScript(g.IntN(5), cut(data, at...)...)
					hc.zero = g.IntN(4) == 0
					l.add(hc)
					c.Stat("hostile_connections", 1)
				}
				if g.IntN(5) == 0 {
					l.add(errAcceptFailure)
				}
			}
			x := newReceiver(c, l, g.IntN(30), f.T, g.IntN(2) == 0)
			x.consume(c)
			synctest.Wait()
			time.Sleep(time.Second)
			synctest.Wait()
			c.judgeGoods(x, goods, f, "beside hostile peers")
			x.stop()
			c.Eval(n > 1, fmt.Sprint(i), f.Name)
			c.Stat("good_messages", int64(n))
		})
	})
}

// judgeGoods checks that each well-behaved connection had its messages delivered, once, in order.
func (c *C) judgeGoods(x *receiver, goods map[string]*stream, f framing, what string) {
	owner := map[string]string{}
	for tag, s := range goods {
		for _, m := range s.msgs {
			owner[m] = tag
		}
	}
	pos := map[string]int{}
	for _, res := range x.results() {
		tag, ok := owner[res.Text]
		if !ok || res.Err != nil {
			if strings.Contains(res.Text, " app good") {
				c.Violate("%s %s: a message of a well-behaved connection was altered: %s", f.Name, what, q(res.Text))
			}
			continue
		}
		s := goods[tag]
		if k := pos[tag]; k >= len(s.msgs) || s.msgs[k] != res.Text {
			c.Violate("%s %s: connection %s: message delivered twice or out of order: %s", f.Name, what, tag, q(res.Text))
			return
		}
		pos[tag]++
	}
	for tag, s := range goods {
		if pos[tag] != len(s.msgs) {
			c.Violate("%s %s: connection %s: %d of %d messages delivered", f.Name, what, tag, pos[tag], len(s.msgs))
		}
	}
}

// waitFor waits for a condition that must become true; a deadline is only a bound on patience.
func waitFor(d time.Duration, ok func() bool) bool {
	end := time.Now().Add(d)
	for !ok() {
		if time.Now().After(end) {
			return ok()
		}
		time.Sleep(500 * time.Microsecond)
	}
	return true
}

func scratchDir() string {
	d := os.Getenv("VH_TMP")
	if d == "" {
		d = os.TempDir()
	}
	p, err := os.MkdirTemp(d, "s")
	if err != nil {
		panic(err)
	}
	return p
}

// listen gives a listener of the library on a fresh address of the network.
func listen(network, dir string, k int) (syslog.Listener, string, error) {
	switch network {
	case "unix", "unixgram":
		addr := filepath.Join(dir, fmt.Sprintf("k%d", k))
		l, err := syslog.GuessListener(network, addr)
		return l, addr, err
	}
	for try := 0; ; try++ {
		p, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, "", err
		}
		addr := p.Addr().String()
		p.Close()
		l, err := syslog.GuessListener(network, addr)
		if err == nil || try > 20 {
			return l, addr, err
		}
	}
}

func (c *C) c12Sockets(g *rand.Rand, f framing, network string, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	l, addr, err := listen(network, dir, i)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	x := newReceiver(c, l, g.IntN(100), f.T, true)
	x.consume(c)
	goods := map[string]*stream{}
	total := 0
	type todo struct {
		chunks [][]byte
		rst    bool
		linger bool
	}
	var todos []todo
	for k := 0; k < 6; k++ {
		if k%2 == 0 {
			tag := fmt.Sprintf("good%d.%d", i, k)
			s, chunks := goodData(g, f, tag)
			goods[tag] = s
			total += len(s.msgs)
			todos = append(todos, todo{chunks: chunks})
		} else {
			data := hostileBytes(g, f)
			todos = append(todos, todo{chunks: cut(data, g.IntN(len(data)+1)), rst: g.IntN(2) == 0})
		}
	}
	done := make(chan struct{}, len(todos))
	for _, td := range todos {
		td := td
		go func() {
			defer func() { done <- struct{}{} }()
			conn, err := net.Dial(network, addr)
			if err != nil {
				return
			}
			for _, ch := range td.chunks {
				if _, err := conn.Write(ch); err != nil {
					break
				}
				time.Sleep(100 * time.Microsecond)
			}
			if tc, ok := conn.(*net.TCPConn); ok && td.rst {
				tc.SetLinger(0)
			}
			conn.Close()
		}()
	}
	for range todos {
		<-done
	}
	seen := func() int {
		k := 0
		for _, res := range x.results() {
			for _, s := range goods {
				for _, m := range s.msgs {
					if m == res.Text {
						k++
					}
				}
			}
		}
		return k
	}
	c.Progress()
	waitFor(15*time.Second, func() bool { return seen() >= total })
	c.judgeGoods(x, goods, f, "over "+network)
	x.R.End()
	<-x.done
	close(x.errs.done)
	c.Eval(true, fmt.Sprint("socket", i), f.Name, network)
	c.Stat("socket_rounds", 1)
}

func (c *C) c12Datagrams(g *rand.Rand, f framing, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	l, addr, err := listen("unixgram", dir, i)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	x := newReceiver(c, l, 4096, f.T, true)
	x.consume(c)
	conn, err := net.DialUnix("unixgram", nil, &net.UnixAddr{Name: addr, Net: "unixgram"})
	if err != nil {
		c.Inconclusive("dial: %v", err)
		x.stop()
		return
	}
	defer conn.Close()
	large := g.IntN(3) == 0
	if large {
		conn.SetWriteBuffer(8 << 20)
	}
	var want []expect
	for k := g.IntN(3); k > 0; k-- {
		// datagrams of sizes around those of a buffer, the last frame without end or not
		m := sizedMsg(g, f, fmt.Sprintf("dg%d-exact%d", i, k), pick(g, 1<<16, 1<<16, 1<<15, 1<<17, 1<<16-500)+pick(g, 0, 0, 0, -1, 1)).Want
		d := f.enc(m)
		open := f.Term >= 0 && g.IntN(2) == 0
		if open {
			d = m
		} else if over := len(d) - len(m); over < len(m) { // the frame has the size
			m = m[:len(m)-over]
			d = f.enc(m)
		}
		if _, err := conn.Write([]byte(d)); err != nil {
			c.Inconclusive("write: %v", err)
			break
		}
		want = append(want, expect{m, open && f.Term != 0})
		waitFor(5*time.Second, func() bool { return x.count() >= len(want) })
		c.Stat("exact_datagrams", 1)
	}
	if large && g.IntN(2) == 0 {
		// a run of datagrams above every limit
		long := sizedMsg(g, f, fmt.Sprintf("dg%d-run", i), 1200000).Want
		big := []byte(f.enc(long))
		for k := 1 + g.IntN(80); k > 0; k-- {
			if _, err := conn.Write(big); err != nil {
				break
			}
			want = append(want, expect{"?", true})
			if waitFor(5*time.Second, func() bool { return x.count() >= len(want) }); x.count() < len(want) {
				break
			}
			if res := x.results()[len(want)-1]; res.Err == nil && res.Text == long { // it need not be refused
				want[len(want)-1] = expect{long, false}
			}
			c.Stat("large_datagrams_run", 1)
		}
	}
	n := 5 + g.IntN(40)
	for k := 0; k < n; k++ {
		m := randMsg(g, f, fmt.Sprintf("dg%d-%d", i, k), pick(g, 200, 2000, 40000)).Want
		d := f.enc(m)
		if large && g.IntN(3) == 0 {
			// a datagram far above 64 KiB: the message or an error, never a part of it.
			// 200 KB are what a socket sends by default
			size := pick(g, 66000, 100000, 200000, 900000, 2<<20, 3<<20)
			big := sizedMsg(g, f, fmt.Sprintf("dg%d-%d-big", i, k), size-g.IntN(1000)).Want
			waitFor(5*time.Second, func() bool { return x.count() >= len(want) })
			if _, err := conn.Write([]byte(f.enc(big))); err == nil {
				c.Stat("large_datagrams", 1)
				want = append(want, expect{big, false})
				if waitFor(5*time.Second, func() bool { return x.count() >= len(want) }) && size > 200000 && x.results()[len(want)-1].Err != nil {
					c.Stat("large_datagrams_refused", 1)
					want[len(want)-1].bad = true
				}
			}
		}
		switch g.IntN(6) {
		case 0: // one malformed message, delimited
			b := malformed(g, f)
			if b == "" && f.Term < 0 {
				b = "x"
			}
			conn.Write([]byte(f.enc(b)))
			want = append(want, expect{b, true})
		case 1: // a datagram that is no frame
			bad := f.clean(malformed(g, f)) + "!"
			if f.Term < 0 {
				// valid frames behind a broken header are no frames
				bad = brokenHeader(g) + strings.Repeat("#", pick(g, 0, 0, g.IntN(2000), g.IntN(30000)))
				for t := pick(g, 0, 1, 50); t > 0 && len(bad) < 50000; t-- {
					bad += d[:min(len(d), 5000)]
				}
			} else {
				bad += strings.Repeat("#", pick(g, 0, 0, g.IntN(2000), g.IntN(60000)))
			}
			if _, err := conn.Write([]byte(bad)); err != nil {
				c.Inconclusive("write: %v", err)
			}
			want = append(want, expect{"?", true})
		case 2: // two messages in one datagram
			m2 := randMsg(g, f, fmt.Sprintf("dg%d-%d-2", i, k), 300).Want
			if len(d) < 60000 {
				conn.Write([]byte(d + f.enc(m2)))
				want = append(want, expect{m, false}, expect{m2, false})
			}
		case 3:
			conn.Write(nil) // an empty datagram is no message
			c.Stat("empty_datagrams", 1)
		}
		if _, err := conn.Write([]byte(d)); err != nil {
			c.Inconclusive("write: %v", err)
			break
		}
		want = append(want, expect{m, false})
		if k%8 == 7 { // keep the socket buffer small
			waitFor(5*time.Second, func() bool { return x.count() >= len(want) })
		}
	}
	waitFor(10*time.Second, func() bool { return x.count() >= len(want) })
	time.Sleep(time.Millisecond)
	res := x.results()
	for k := 0; k < len(want) || k < len(res); k++ {
		if k >= len(res) {
			c.Violate("%s datagrams: %d results for %d frames; the first missing is for %s", f.Name, len(res), len(want), q(want[k].text))
			break
		}
		if k >= len(want) {
			c.Violate("%s datagrams: one more result than frames: %s, %v", f.Name, q(res[k].Text), res[k].Err)
			break
		}
		if want[k].bad != (res[k].Err != nil) || (!want[k].bad && want[k].text != res[k].Text) {
			c.Violate("%s datagrams: result %d is %s, %v; want %s (malformed %v)", f.Name, k, q(res[k].Text), res[k].Err, q(want[k].text), want[k].bad)
			break
		}
	}
	c.Stat("datagram_results", int64(len(res)))
	c.Eval(true, fmt.Sprint("dgram", i), f.Name)
	x.R.End()
	<-x.done
	close(x.errs.done)
}
