package vharness

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// value is anything which must never change: a name and its observable content.
type value struct {
	name string
	show func() string
	was  string
}

// values is a set of values watched together.
type values struct {
	c    *C
	all  []value
	bad  bool
	what string
}

func (v *values) add(name string, show func() string) {
	v.all = append(v.all, value{name, show, show()})
}

// check re-reads every value; op is the last operation.
func (v *values) check(op string) {
	if v.bad {
		return
	}
	for _, x := range v.all {
		if now := x.show(); now != x.was {
			v.bad = true
			v.c.Violate("%s: after %s, %s changed from %s to %s", v.what, op, x.name, q(x.was), q(now))
			return
		}
	}
	v.c.Eval(len(v.all) > 1, v.what, op, len(v.all))
}

func showMsg(m syslog.Message) func() string {
	return func() string {
		b, err := m.Marshal5424()
		if err != nil {
			return "error " + err.Error()
		}
		s := string(b)
		if m.String() != s {
			return "String and Marshal5424 differ"
		}
		// the caller may do what it wants with the encoding
		for i := range b {
			b[i] = '#'
		}
		return s
	}
}

func showList(l sdata.List) func() string {
	return func() string {
		b, err := l.Marshal5424()
		if err != nil {
			return "error " + err.Error()
		}
		s := fmt.Sprint(len(l), " ", string(b))
		for i := range b {
			b[i] = '#'
		}
		return s + showElems(l)
	}
}

// showElems gives each element and its identifier on its own, twice, the first bytes overwritten.
func showElems(l sdata.List) (s string) {
	for _, e := range l {
		for twice := 0; twice < 2; twice++ {
			b, err := e.Marshal5424()
			t, terr := e.SDID().MarshalText()
			if s += fmt.Sprint("\x02", string(b), err, "\x02", string(t), terr); twice == 0 {
				for i := range b {
					b[i] = '#'
				}
				for i := range t {
					t[i] = '#'
				}
			}
		}
	}
	return
}

// showDecoded gives everything a decoded message tells.
func showDecoded(m syslog.MessageImmutable) func() string {
	return func() string {
		var w bytes.Buffer
		n, err := m.WriteTo(&w)
		l := m.StructuredData()
		ls := l.String()
		s := fmt.Sprint(m.String(), "\x01", w.String(), "\x01", n, err, "\x01", int(m.Priority()), "\x01", m.TimeStamp(), "\x01", m.Hostname(),
			"\x01", m.AppName(), "\x01", m.ProcID(), "\x01", m.MsgID(), "\x01", m.Text(), "\x01", len(l), ls, "\x01", m.Writable().String())
		s += showElems(l)
		// the caller may do what it wants with what it got
		for i := range l {
			l[i] = rawSD("[changed]")
		}
		return s
	}
}

// args gives arguments for a variadic call, sometimes with spare capacity.
func sdArgs(g *rand.Rand, n int) []sdata.StructuredData {
	a := make([]sdata.StructuredData, n, n+pick(g, 0, 0, 1, 4, 20))
	for i := range a {
		a[i], _ = randSD(g)
	}
	return a
}

func TestC19(t *testing.T) {
	r := newR(t, "C19", "one evaluation = all values of a tree re-read and compared with what they were when made, after one more operation; distinct = distinct (tree, operation)")
	fs := framings()

	r.Case("messages", func(c *C) {
		c.Parallel(r.N(1200, 40000), func(i int) { c.c19Messages(c.Sub(i), i) })
	})
	r.Case("lists", func(c *C) {
		c.Parallel(r.N(1500, 60000), func(i int) { c.c19Lists(c.Sub(i), i) })
	})
	// every small fan-out: base of a elements, then k derivations of b elements each
	r.Case("fan-out", func(c *C) {
		g := c.Sub(0)
		for a := 0; a <= 20; a++ {
			for b := 0; b <= 10; b++ {
				for steps := 1; steps <= 2; steps++ {
					c.c19Fan(g, a, b, steps)
				}
			}
		}
	})
	r.Case("channels", func(c *C) {
		c.Parallel(r.N(300, 8000), func(i int) { c.c19Channels(c.Sub(i), i) })
	})
	r.Case("decoded", func(c *C) {
		c.Parallel(r.N(1200, 40000), func(i int) { c.c19Decoded(c.Sub(i), i) })
	})
	r.Case("received", func(c *C) {
		for i := 0; i < r.N(240, 8000) && !r.full(); i++ {
			c.c19Received(t, c.Sub(i), fs[i%3], i)
		}
	})
	r.Case("received-watched", func(c *C) {
		c.Parallel(r.N(24, 600), func(i int) { c.c19Watched(c.Sub(i), fs[i%3], i) })
	})
	r.Case("sockets", func(c *C) {
		c.Parallel(r.N(16, 200), func(i int) { c.c19Sockets(c.Sub(i), fs, i) })
	})
	r.Case("concurrent", func(c *C) {
		for i := 0; i < r.N(60, 2500) && !r.full(); i++ {
			c.c19Concurrent(c.Sub(i), i)
		}
	})
}

func (c *C) c19Messages(g *rand.Rand, i int) {
	vs := &values{c: c, what: fmt.Sprint("message tree ", i)}
	type mnode struct {
		m syslog.Message
		s refState
	}
	var nodes []mnode
	add := func(m syslog.Message, s refState, name string) {
		nodes = append(nodes, mnode{m, s})
		vs.add(fmt.Sprintf("message %d (%s)", len(nodes)-1, name), showMsg(m))
	}
	m, s, name := refNew(g)
	add(m, s, name)
	scratch := sdArgs(g, 3)
	for op := 4 + g.IntN(24); op > 0 && !vs.bad; op-- {
		k := g.IntN(len(nodes))
		if g.IntN(3) == 0 {
			k = 0 // wide trees
		}
		n := nodes[k]
		what := ""
		switch g.IntN(8) {
		case 0:
			m, s, name := refNew(g)
			add(m, s, name)
			what = name
		case 1, 2, 3:
			// the caller reuses its slice of arguments for each derivation
			for j := range scratch {
				scratch[j], _ = randSD(g)
			}
			part := scratch[:g.IntN(len(scratch)+1)]
			add(n.m.StructuredData(part...), n.s, fmt.Sprintf("message %d with %d SD elements", k, len(part)))
			what = "StructuredData"
		case 4:
			// decoded, and derived from
			b, err := n.m.Marshal5424()
			if err == nil {
				if d, _, err := syslog.Parse(b, nil, true); err == nil {
					vs.add(fmt.Sprintf("message %d decoded", k), showDecoded(d))
					w := d.Writable()
					add(w, n.s, fmt.Sprintf("message %d decoded and writable", k))
				}
			}
			what = "Parse"
		default:
			m, s, name := refDerive(g, n.m, n.s)
			add(m, s, fmt.Sprintf("message %d.%s", k, name))
			what = name
		}
		vs.check(fmt.Sprintf("%s of message %d", what, k))
	}
	c.Stat("message_values", int64(len(vs.all)))
}

func (c *C) c19Lists(g *rand.Rand, i int) {
	vs := &values{c: c, what: fmt.Sprint("list tree ", i)}
	lists := []sdata.List{sdata.EmptyList()}
	want := [][]string{nil}
	vs.add("EmptyList()", func() string { return showList(sdata.EmptyList())() })
	scratch := make([]sdata.StructuredData, 8, 16)
	raws := make([]string, 8)
	items := map[string]sdata.StructuredData{}
	for op := 4 + g.IntN(40); op > 0 && !vs.bad; op-- {
		k := g.IntN(len(lists))
		if g.IntN(4) == 0 {
			k = 0
		}
		n := pick(g, 0, 1, 1, 1, 2, 3, 8)
		for j := 0; j < n; j++ {
			raws[j] = sdElementRaw(g)
			if w := want[k]; g.IntN(6) == 0 && len(w) > 0 { // one which the list has
				raws[j] = w[g.IntN(len(w))]
			} else if g.IntN(6) == 0 && j > 0 {
				raws[j] = raws[j-1]
			}
			if scratch[j] = items[raws[j]]; scratch[j] == nil {
				scratch[j] = rawSD(raws[j])
				if g.IntN(3) == 0 { // of a registered name
					d := idSD{id: pick(g, "timeQuality", "origin", "meta"), iana: true, A: sdValue(g, 20)}
					raws[j], scratch[j] = d.want(), sdata.GenericSD(d)
				}
				items[raws[j]] = scratch[j]
			}
		}
		l := lists[k].Add(scratch[:n]...)
		w := append(append([]string(nil), want[k]...), raws[:n]...)
		lists, want = append(lists, l), append(want, w)
		vs.add(fmt.Sprintf("list %d = list %d + %d", len(lists)-1, k, n), showList(l))
		if g.IntN(3) == 0 {
			m := syslog.EmptyMessage().StructuredData(l...)
			vs.add(fmt.Sprintf("message of list %d", len(lists)-1), showMsg(m))
		}
		text := strings.Join(w, "")
		if text == "" {
			text = "-"
		}
		if l.String() != text {
			c.Violate("list %d + %d elements encodes as %s, want %s", k, n, q(l.String()), q(text))
		}
		vs.check(fmt.Sprintf("Add of %d elements to list %d", n, k))
	}
	c.Stat("list_values", int64(len(vs.all)))
}

func (c *C) c19Fan(g *rand.Rand, a, b, steps int) {
	vs := &values{c: c, what: fmt.Sprintf("fan-out of a base of %d elements added in %d steps, %d elements each", a, steps, b)}
	base := sdata.EmptyList()
	msg := syslog.EmptyMessage()
	for s, left := 0, a; s < steps; s++ {
		n := left
		if s < steps-1 {
			n = left / 2
		}
		left -= n
		args := sdArgs(g, n)
		base, msg = base.Add(args...), msg.StructuredData(args...)
	}
	vs.add("base list", showList(base))
	vs.add("base message", showMsg(msg))
	for k := 0; k < 4; k++ {
		args := sdArgs(g, b)
		vs.add(fmt.Sprintf("list %d", k), showList(base.Add(args...)))
		vs.add(fmt.Sprintf("message %d", k), showMsg(msg.StructuredData(args...)))
		vs.check(fmt.Sprintf("derivation %d", k))
	}
}

func (c *C) c19Channels(g *rand.Rand, i int) {
	rg := newRig()
	stamp := time.Unix(int64(1e9+i), 0).UTC()
	var want []string
	m := hostModel()
	m.fac, m.min, m.app = 8*g.IntN(24), g.IntN(8), pick(g, "app", "-", "a")
	s, err := syslog.New(rg.snd, syslog.Priority(m.fac|m.min), m.app)
	if err != nil {
		c.Violate("New: %v", err)
		return
	}
	type sys struct {
		s *syslog.Syslog
		m chanModel
	}
	syss := []sys{{s, m}}
	var nodes []node
	for sev := 0; sev < 8; sev++ {
		nodes = append(nodes, node{s.Channel(syslog.Priority(sev)), m, sev, fmt.Sprintf("Channel(%d)", sev)})
	}
	n := 0
	for op := 4 + g.IntN(20); op > 0; op-- {
		if g.IntN(4) == 0 {
			p := syss[g.IntN(len(syss))]
			v := pick(g, "sub", "x", "", "a/b")
			sub := sys{p.s.SubSyslog(v), p.m.appName(v)}
			syss = append(syss, sub)
			sev := g.IntN(8)
			nodes = append(nodes, node{sub.s.Channel(syslog.Priority(sev)), sub.m, sev, fmt.Sprintf("SubSyslog(%q).Channel(%d)", v, sev)})
		} else {
			nodes = append(nodes, nodes[g.IntN(len(nodes))].derive(g))
		}
		// every channel still logs what it did
		for _, nd := range nodes {
			n++
			text := fmt.Sprintf("t%d", n)
			nd.ch.Log(text)
			if nd.enabled() {
				want = append(want, nd.m.frameText(nd, stamp, text))
			}
		}
		// and every syslog gives the same channels
		for _, y := range syss {
			sev := g.IntN(8)
			n++
			text := fmt.Sprintf("t%d", n)
			y.s.Channel(syslog.Priority(sev)).Log(text)
			nd := node{nil, y.m, sev, ""}
			if nd.enabled() {
				want = append(want, y.m.frameText(nd, stamp, text))
			}
		}
		c.Eval(len(nodes) > 1, i, op)
	}
	got := rg.end(c)
	for k := range got { // the clock is not judged here
		got[k] = restamp(got[k], refStamp(stamp))
	}
	c.sameFrames(fmt.Sprintf("channel tree %d", i), got, want)
	c.Stat("channels", int64(len(nodes)))
}

// restamp replaces the timestamp of an encoded message.
func restamp(m, ts string) string {
	i := strings.IndexByte(m, ' ')
	if i < 0 {
		return m
	}
	j := strings.IndexByte(m[i+1:], ' ')
	if j < 0 {
		return m
	}
	return m[:i+1] + ts + m[i+1+j:]
}

func (c *C) c19Decoded(g *rand.Rand, i int) {
	vs := &values{c: c, what: fmt.Sprint("decoded tree ", i)}
	f := framings()[g.IntN(3)]
	s := randStream(g, f, fmt.Sprint("d", i), 2+g.IntN(6), pick(g, 20, 500))
	data := append([]byte(nil), s.data...)
	var ds []syslog.MessageImmutable
	for k := range s.msgs {
		d, rest, err := syslog.Parse(data, f.T, false)
		if err != nil {
			c.Violate("%s: message %d of the stream: %v", vs.what, k, err)
			return
		}
		if d.String() != s.msgs[k] {
			c.Violate("%s: message %d decodes as %s, want %s", vs.what, k, q(d.String()), q(s.msgs[k]))
			return
		}
		ds = append(ds, d)
		vs.add(fmt.Sprintf("decoded message %d", k), showDecoded(d))
		vs.check(fmt.Sprintf("Parse of message %d", k))
		data = rest
	}
	for op := 2 + g.IntN(8); op > 0 && !vs.bad; op-- {
		k := g.IntN(len(ds))
		m := ds[k].Writable()
		for j := 1 + g.IntN(4); j > 0; j-- {
			m, _, _ = refDerive(g, m, refState{})
		}
		vs.add(fmt.Sprintf("derived from decoded message %d", k), showMsg(m))
		l := ds[k].StructuredData()
		vs.add(fmt.Sprintf("list of decoded message %d", k), showList(l))
		vs.add(fmt.Sprintf("list of decoded message %d + 2", k), showList(l.Add(sdArgs(g, 2)...)))
		vs.add(fmt.Sprintf("list of decoded message %d + 1", k), showList(l.Add(sdArgs(g, 1)...)))
		// framing the encoding again writes into nobody
		for _, f := range framings() {
			b := []byte(ds[k].String())
			f.T.Encode(b)
		}
		vs.check(fmt.Sprintf("derivations of message %d", k))
	}
	if string(data) != "" {
		c.Violate("%s: %d bytes left", vs.what, len(data))
	}
	if !bytes.Equal(s.data, []byte(strings.Join(wires(f, s.msgs), ""))) {
		c.Violate("%s: decoding changed its input", vs.what)
	}
	c.Stat("decoded_values", int64(len(vs.all)))
}

func wires(f framing, msgs []string) (out []string) {
	for _, m := range msgs {
		out = append(out, f.enc(m))
	}
	return
}

// c19Received keeps every message of a receiver and reads them again after each later event.
func (c *C) c19Received(t *testing.T, g *rand.Rand, f framing, i int) {
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			vs := &values{c: c, what: fmt.Sprintf("%s framing, receiver %d", f.Name, i)}
			l := newListener()
			var conns []*scriptConn
			known := map[string]bool{}
			for k := 1 + g.IntN(3); k > 0; k-- {
				s := randStream(g, f, fmt.Sprintf("r%d.%d", i, k), 3+g.IntN(12), pick(g, 20, 600, 600, 9000, 70000))
				var at []int
				aligned := g.IntN(3) == 0 // whole frames in each chunk, up to a buffer full of them
				if aligned {
					ms := s.msgs
					for j := range ms {
						if g.IntN(3) > 0 {
							ms[j] = sizedMsg(g, f, fmt.Sprintf("r%d.%d-%d", i, k, j), pick(g, 3000, 20000, 40000, 65000, 70000)-g.IntN(1000)).Want
						}
					}
					s = mkStream(f, ms...)
				}
				for j := g.IntN(20); j > 0; j-- {
					if aligned {
						at = append(at, s.ends[g.IntN(len(s.ends))])
					} else {
						at = append(at, g.IntN(len(s.data)+1))
					}
				}
				sort.Ints(at)
				sc := newScript(pick(g, endEOF, endEOFData, endIdle, endErr), cut(s.data, at...)...)
				sc.gates = map[int]chan struct{}{}
				for j := range sc.chunks {
					sc.gates[j] = make(chan struct{})
				}
				for _, m := range s.msgs {
					known[m] = true
				}
				conns = append(conns, sc)
				l.add(sc)
			}
			x := newReceiver(c, l, pick(g, 0, 0, 1, 10), f.T, true)
			x.consume(c)
			seen := 0
			look := func(op string) {
				synctest.Wait()
				res := x.results()
				for ; seen < len(res); seen++ {
					r := res[seen]
					if r.Err != nil || !known[r.Text] {
						c.Violate("%s: %s, %v is no message of the streams", vs.what, q(r.Text), r.Err)
						vs.bad = true
						return
					}
					vs.add(fmt.Sprintf("received message %d", seen), showDecoded(r.M))
					if g.IntN(4) == 0 {
						m, _, _ := refDerive(g, r.M.Writable(), refState{})
						vs.add(fmt.Sprintf("derived from received message %d", seen), showMsg(m))
					}
				}
				vs.check(op)
			}
			for k := 0; ; k++ {
				more := false
				for n, sc := range conns {
					if k < len(sc.chunks) {
						close(sc.gates[k])
						more = true
						look(fmt.Sprintf("chunk %d of connection %d", k, n))
					}
				}
				if !more {
					break
				}
			}
			x.stop()
			look("End")
			time.Sleep(3 * time.Second)
			look("the close of the connections")
			runtime.GC()
			look("a garbage collection")
			if !vs.bad && seen != len(known) {
				c.Violate("%s: %d of %d messages received", vs.what, seen, len(known))
			}
			c.Stat("received_values", int64(len(vs.all)))
		})
	})
}

// c19Watched re-reads received messages on other goroutines while the receiver goes on.
func (c *C) c19Watched(g *rand.Rand, f framing, i int) {
	l := newListener()
	total := 0
	known := map[string]bool{}
	for k := 0; k < 3; k++ {
		s := randStream(g, f, fmt.Sprintf("w%d.%d", i, k), 150, pick(g, 50, 300, 3000))
		var at []int
		for j := 200; j > 0; j-- {
			at = append(at, g.IntN(len(s.data)+1))
		}
		sort.Ints(at)
		sc := newScript(endEOF, cut(s.data, at...)...)
		pg := rand.New(rand.NewPCG(uint64(i), uint64(k)))
		sc.pause = func(int) { jitter(pg) }
		l.add(sc)
		total += len(s.msgs)
		for _, m := range s.msgs {
			known[m] = true
		}
	}
	x := newReceiver(c, l, pick(g, 0, 1, 5, 40), f.T, true)
	type kept struct {
		m    syslog.MessageImmutable
		was  string
		full string
	}
	var mu sync.Mutex
	var all []kept
	var stop, bad atomic.Bool
	go func() {
		defer close(x.done)
		c.Guard(func() {
			for {
				m, err, ok := x.R.Receive()
				if !ok {
					return
				}
				s := m.String()
				if err != nil || !known[s] {
					if !bad.Swap(true) {
						c.Violate("%s framing: received %s, %v, no message of the streams", f.Name, q(s), err)
					}
					continue
				}
				k := kept{m, s, showDecoded(m)()}
				mu.Lock()
				all = append(all, k)
				mu.Unlock()
			}
		})
	}()
	var wg sync.WaitGroup
	for w := 0; w < 2; w++ {
		wg.Add(1)
		wg2 := rand.New(rand.NewPCG(uint64(i), 77+uint64(w)))
		go func() {
			defer wg.Done()
			c.Guard(func() {
				for !stop.Load() && !bad.Load() {
					mu.Lock()
					n := len(all)
					mu.Unlock()
					if n == 0 {
						runtime.Gosched()
						continue
					}
					mu.Lock()
					k := all[wg2.IntN(n)]
					mu.Unlock()
					if wg2.IntN(2) == 0 {
						if k.m.String() != k.was && !bad.Swap(true) {
							c.Violate("%s framing: a received message changed from %s to %s", f.Name, q(k.was), q(k.m.String()))
						}
					} else if now := showDecoded(k.m)(); now != k.full && !bad.Swap(true) {
						c.Violate("%s framing: what a received message tells changed from %s to %s", f.Name, q(k.full), q(now))
					}
				}
			})
		}()
	}
	waitFor(30*time.Second, func() bool {
		mu.Lock()
		defer mu.Unlock()
		return len(all) == total || bad.Load()
	})
	x.stop()
	stop.Store(true)
	wg.Wait()
	for _, k := range all {
		if now := showDecoded(k.m)(); now != k.full && !bad.Swap(true) {
			c.Violate("%s framing: after End, a received message changed from %s to %s", f.Name, q(k.full), q(now))
		}
	}
	if len(all) != total && !bad.Load() {
		c.Violate("%s framing: %d of %d messages received", f.Name, len(all), total)
	}
	c.Eval(true, "watched", i)
	c.Stat("watched_values", int64(len(all)))
}

// c19Sockets keeps messages received from real sockets.
func (c *C) c19Sockets(g *rand.Rand, fs []framing, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	network := []string{"unix", "tcp", "unixgram", "unixgram"}[i%4]
	f := fs[(i/4)%3]
	l, addr, err := listen(network, dir, i)
	if err != nil {
		c.Inconclusive("listen %s: %v", network, err)
		return
	}
	x := newReceiver(c, l, 50, f.T, true)
	x.consume(c)
	conn, err := net.Dial(network, addr)
	if err != nil {
		c.Inconclusive("dial %s: %v", network, err)
		x.stop()
		return
	}
	s := randStream(g, f, fmt.Sprint("k", i), 300, pick(g, 100, 2000))
	known := map[string]bool{}
	for _, m := range s.msgs {
		known[m] = true
		if _, err := conn.Write([]byte(f.enc(m))); err != nil {
			c.Inconclusive("write %s: %v", network, err)
			break
		}
	}
	if !waitFor(10*time.Second, func() bool { return x.count() >= len(s.msgs) }) {
		c.Violate("%s over %s: %d of %d messages received", f.Name, network, x.count(), len(s.msgs))
	}
	before := x.results()
	shown := make([]string, len(before))
	for k, r := range before {
		if r.Err == nil {
			shown[k] = showDecoded(r.M)()
		}
	}
	conn.Close()
	for k := 0; k < 5; k++ { // later traffic of others
		c2, err := net.Dial(network, addr)
		if err != nil {
			break
		}
		c2.Write(randStream(g, f, fmt.Sprint("later", i), 10, 1000).data)
		c2.Close()
	}
	time.Sleep(5 * time.Millisecond)
	x.stop()
	runtime.GC()
	for k, r := range before {
		if r.Err != nil || !known[r.Text] {
			c.Violate("%s over %s: result %d is %s, %v", f.Name, network, k, q(r.Text), r.Err)
			break
		}
		if r.M.String() != r.Text || showDecoded(r.M)() != shown[k] {
			c.Violate("%s over %s: message %d changed from %s to %s", f.Name, network, k, q(r.Text), q(r.M.String()))
			break
		}
	}
	c.Eval(true, network, f.Name, i)
	c.Stat("socket_values", int64(len(before)))
}

// c19Concurrent derives from shared values on many goroutines; each checks its own results.
func (c *C) c19Concurrent(g *rand.Rand, i int) {
	base, bs, _ := refNew(g)
	base = base.StructuredData(sdArgs(g, g.IntN(6))...)
	list := sdata.EmptyList().Add(sdArgs(g, 1+g.IntN(6))...)
	dmsg := randMsg(g, framings()[0], fmt.Sprint("cc", i), 300).Want
	dec, _, err := syslog.Parse([]byte(dmsg), nil, true)
	if err != nil {
		c.Violate("Parse: %v", err)
		return
	}
	baseWas, listWas, decWas := showMsg(base)(), showList(list)(), showDecoded(dec)()
	listText := list.String()
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		pg := rand.New(rand.NewPCG(uint64(i), uint64(w)+1000))
		go func() {
			defer wg.Done()
			c.Guard(func() {
				for k := 0; k < 25; k++ {
					raw := fmt.Sprintf(`[w%d k="%d"]`, w, k)
					l := list.Add(rawSD(raw))
					m := base.StructuredData(rawSD(raw), rawSD(raw))
					d := dec.Writable().StructuredData(rawSD(raw))
					dl := dec.StructuredData().Add(rawSD(raw))
					m2, _, _ := refDerive(pg, m, bs)
					ls, ms, dd, d2, dls := l.String(), m.String(), d.String(), m2.String(), dl.String()
					jitter(pg)
					if ls != listText+raw || l.String() != ls {
						c.Violate("concurrent derivation of a list gives %s then %s, want %s", q(ls), q(l.String()), q(listText+raw))
						return
					}
					if m.String() != ms || strings.Count(ms, raw) != 2 {
						c.Violate("concurrent derivation of a message gives %s then %s", q(ms), q(m.String()))
						return
					}
					if d.String() != dd || strings.Count(dd, raw) != 1 || dl.String() != dls || !strings.HasSuffix(dls, raw) {
						c.Violate("concurrent derivation of a decoded message gives %s then %s", q(dd), q(d.String()))
						return
					}
					if m2.String() != d2 {
						c.Violate("concurrent derivation of a derived message gives %s then %s", q(d2), q(m2.String()))
						return
					}
				}
			})
		}()
	}
	wg.Wait()
	if now := showMsg(base)(); now != baseWas {
		c.Violate("the shared message changed from %s to %s", q(baseWas), q(now))
	}
	if now := showList(list)(); now != listWas {
		c.Violate("the shared list changed from %s to %s", q(listWas), q(now))
	}
	if now := showDecoded(dec)(); now != decWas {
		c.Violate("the shared decoded message changed from %s to %s", q(decWas), q(now))
	}
	c.Eval(true, "concurrent", i)
	c.Stat("concurrent_derivations", 8*25*5)
}
