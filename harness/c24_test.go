package vharness

// C24: what was taken is given back, and work stays in proportion to the data.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// openFiles gives the descriptors of this process and what they are.
func openFiles() map[string]string {
	m := map[string]string{}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			m[e.Name()] = l
		}
	}
	return m
}

// givesBack runs a scenario again and again, and compares descriptors and goroutines before and after.
// The collector is off meanwhile: what only a finalizer closes is not given back.
func (c *C) givesBack(what string, n int, fn func(k int)) {
	if c.full() {
		return
	}
	runtime.GC()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	fn(0) // what is made once only
	settle := func() (map[string]string, int, string) {
		var f map[string]string
		var g int
		var st string
		for i := 0; i < 200; i++ {
			f2 := openFiles()
			g2, st2 := census()
			if i > 0 && len(f2) >= len(f) && g2 >= g && i > 3 {
				return f2, g2, st2
			}
			f, g, st = f2, g2, st2
			time.Sleep(5 * time.Millisecond)
		}
		return f, g, st
	}
	f0, g0, _ := settle()
	for k := 1; k <= n && !c.full(); k++ {
		c.Guard(func() { fn(k) })
		c.Eval(true, what, k)
	}
	// closing may take its second (the delay a peer has to finish) and a loaded machine more
	var f1 map[string]string
	var g1 int
	var st string
	for limit := time.Now().Add(25 * time.Second); ; {
		f1, g1, st = settle()
		if (len(f1) <= len(f0)+n/8 && g1 <= g0) || time.Now().After(limit) {
			break
		}
		c.Progress()
		time.Sleep(20 * time.Millisecond)
	}
	c.Stat("rounds", int64(n))
	if len(f1) > len(f0)+n/8 {
		var left []string
		for k, v := range f1 {
			if f0[k] == "" && len(left) < 6 {
				left = append(left, v)
			}
		}
		c.Violate("%s: %d more descriptors are open after %d times, for instance %v", what, len(f1)-len(f0), n, left)
	}
	if g1 > g0 {
		if len(st) > 3000 {
			st = st[:3000]
		}
		c.Violate("%s: %d more goroutines of the library run after %d times\n%s", what, g1-g0, n, st)
	}
	c.Sample("gives back", "%s: %d times, %d then %d descriptors, %d then %d goroutines", what, n, len(f0), len(f1), g0, g1)
}

func liveHeap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// keepsNothing runs a step many times and compares the live memory at its quarter and at its end.
func (c *C) keepsNothing(what string, steps int, limit int64, step func(k int)) {
	if c.full() {
		return
	}
	var base uint64
	for k := 0; k < steps && !c.full(); k++ {
		step(k)
		if k == steps/4 {
			base = liveHeap()
		}
		if k%1000 == 0 {
			c.Progress()
		}
	}
	end := liveHeap()
	grown := int64(end) - int64(base)
	c.Eval(true, what)
	c.StatMax("growth_of_live_memory_max", grown)
	if grown > limit {
		c.Violate("%s: %d octets more are kept after %d steps than after %d (limit %d)", what, grown, steps, steps/4, limit)
	}
	c.Sample("keeps", "%s: %d steps, %d octets", what, steps, grown)
}

// costs runs an operation on data of a length, and bounds what it allocates and its time. Both bounds are
// far above a linear cost, and far below a quadratic one.
func (c *C) costs(what string, length int, op func()) {
	if c.full() {
		return
	}
	c.costsAtMost(what, length, 3000, op)
}

func (c *C) costsAtMost(what string, length int, perOctet uint64, op func()) {
	if c.full() {
		return
	}
	const extra, maxTime = 64 << 20, 30 * time.Second
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	before := m.TotalAlloc
	start := time.Now()
	if c.Guard(op) {
		return
	}
	took := time.Since(start)
	runtime.ReadMemStats(&m)
	used := m.TotalAlloc - before
	c.Eval(true, what, length)
	c.StatMax("octets_allocated_per_octet_max", int64(used)/int64(max(length, 1)))
	c.StatMax("slowest_operation_ms", took.Milliseconds())
	if used > uint64(length)*perOctet+extra {
		c.Violate("%s: %d octets of data make it allocate %d octets", what, length, used)
	}
	if took > maxTime {
		c.Violate("%s: %d octets of data take it %v", what, length, took)
	}
}

type repeatSD struct {
	Name string
	List []string
	Map  map[string]string
}

func (repeatSD) String() string { return "repeat@32473" }
func (repeatSD) IsIANA() bool   { return false }
func (repeatSD) GetPEN() uint64 { return 32473 }

func TestC24(t *testing.T) {
	r := newR(t, "C24", "one evaluation = one scenario run once more with the descriptors and goroutines counted around all its runs, one series of steps with the live memory compared, or one operation on hostile data with its allocations and time bounded; distinct by scenario and number, or operation and size")

	r.Case("cost-decode", func(c *C) {
		head := "<13>1 2020-01-01T00:00:00Z h a p m "
		inputs := map[string]func(n int) string{
			"parameters":         func(n int) string { return head + "[a" + strings.Repeat(` b="c"`, n/6) + "] x" },
			"elements":           func(n int) string { return head + strings.Repeat("[a]", n/3) },
			"full elements":      func(n int) string { return head + strings.Repeat(`[a b="c"]`, n/9) },
			"escapes":            func(n int) string { return head + `[a b="` + strings.Repeat(`\]`, n/2) + `"]` },
			"one value":          func(n int) string { return head + `[a b="` + strings.Repeat("v", n) + `"] x` },
			"one name":           func(n int) string { return head + `[` + strings.Repeat("v", n) + `]` },
			"one parameter name": func(n int) string { return head + `[a ` + strings.Repeat("v", n) + `="x"]` },
			"spaces":             func(n int) string { return head + `[a` + strings.Repeat(" ", n) + `b="c"]` },
			"open brackets":      func(n int) string { return head + strings.Repeat("[", n) },
			"unfinished":         func(n int) string { return head + `[a b="` + strings.Repeat("[", n) },
			"quotes":             func(n int) string { return head + `[a b=` + strings.Repeat(`"`, n) },
			"header":             func(n int) string { return "<13>1 - " + strings.Repeat("h", n) + " a p m - x" },
			"time":               func(n int) string { return "<13>1 2020-01-01T00:00:00." + strings.Repeat("1", n) + "Z h a p m - x" },
			"digits":             func(n int) string { return strings.Repeat("1", n) },
			"spaces only":        func(n int) string { return strings.Repeat(" ", n) },
			"text":               func(n int) string { return head + "- " + strings.Repeat("text ", n/5) },
			"blank text":         func(n int) string { return head + "- " + strings.Repeat(" ", n) },
			"blanks and text":    func(n int) string { return head + "- " + strings.Repeat("\u3000", n/3) + "x" },
			"timeQuality":        func(n int) string { return head + `[timeQuality` + strings.Repeat(` tzKnown="1"`, n/12) + `]` },
			"accuracy": func(n int) string {
				return head + `[timeQuality tzKnown="1" isSynced="1" syncAccuracy="` + strings.Repeat("0", n) + `1"]`
			},
			"timeQualities": func(n int) string { return head + strings.Repeat(`[timeQuality tzKnown="1"]`, n/25) },
		}
		for name, mk := range inputs {
			for _, n := range []int{1 << 17, 1 << 21} {
				in := []byte(mk(n))
				c.costs("decoding: "+name, len(in), func() {
					for _, tr := range []syslog.Transport{nil, syslog.TransportLFEnded, syslog.TransportZeroEnded} {
						m, _, err := syslog.Parse(in, tr, true)
						if err != nil || m.String() == "" {
							if err != nil {
								_ = err.Error()
							}
							continue
						}
						l := m.StructuredData()
						b, _ := l.Marshal5424()
						_ = b
						w := m.Writable()
						w.Marshal5424()
						_ = w.String()
						_ = m.Hostname() + m.Text()
						m.TimeStamp()
						w.Msg(m.Text()).StructuredData(l...).Marshal5424()
					}
				})
				if i := bytes.IndexByte(in, '['); i >= 0 {
					c.costs("decoding of an element: "+name, len(in), func() {
						for _, b := range [][]byte{in[i:], bytes.TrimSuffix(in[i:], []byte(" x"))} {
							if sd, ok := sdata.Parse(b); ok && sd != nil {
								sd.Marshal5424()
							}
							timequality.TQ.Found(b)
						}
					})
				}
				c.costs("priority: "+name, len(in), func() {
					var p syslog.Priority
					p.Set(string(in))
					p.Unmarshal5424(in)
				})
			}
		}
	})
	r.Case("cost-encode", func(c *C) {
		for _, n := range []int{1 << 14, 1 << 18} {
			list := make([]string, n)
			mp := map[string]string{}
			raw := map[string]string{}
			for i := range list {
				list[i] = "v"
				mp["k"+strconv.Itoa(i)] = "v"
			}
			raw["k"] = strings.Repeat(`"]\`, n)
			dy := dynSD{}
			for k, v := range mp {
				dy[k] = v
			}
			m := syslog.CreateWholeMessage(13, time.Unix(0, 0), "h", "a", "p", "m", "t")
			for what, v := range map[string]sdata.SDIDLight{
				"a list":           repeatSD{Name: "x", List: list},
				"a map":            dy,
				"values to escape": dynSD(raw),
			} {
				c.costs("encoding: "+what, n*8, func() {
					b, err := m.StructuredData(sdata.GenericSD(v)).Marshal5424()
					if err == nil && len(b) < n {
						c.Violate("encoding of %s of %d gives %d octets", what, n, len(b))
					}
				})
			}
			var els []sdata.StructuredData
			for i := 0; i < n; i++ {
				els = append(els, rawSD("[a]"))
			}
			c.costs("encoding: elements", n*8, func() { m.StructuredData(els...).Marshal5424() })
			c.costs("list", n*8, func() { _ = sdata.EmptyList().Add(els...).Add(els...).String() })
			long := strings.Repeat("x\n ", n)
			c.costs("encoding: fields", n*8, func() {
				_ = m.Host(long).AppName(long).ProcID(long).MsgID(long).Msg(long).String()
				_ = syslog.CreateMessage(long, 13, long).String()
			})
			c.costs("framing", n*8, func() {
				for _, f := range framings() {
					b := f.T.Encode([]byte(long))
					f.T.PrefixStrip(b, false)
					f.T.SuffixStrip(b, false)
				}
			})
		}
	})
	r.Case("cost-queue", func(c *C) {
		// very many small messages at once, through a sender and a receiver
		for _, f := range framings() {
			n := r.N(150000, 1000000)
			w := &countConn{}
			snd, ch := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) { return w, nil }), f.T, make(chan time.Time))
			l := drainErrs(ch)
			m := syslog.CreateWholeMessage(13, time.Unix(0, 0), "h", "a", "p", "m", "t")
			enc := f.enc(m.String())
			c.costsAtMost("queue of a sender, "+f.Name, n*20, 300, func() {
				for i := 0; i < n; i++ {
					snd.Send(m)
				}
				snd.End()
			})
			<-l.done
			if w.n != int64(n*len(enc)) {
				c.Violate("%s: %d messages of %d octets sent, %d octets written", f.Name, n, len(enc), w.n)
			}
			ls := newListener()
			x, rch := syslog.NewReceiver(ls, 0, f.T)
			stop := make(chan struct{})
			go func() {
				for {
					select {
					case <-rch:
					case <-stop:
						return
					}
				}
			}()
			data := []byte(strings.Repeat(enc, n))
			sc := newScript(endEOF)
			for len(data) > 0 {
				k := min(len(data), 60000)
				sc.chunks = append(sc.chunks, data[:k])
				data = data[k:]
			}
			c.costsAtMost("queue of a receiver, "+f.Name, n*20, 300, func() {
				ls.add(sc)
				for i := 0; i < n; i++ {
					if _, err, ok := x.Receive(); err != nil || !ok {
						c.Violate("%s: result %d of %d: %v, %v", f.Name, i, n, err, ok)
						return
					}
					if i%10000 == 0 {
						c.Progress()
					}
				}
			})
			x.End()
			close(stop)
		}
	})
	r.Case("cost-large-frames", func(c *C) {
		// frames near the limit, in small reads
		for _, f := range framings() {
			for _, step := range []int{6000, 65536} {
				m := mkMsg("x", 13, time.Unix(0, 0), strings.Repeat("v", 1<<23)).Want
				ls := newListener()
				x := newReceiver(c, ls, 0, f.T, true)
				data := []byte(strings.Repeat(f.enc(m), 3))
				sc := newScript(endEOF)
				for d := data; len(d) > 0; {
					k := min(len(d), step)
					sc.chunks = append(sc.chunks, d[:k])
					d = d[k:]
				}
				c.costsAtMost("receiver of large frames, "+f.Name, len(data), 40, func() {
					ls.add(sc)
					for i := 0; i < 3; i++ {
						got, err, ok := x.R.Receive()
						if err != nil || !ok || got.String() != m {
							c.Violate("%s: result %d: %v, %v", f.Name, i, err, ok)
							return
						}
					}
				})
				x.consume(c)
				x.stop()
			}
		}
	})
	r.Case("gives-back-senders", func(c *C) { c.c24Senders(r.N(40, 400)) })
	r.Case("gives-back-connectors", func(c *C) { c.c24Connectors(r.N(40, 400)) })
	r.Case("gives-back-listeners", func(c *C) { c.c24Listeners(r.N(40, 400)) })
	r.Case("gives-back-receivers", func(c *C) { c.c24Receivers(r.N(24, 200)) })
	r.Case("keeps-messages", func(c *C) { c.c24Messages(r.N(1, 4)) })
	r.Case("keeps-values", func(c *C) { c.c24Values(r.N(1, 5)) })
}

// countConn takes everything and keeps nothing.
type countConn struct {
	mu sync.Mutex
	n  int64
}

func (w *countConn) Write(b []byte) (int, error) {
	w.mu.Lock()
	w.n += int64(len(b))
	w.mu.Unlock()
	return len(b), nil
}
func (w *countConn) Close() error { return nil }
func (w *countConn) count() int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.n
}

func (c *C) c24Senders(n int) {
	m := syslog.EmptyMessage().Msg("x")
	mem := func(fail func(k int) error) (*sink, syslog.Connector) { s := &sink{onConnect: fail}; return s, s }
	c.givesBack("sender never used", n, func(int) {
		_, s := mem(nil)
		snd, _ := syslog.NewSender(s, syslog.TransportLFEnded, make(chan time.Time))
		snd.End()
	})
	c.givesBack("sender with messages", n, func(int) {
		_, s := mem(nil)
		snd, _ := syslog.NewSender(s, syslog.TransportLFEnded, make(chan time.Time))
		snd.Send(m)
		snd.Send(m)
		snd.End()
	})
	c.givesBack("sender with failing connections and an unread error channel", n, func(k int) {
		s, sc := mem(func(k int) error {
			if k < 5 {
				return errSink
			}
			return nil
		})
		s.onWrite = func(w *sinkConn, p []byte) (int, error) {
			if w.idx < 3 {
				return len(p) / 2, errSink
			}
			return len(p), nil
		}
		tk := make(manualTicker)
		snd, _ := syslog.NewSender(sc, syslog.TransportLFEnded, (<-chan time.Time)(tk))
		snd.Send(m)
		for i := 0; i < 4; i++ {
			tk.tick(nil)
		}
		snd.End()
		s.mu.Lock()
		defer s.mu.Unlock()
		for i, w := range s.conns {
			if w.closed == 0 {
				c.Violate("connection %d of %d of a sender is never closed", i, len(s.conns))
			}
		}
	})
	dir := scratchDir()
	defer os.RemoveAll(dir)
	for _, network := range []string{"tcp", "unix", "unixgram"} {
		for _, mode := range []string{"healthy", "reset", "unused", "late"} {
			if network == "unixgram" && mode == "reset" {
				continue
			}
			c.givesBack("Dial("+network+"), "+mode, n/2, func(k int) {
				sv, err := newServer(network, dir)
				if err != nil {
					c.Inconclusive("server: %v", err)
					return
				}
				if mode == "late" {
					sv.close() // nobody listens when the first message is sent
				}
				snd, ch, err := (syslog.Dialer{FlushDelay: 2 * time.Millisecond}).Dial(network, sv.addr, nil)
				if err != nil {
					c.Violate("Dial(%s): %v", network, err)
					sv.close()
					return
				}
				l := drainErrs(ch)
				switch mode {
				case "healthy":
					for i := 0; i < 3; i++ {
						snd.Send(m)
					}
				case "reset":
					sv.reset(2)
					for i := 0; i < 400 && sv.resets() < 2; i++ {
						snd.Send(m)
						time.Sleep(time.Millisecond)
					}
				case "late":
					snd.Send(m)
					for i := 0; i < 2000 && l.count() == 0; i++ {
						time.Sleep(time.Millisecond)
					}
					if err := sv.listen(); err != nil {
						// the address is taken meanwhile: the sender never ends
						c.Inconclusive("server: %v", err)
						return
					}
				}
				snd.End()
				<-l.done
				sv.close()
			})
		}
	}
}

// server is a plain destination which closes all it accepted.
type server struct {
	network, addr string
	mu            sync.Mutex
	l             io.Closer
	wg            sync.WaitGroup
	conns         []net.Conn
	toReset       int
	done          int
}

func newServer(network, dir string) (*server, error) {
	s := &server{network: network}
	switch network {
	case "tcp":
		s.addr = "127.0.0.1:0"
	default:
		s.addr = filepath.Join(dir, "srv")
	}
	return s, s.listen()
}

func (s *server) listen() error {
	if s.network == "unixgram" {
		os.Remove(s.addr)
		l, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: s.addr, Net: "unixgram"})
		if err != nil {
			return err
		}
		s.l = l
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			b := make([]byte, 1<<16)
			for {
				if _, err := l.Read(b); err != nil {
					return
				}
			}
		}()
		return nil
	}
	if s.network == "unix" {
		os.Remove(s.addr)
	}
	l, err := net.Listen(s.network, s.addr)
	if err != nil {
		return err
	}
	s.l = l
	s.addr = l.Addr().String()
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns = append(s.conns, conn)
			kill := s.toReset > 0
			if kill {
				s.toReset--
			}
			s.mu.Unlock()
			if kill {
				conn.Read(make([]byte, 1))
				if t, ok := conn.(*net.TCPConn); ok {
					t.SetLinger(0)
				}
				conn.Close()
				s.mu.Lock()
				s.done++
				s.mu.Unlock()
				continue
			}
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				io.Copy(io.Discard, conn)
				conn.Close()
			}()
		}
	}()
	return nil
}

func (s *server) reset(n int) { s.mu.Lock(); s.toReset = n; s.mu.Unlock() }
func (s *server) resets() int { s.mu.Lock(); defer s.mu.Unlock(); return s.done }

// drop closes the accepted connections too.
func (s *server) close() {
	s.l.Close()
	s.mu.Lock()
	for _, c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

func (c *C) c24Connectors(n int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "file")
	os.WriteFile(file, []byte("x"), 0o600)
	p, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	refused := p.Addr().String()
	p.Close()
	os.Mkdir(filepath.Join(dir, "d"), 0o700)
	gram, err := newServer("unixgram", dir)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	defer gram.close()
	stream, err := newServer("unix", filepath.Join(dir, "d"))
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	defer stream.close()
	tcp, err := newServer("tcp", dir)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	defer tcp.close()
	_, port, _ := net.SplitHostPort(tcp.addr)
	for _, x := range []struct {
		what string
		c    syslog.Connector
		ok   bool
	}{
		{"tcp refused", syslog.TCPConnector("tcp", refused), false},
		{"tcp6 to an address of IPv4", syslog.TCPConnector("tcp6", tcp.addr), false},
		{"tcp to a port out of range", syslog.TCPConnector("tcp", "127.0.0.1:70000"), false},
		{"tcp without port separator", syslog.TCPConnector("tcp", "127.0.0.1"), false},
		{"unix to a missing path", syslog.LocalConnector("unix", filepath.Join(dir, "missing")), false},
		{"unix to a regular file", syslog.LocalConnector("unix", file), false},
		{"unix to a datagram socket", syslog.LocalConnector("unix", gram.addr), false},
		{"unixgram to a stream socket", syslog.LocalConnector("unixgram", stream.addr), false},
		{"local to a missing path", syslog.LocalConnector("", filepath.Join(dir, "missing")), false},
		{"local to a regular file", syslog.LocalConnector("", file), false},
		{"invalid network", syslog.TCPConnector("udp", refused), false},
		{"stdio of an unknown stream", syslog.StdioConnector("none:"), false},
		{"tcp", syslog.TCPConnector("tcp", tcp.addr), true},
		{"tcp4", syslog.TCPConnector("tcp4", tcp.addr), true},
		{"localhost", syslog.TCPConnector("tcp", "localhost:"+port), true},
		{"unix", syslog.LocalConnector("unix", stream.addr), true},
		{"unixgram", syslog.LocalConnector("unixgram", gram.addr), true},
		{"local to a stream socket", syslog.LocalConnector("", stream.addr), true},
		{"local to a datagram socket", syslog.LocalConnector("", gram.addr), true},
		{"stdout", syslog.StdioConnector("stdout:"), true},
	} {
		c.givesBack("Connect: "+x.what, n, func(int) {
			w, err := x.c.Connect()
			if err == nil {
				w.Close()
			}
			if (err == nil) != x.ok && x.what != "localhost" {
				c.Violate("Connect: %s: error %v", x.what, err)
			}
		})
	}
	c.givesBack("Dial of unknown networks and addresses", n, func(k int) {
		for _, a := range [][2]string{{"udp", "127.0.0.1:1"}, {"", ""}, {"file", file}, {"unixpacket", file}} {
			if snd, _, err := syslog.Dial(a[0], a[1]); err == nil {
				c.Violate("Dial(%s, %s) succeeds", a[0], a[1])
				snd.End()
			}
		}
	})
}

func (c *C) c24Listeners(n int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	for _, network := range []string{"tcp", "unix", "unixgram"} {
		addr := filepath.Join(dir, network)
		if network == "tcp" {
			addr = "127.0.0.1:0"
		}
		c.givesBack("listener of "+network, n, func(k int) {
			l, err := syslog.GuessListener(network, addr)
			if err != nil {
				c.Violate("listener of %s: %v", network, err)
				return
			}
			l.Close()
			os.Remove(addr)
		})
		if network == "tcp" {
			p, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				c.Inconclusive("listen: %v", err)
				return
			}
			c.givesBack("listener on a busy port", n, func(k int) {
				if l, err := syslog.GuessListener(network, p.Addr().String()); err == nil {
					c.Violate("two listeners on one port")
					l.Close()
				}
			})
			p.Close()
			continue
		}
		c.givesBack("listener of "+network+" on a stale socket", n, func(k int) {
			stale(network, addr)
			l, err := syslog.GuessListener(network, addr)
			if err != nil {
				c.Violate("listener of %s on a stale socket: %v", network, err)
				return
			}
			l.Close()
			os.Remove(addr)
		})
		for _, owner := range []string{"unix", "unixgram"} {
			oaddr := filepath.Join(dir, "own-"+owner)
			os.Remove(oaddr)
			var oc io.Closer
			got := make(chan net.Conn, 1000)
			if owner == "unix" {
				ul, err := net.Listen("unix", oaddr)
				if err != nil {
					c.Inconclusive("listen: %v", err)
					return
				}
				oc = ul
				go func() {
					for {
						conn, err := ul.Accept()
						if err != nil {
							close(got)
							return
						}
						got <- conn
					}
				}()
			} else {
				ul, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: oaddr, Net: "unixgram"})
				if err != nil {
					c.Inconclusive("listen: %v", err)
					return
				}
				oc = ul
				close(got)
			}
			open := false
			c.givesBack("listener of "+network+" on a "+owner+" socket in use", n, func(k int) {
				if l, err := syslog.GuessListener(network, oaddr); err == nil {
					c.Violate("listener of %s on a socket in use", network)
					l.Close()
				}
				// what its owner accepted meanwhile ends
				for wait := true; wait && owner == "unix" && !open; {
					select {
					case conn := <-got:
						conn.SetReadDeadline(time.Now().Add(20 * time.Second))
						if _, err := conn.Read(make([]byte, 1)); err != io.EOF {
							c.Violate("a probe of a socket in use is left open: %v", err)
							open = true
						}
						conn.Close()
					case <-time.After(2 * time.Millisecond):
						wait = false
					}
				}
			})
			oc.Close()
			os.Remove(oaddr)
		}
		for _, occupant := range []string{"file", "directory", "link", "missing directory"} {
			path := filepath.Join(dir, "occ")
			os.RemoveAll(path)
			switch occupant {
			case "file":
				os.WriteFile(path, nil, 0o600)
			case "directory":
				os.Mkdir(path, 0o700)
			case "link":
				os.Symlink(filepath.Join(dir, "nowhere"), path)
			case "missing directory":
				path = filepath.Join(path, "x")
			}
			c.givesBack("listener of "+network+" on a "+occupant, n, func(k int) {
				if l, err := syslog.GuessListener(network, path); err == nil {
					c.Violate("listener of %s on a %s", network, occupant)
					l.Close()
				}
			})
		}
	}
}

func stale(network, addr string) {
	os.Remove(addr)
	if network == "unix" {
		if l, err := net.ListenUnix("unix", &net.UnixAddr{Name: addr, Net: "unix"}); err == nil {
			l.SetUnlinkOnClose(false)
			l.Close()
		}
		return
	}
	if l, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: addr, Net: "unixgram"}); err == nil {
		l.Close()
	}
}

func (c *C) c24Receivers(n int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	enc := func(f framing) string { return f.enc(syslog.EmptyMessage().Msg("x").String()) }
	for _, network := range []string{"tcp", "unix", "unixgram"} {
		for fi, f := range framings() {
			for _, mode := range []string{"nobody", "ended", "idle", "mid frame", "malformed", "reset", "unread"} {
				if network == "unixgram" && (mode == "idle" || mode == "reset") {
					continue
				}
				if mode != "malformed" && mode != "idle" && fi > 0 {
					continue
				}
				rounds := n
				if mode == "idle" || network == "unixgram" {
					rounds = n / 6 // each takes the second a peer has to finish
				}
				c.givesBack("receiver of "+network+", "+f.Name+", "+mode, rounds, func(k int) {
					l, addr, err := listen(network, dir, k)
					if err != nil {
						c.Inconclusive("listen: %v", err)
						return
					}
					defer os.Remove(addr)
					x := newReceiver(c, l, 4, f.T, true)
					x.consume(c)
					var conns []net.Conn
					peers := 3
					if mode == "nobody" {
						peers = 0
					}
					want := 0
					for p := 0; p < peers; p++ {
						conn, err := net.Dial(network, addr)
						if err != nil {
							c.Inconclusive("dial: %v", err)
							break
						}
						conns = append(conns, conn)
						fmt.Fprint(conn, enc(f))
						want++
						switch mode {
						case "mid frame":
							if network != "unixgram" {
								fmt.Fprint(conn, "99 <13")
							}
						case "malformed":
							fmt.Fprint(conn, pick(c.Rand, "nonsense\n\x00", "999999999999999999999999 ", "\x00\n", "x y", "0 "))
						}
						if mode != "idle" && mode != "unread" {
							if mode == "reset" {
								if tc, ok := conn.(*net.TCPConn); ok {
									tc.SetLinger(0)
								}
								want = 0
							}
							conn.Close()
						}
					}
					for i := 0; i < 5000 && x.count() < want && mode != "unread"; i++ {
						time.Sleep(time.Millisecond)
					}
					if mode == "unread" {
						for _, conn := range conns {
							conn.Close()
						}
					}
					x.stop()
					for _, conn := range conns {
						conn.Close()
					}
				})
			}
		}
	}
}

// c24Messages: nothing is kept of messages which were delivered.
func (c *C) c24Messages(mul int) {
	const limit = 12 << 20
	for _, f := range framings() {
		for _, size := range []int{0, 200000} {
			steps := 300000 * mul
			if size > 0 {
				steps = 800 * mul
			}
			w := &countConn{}
			tk := make(manualTicker)
			snd, ch := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) { return w, nil }), f.T, (<-chan time.Time)(tk))
			l := drainErrs(ch)
			m := syslog.CreateWholeMessage(13, time.Unix(0, 0), "h", "a", "p", "m", strings.Repeat("x", size))
			c.keepsNothing(fmt.Sprintf("sender with messages of %d octets, %s", size, f.Name), steps, limit, func(k int) {
				snd.Send(m)
				if k%50 == 0 || k == steps/4 || k == steps-1 {
					tk.tick(nil)
					tk.tick(nil)
				}
			})
			snd.End()
			<-l.done

			ls := newListener()
			x := newReceiver(c, ls, 10, f.T, true)
			pr, pw := net.Pipe()
			ls.add(pipeReader{pr})
			enc := []byte(strings.Repeat(f.enc(m.String()), 1+min(49, steps/800/mul)))
			per := len(enc) / len(f.enc(m.String()))
			if size > 0 {
				steps /= 2
			} else {
				steps /= per
			}
			c.keepsNothing(fmt.Sprintf("receiver with messages of %d octets, %s", size, f.Name), steps, limit, func(k int) {
				go pw.Write(enc)
				for i := 0; i < per; i++ {
					if _, err, ok := x.R.Receive(); err != nil || !ok {
						c.Violate("%s: %v %v", f.Name, err, ok)
						return
					}
				}
			})
			pw.Close()
			x.consume(c)
			x.stop()
		}
		// connections which come and go
		ls := newListener()
		x := newReceiver(c, ls, 10, f.T, true)
		enc := f.enc(syslog.EmptyMessage().Msg("x").String())
		c.keepsNothing("receiver with very many connections, "+f.Name, 4000*mul, limit, func(k int) {
			ls.add(&heavyConn{scriptConn: newScript(k%4, []byte(enc))})
			if _, err, ok := x.R.Receive(); err != nil || !ok {
				c.Violate("%s: %v %v", f.Name, err, ok)
			}
			ls.mu.Lock()
			ls.given = nil
			ls.mu.Unlock()
			x.errs.mu.Lock()
			x.errs.errs = nil
			x.errs.mu.Unlock()
		})
		x.consume(c)
		x.stop()
		// a destination which never works: only the messages are kept
		fails := 0
		tk := make(manualTicker)
		snd, _ := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) {
			if fails++; fails%2 == 0 {
				return &failConn{}, nil
			}
			return nil, errors.New("connect: " + strings.Repeat("x", 1000) + strconv.Itoa(fails))
		}), f.T, (<-chan time.Time)(tk))
		snd.Send(syslog.EmptyMessage())
		c.keepsNothing("sender with a destination which fails, "+f.Name, 40000*mul, limit, func(k int) { tk.tick(nil) })
		// the sender is left alone: it could never end
	}
}

type failConn struct{ weight [1000]byte }

func (*failConn) Write([]byte) (int, error) {
	return 0, errors.New("write: " + strings.Repeat("x", 1000))
}
func (*failConn) Close() error { return nil }

// heavyConn shows when it is kept.
type heavyConn struct {
	*scriptConn
	weight [16384]byte
}

type pipeReader struct{ net.Conn }

// c24Values: nothing is kept of values which are gone.
func (c *C) c24Values(mul int) {
	const limit = 8 << 20
	w := &countConn{}
	tk := make(manualTicker)
	snd, ch := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) { return w, nil }), syslog.TransportRFC5425, (<-chan time.Time)(tk))
	l := drainErrs(ch)
	sl, err := syslog.New(snd, 15, "app")
	if err != nil {
		c.Violate("New: %v", err)
		return
	}
	ch0 := sl.Channel(6)
	n := 150000 * mul
	flush := func(k int) {
		if k%100 == 0 || k == n/4 || k == n-1 {
			tk.tick(nil)
			tk.tick(nil)
		}
	}
	c.keepsNothing("channels derived with new names", n, limit, func(k int) {
		ch0.AppName(strconv.Itoa(k)).Msgid("m" + strconv.Itoa(k)).Log("x")
		ch0.Logger("p" + strconv.Itoa(k)).Print(k)
		flush(k)
	})
	c.keepsNothing("sub-syslogs with new names", n, limit, func(k int) {
		sl.SubSyslog(strconv.Itoa(k)).Channel(syslog.Priority(k % 8)).Log("x")
		flush(k)
	})
	c.keepsNothing("syslogs on one sender", n, limit, func(k int) {
		s, err := syslog.New(snd, syslog.Priority(k%192), "app"+strconv.Itoa(k))
		if err != nil {
			c.Violate("New: %v", err)
			return
		}
		s.Channel(0).Log(strconv.Itoa(k))
		flush(k)
	})
	snd.End()
	<-l.done
	c.keepsNothing("messages with new fields", n, limit, func(k int) {
		s := strconv.Itoa(k)
		_ = syslog.CreateWholeMessage(syslog.Priority(k%192), time.Unix(int64(k), int64(k)*1000), "h"+s, "a"+s, "p"+s, "m"+s, "t"+s).
			StructuredData(sdata.GenericSD(dynSD{"k" + s: s})).StructuredData(timequality.TimeQuality{TzKnown: true, IsSynced: true, SyncAccuracy: &k}).String()
	})
	c.keepsNothing("decoded messages with new fields", n, limit, func(k int) {
		s := strconv.Itoa(k)
		m, _, err := syslog.Parse([]byte("<"+strconv.Itoa(k%192)+">1 "+time.Unix(int64(k), 0).UTC().Format(time.RFC3339)+" h"+s+" a"+s+" p"+s+" m"+s+` [e`+s+` n`+s+`="`+s+`"][timeQuality tzKnown="1" isSynced="1" syncAccuracy="`+s+`"] t`+s), nil, true)
		if err != nil {
			c.Violate("%v", err)
			return
		}
		_ = m.Hostname() + m.AppName() + m.ProcID() + m.MsgID() + m.Text()
		m.TimeStamp()
		_ = m.StructuredData().String()
		_ = m.Writable().String()
	})
	tq := timequality.TQ
	c.keepsNothing("one type registered again and again", n, limit, func(k int) { sdata.Register(tq); sdata.RegisterGroup(tq, tq) })
	c.keepsNothing("refused inputs", n, limit, func(k int) {
		s := strconv.Itoa(k)
		var p syslog.Priority
		p.Set("x" + s)
		p.Unmarshal5424([]byte(s))
		syslog.Parse([]byte("<1>1 - "+s), nil, true)
		sdata.Parse([]byte("[x" + s))
		for _, f := range framings() {
			syslog.Parse([]byte("x"+s), f.T, false)
		}
	})
	c.keepsNothing("failing Dial and listeners", n/20, limit, func(k int) {
		syslog.Dial("x"+strconv.Itoa(k), "y")
		syslog.GuessListener("x"+strconv.Itoa(k), "y")
		syslog.LocalConnector("unix", "/nonexistent/"+strconv.Itoa(k)).Connect()
	})
}

var _ = rand.IntN
