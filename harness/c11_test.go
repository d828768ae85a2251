package vharness

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"testing"
	"testing/synctest"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// stream is a sequence of framed messages.
type stream struct {
	f    framing
	msgs []string
	data []byte
	ends []int // position behind the k-th frame
}

func mkStream(f framing, msgs ...string) *stream {
	s := &stream{f: f, msgs: msgs}
	for _, m := range msgs {
		s.data = append(s.data, f.enc(m)...)
		s.ends = append(s.ends, len(s.data))
	}
	return s
}

// complete gives the number of frames completely contained in the first n bytes.
func (s *stream) complete(n int) int {
	return sort.Search(len(s.ends), func(i int) bool { return s.ends[i] > n })
}

func randStream(g *rand.Rand, f framing, id string, n, max int) *stream {
	var msgs []string
	for i := 0; i < n; i++ {
		m := randMsg(g, f, fmt.Sprintf("%s-%d", id, i), max).Want
		msgs = append(msgs, m)
	}
	return mkStream(f, msgs...)
}

// c11Run plays several connections, each with its own cut, in virtual time. After each chunk of
// a connection everything is left to settle: exactly the complete frames have been delivered.
func (c *C) c11Run(t *testing.T, queue int, conns []*scriptConn, streams []*stream, stepwise bool) {
	byText := map[string][2]int{}
	for i, s := range streams {
		for k, m := range s.msgs {
			byText[m] = [2]int{i, k}
		}
	}
	synctest.Test(t, func(*testing.T) {
		c.Guard(func() {
			l := newListener()
			for _, x := range conns {
				x.closedCh = make(chan struct{})
				x.gates = map[int]chan struct{}{}
				if stepwise {
					for k := range x.chunks {
						x.gates[k] = make(chan struct{})
					}
				}
				l.add(x)
			}
			x := newReceiver(c, l, queue, streams[0].f.T, true)
			x.consume(c)
			check := func(sofar []int) bool {
				synctest.Wait()
				pos := make([]int, len(conns))
				for _, r := range x.results() {
					at, ok := byText[r.Text]
					if r.Err != nil || !ok {
						c.Violate("%s framing: result %s, %v instead of a message of the stream", streams[0].f.Name, q(r.Text), r.Err)
						return false
					}
					if at[1] != pos[at[0]] {
						c.Violate("%s framing, cuts %s: message %d delivered where message %d is due", streams[0].f.Name, cutsOf(conns[at[0]]), at[1], pos[at[0]])
						return false
					}
					pos[at[0]]++
				}
				for i := range conns {
					if want := streams[i].complete(sofar[i]); pos[i] != want {
						c.Violate("%s framing, cuts %s, after %d of %d bytes: %d messages delivered, %d frames are complete", streams[i].f.Name, cutsOf(conns[i]), sofar[i], len(streams[i].data), pos[i], want)
						return false
					}
				}
				c.Eval(true, fmt.Sprint(sofar), streams[0].f.Name, streams[0].data)
				return true
			}
			sofar := make([]int, len(conns))
			good := true
			if stepwise {
				for k := 0; good; k++ {
					more := false
					for i, s := range conns {
						if k < len(s.chunks) {
							close(s.gates[k])
							sofar[i] += len(s.chunks[k])
							more = true
						}
					}
					if !more {
						break
					}
					good = check(sofar)
				}
			}
			if good {
				for i, s := range streams {
					sofar[i] = len(s.data)
				}
				good = check(sofar)
			}
			if !good { // let the rest play so that the bubble ends
				for _, s := range conns {
					for k := range s.chunks {
						if g := s.gates[k]; g != nil {
							select {
							case <-g:
							default:
								close(g)
							}
						}
					}
				}
			}
			if n := x.errs.count(); n > 0 && good {
				c.Violate("%s framing: errors reported for intact streams: %v", streams[0].f.Name, x.errs.all())
			}
			x.stop()
			c.Stat("connections", int64(len(conns)))
		})
	})
}

func cutsOf(s *scriptConn) string {
	at, out := 0, []int{}
	for _, ch := range s.chunks {
		at += len(ch)
		out = append(out, at)
		if len(out) > 20 {
			break
		}
	}
	return fmt.Sprintf("%v (%s)", out, endNames[s.end])
}

func TestC11(t *testing.T) {
	r := newR(t, "C11", "one evaluation = the messages a receiver has delivered after some chunk of a cut stream, compared with the frames completely received; distinct = distinct (positions, stream)")
	fs := framings()
	ends := []int{endEOF, endEOFData, endIdle}

	// every position of the cut, for short streams
	r.Case("every-cut", func(c *C) {
		for _, f := range fs {
			for v := 0; v < r.N(8, 60); v++ {
				g := c.Sub(v*3 + len(f.Name))
				for _, end := range ends {
					if r.full() {
						return
					}
					var conns []*scriptConn
					var streams []*stream
					s0 := randStream(g, f, "x", 3, 40)
					for at := 1; at < len(s0.data); at++ {
						var ms []string
						for k := range s0.msgs {
							ms = append(ms, s0.msgs[k])
						}
						s := mkStream(f, uniq(f, ms, len(conns))...)
						// the unique tag moves nothing: it has a constant length
						conns = append(conns, newScript(end, cut(s.data, at)...))
						streams = append(streams, s)
						if len(conns) == 40 {
							c.c11Run(t, 10, conns, streams, true)
							conns, streams = nil, nil
						}
					}
					if len(conns) > 0 {
						c.c11Run(t, 0, conns, streams, true)
					}
				}
			}
		}
	})
	// every pair of cuts, for two short frames
	r.Case("every-pair-of-cuts", func(c *C) {
		for _, f := range fs {
			for v, end := range ends {
				g := c.Sub(v*3 + len(f.Name))
				s0 := randStream(g, f, "x", 2, 6)
				var conns []*scriptConn
				var streams []*stream
				step := r.N(3, 1)
				for a := 1 + v%step; a < len(s0.data); a += step {
					for b := a + 1; b < len(s0.data); b++ {
						s := mkStream(f, uniq(f, s0.msgs, len(conns))...)
						conns = append(conns, newScript(end, cut(s.data, a, b)...))
						streams = append(streams, s)
						if len(conns) == 60 {
							c.c11Run(t, 100, conns, streams, true)
							conns, streams = nil, nil
							if r.full() {
								return
							}
						}
					}
				}
				if len(conns) > 0 {
					c.c11Run(t, 1, conns, streams, true)
				}
			}
		}
	})
	r.Case("byte-by-byte", func(c *C) {
		for v := 0; v < r.N(30, 600) && !r.full(); v++ {
			g := c.Sub(v)
			f := fs[v%3]
			s := randStream(g, f, "x", 1+g.IntN(6), pick(g, 0, 30, 400))
			x := newScript(ends[g.IntN(3)])
			for _, b := range s.data {
				x.chunks = append(x.chunks, []byte{b})
			}
			x.zero = g.IntN(3) == 0
			c.c11Run(t, g.IntN(3), []*scriptConn{x}, []*stream{s}, len(s.data) < 800)
		}
	})
	// long streams around the buffer sizes
	r.Case("long-streams", func(c *C) {
		sz := sizes(200000)
		for v := 0; v < r.N(120, 3000) && !r.full(); v++ {
			g := c.Sub(v)
			f := fs[v%3]
			var conns []*scriptConn
			var streams []*stream
			for k := 1 + g.IntN(4); k > 0; k-- {
				var msgs []string
				total := 0
				for i := 0; total < 400000 && i < 3+g.IntN(60); i++ {
					size := sz[g.IntN(len(sz))]
					if g.IntN(3) > 0 {
						size = g.IntN(2000)
					}
					msgs = append(msgs, sized(g, f, fmt.Sprintf("L%d-%d-%d", v, k, i), size))
					total += size
				}
				s := mkStream(f, msgs...)
				var at []int
				switch g.IntN(4) {
				case 0: // few big reads
					for p := 0; p < len(s.data); p += 1 + g.IntN(200000) {
						at = append(at, p)
					}
				case 1: // typical sizes
					step := pick(g, 1460, 4096, 8192, 65535, 65536, 65537, 65036, 500, 499, 501)
					for p := step; p < len(s.data); p += step {
						at = append(at, p)
					}
				case 2: // near the frame boundaries
					for _, e := range s.ends {
						at = append(at, e+pick(g, -2, -1, 0, 1, 2, 7))
					}
					sort.Ints(at)
				default:
					for p := 0; p < len(s.data); p += 1 + pickSize(g, 70000) {
						at = append(at, p)
					}
				}
				x := newScript(ends[g.IntN(3)], cut(s.data, at...)...)
				conns, streams = append(conns, x), append(streams, s)
			}
			c.c11Run(t, g.IntN(20), conns, streams, v%2 == 0)
			c.Stat("long_stream_bytes", int64(len(streams[0].data)))
		}
	})

	// reads which fill whatever buffer the receiver gives, the last one with the end
	r.Case("filled-reads", func(c *C) {
		for i := 0; i < r.N(120, 3000) && !r.full(); i++ {
			g := c.Sub(i)
			f := fs[i%3]
			var msgs []string
			total := pick(g, 1000, 100000, 400000, 2000000)
			for k := 0; total > 0; k++ {
				size := pick(g, g.IntN(2000), pickSize(g, 3000), pickSize(g, 150000), 300)
				msgs = append(msgs, sized(g, f, fmt.Sprintf("F%d-%d", i, k), size))
				total -= size + 50
			}
			c.c13Full(t, f, mkStream(f, msgs...), 1+g.IntN(pick(g, 2, 8, 40)), pick(g, endEOF, endEOFData, endEOFData), nil, g.IntN(20))
		}
	})

	// cuts before, inside and behind the length header (or the terminator), for every number of digits
	r.Case("headers", func(c *C) {
		for i, size := range []int{60, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001, 65535, 65536, 99999, 100000, 100001, 999999, 1000000} {
			for fi, f := range fs {
				g := c.Sub(i*3 + fi)
				one := sized(g, f, "one", size)
				first := len(f.enc(one))
				lo, hi := first-2, first+9
				var conns []*scriptConn
				var streams []*stream
				for at := lo; at <= hi; at++ {
					s := mkStream(f, one, sized(g, f, fmt.Sprint("two", at), size), sized(g, f, "tail", 60))
					conns = append(conns, newScript(ends[at%3], cut(s.data, at)...), newScript(ends[(at+1)%3], cut(s.data, at-lo+1, at)...))
					streams = append(streams, s, s)
					if size < 200000 || len(conns) >= 8 {
						c.c11Run(t, 5, conns[:1], streams[:1], true)
						c.c11Run(t, 5, conns[1:2], streams[1:2], true)
						conns, streams = conns[2:], streams[2:]
					}
				}
				for k := range conns {
					c.c11Run(t, 5, conns[k:k+1], streams[k:k+1], true)
				}
			}
		}
	})

	// sizes of more digits, up to the limit of a receiver
	r.Case("giants", func(c *C) {
		giants := []int{262144, 524288, 999999, 1000000, 1048575, 1048576, 1048577, 2000000, 4194304, 8388608, 9999999, 10000000, 16000000, 16777000}
		for i := 0; i < len(giants)*3*r.N(1, 6) && !r.full(); i++ {
			g := c.Sub(i)
			f := fs[i%3]
			size := giants[i/3%len(giants)]
			if i >= len(giants)*3 {
				size = 200000 + g.IntN(16500000)
			}
			big := mkMsg("giant", g.IntN(192), randTime(g), "").Want + " "
			pat := f.clean(string(randBytes(g, 1000+g.IntN(5000)))) + "x"
			big += (strings.Repeat(pat, size/len(pat)+1))[:size-len(big)-1] + "z"
			if len(big) != size {
				c.Violate("harness: %d != %d", len(big), size)
			}
			s := mkStream(f, sized(g, f, "before", 300), big, sized(g, f, "behind", 300), big[:len(big)-1-g.IntN(5000)]+"y", sized(g, f, "last", 70000))
			step := pick(g, 1<<15, 1<<16, 100000, 1<<20, 20000000)
			var at []int
			for p := step; p < len(s.data); p += step {
				at = append(at, p)
			}
			c.c11Run(t, g.IntN(3), []*scriptConn{newScript(ends[g.IntN(3)], cut(s.data, at...)...)}, []*stream{s}, false)
			// the functions
			for _, m := range s.msgs {
				fr := f.T.Encode([]byte(m))
				if string(fr) != f.enc(m) {
					c.Violate("%s Encode of %d octets gives a wrong frame of %d octets: %s", f.Name, len(m), len(fr), q(fr))
				}
				for _, cutAt := range []int{len(fr) - 1, len(fr) / 2} {
					if _, rest, _ := syslog.Parse(fr[:cutAt], f.T, false); rest != nil {
						c.Violate("%s Parse of %d of the %d octets of a frame gives a complete message", f.Name, cutAt, len(fr))
					}
				}
				d, rest, err := syslog.Parse(append(fr, "<1>1 tail"...), f.T, false)
				if err != nil || d.String() != m || string(rest) != "<1>1 tail" {
					c.Violate("%s Parse of a frame of %d octets gives %d octets, rest %s, %v", f.Name, len(fr), len(d.String()), q(rest), err)
				}
			}
			c.Stat("giant_bytes", int64(len(s.data)))
		}
	})

	// the exported decoding functions
	r.Case("parse-prefixes", func(c *C) {
		c.Parallel(r.N(900, 20000), func(i int) {
			g := c.Sub(i)
			f := fs[i%3]
			s := randStream(g, f, "p", 1+g.IntN(4), pick(g, 5, 60, 300))
			step := 1
			if len(s.data) > 600 {
				step = 1 + len(s.data)/300
			}
			for n := 0; n <= len(s.data); n += step {
				rest := append([]byte(nil), s.data[:n]...)
				k := 0
				for {
					m, after, err := syslog.Parse(rest, f.T, false)
					done := s.complete(n)
					if k == done { // only an incomplete frame is left
						if after != nil {
							c.Violate("Parse(%s, %s, not at EOF) gives %s as a complete message, the frame is incomplete", q(rest), f.Name, q(m.String()))
						}
						break
					}
					if err != nil || after == nil || m.String() != s.msgs[k] {
						c.Violate("Parse(%s, %s, not at EOF) gives %s, %v, complete %v; want %s", q(rest), f.Name, q(m.String()), err, after != nil, q(s.msgs[k]))
						break
					}
					k++
					rest = after
				}
				c.Eval(true, s.data[:n], f.Name)
			}
		})
	})
	r.Case("encode", func(c *C) {
		c.Parallel(r.N(3000, 60000), func(i int) {
			g := c.Sub(i)
			m := randBytes(g, pickSize(g, 70000))
			slack := pick(g, 0, 0, 1, 2, 20, 100)
			buf := append(append(make([]byte, 0, len(m)+slack), m...), bytes.Repeat([]byte{0x5A}, slack)...)
			keep := string(buf)
			for _, f := range fs {
				in := buf[:len(m)]
				e := f.T.Encode(in)
				if string(e) != f.enc(string(m)) {
					c.Violate("%s Encode(%s) gives %s", f.Name, q(m), q(e))
				}
				if string(buf) != keep {
					c.Violate("%s Encode(%s) changed the message or the bytes behind it", f.Name, q(m))
				}
				e2 := f.T.Encode(in)
				for j := range e2 { // the frame is the caller's
					e2[j] ^= 0xff
				}
				if string(e) != f.enc(string(m)) && slack == 0 && len(m) > 0 {
					c.Stat("frames_sharing_memory", 1)
				}
				copy(buf, keep)
				c.Eval(true, m, f.Name, slack)
				if len(m) == 0 || !f.ok(string(m)) {
					continue
				}
				// and back, whatever is in front of, in and behind the message
				content := pick(g, "", "", " ", "  ", "7 ", "0 ", "12", "\r", "<", "\xef\xbb\xbf", "\t") + string(m) + pick(g, "", "", " ", "\r", "\t", " 3")
				tail := pick(g, "", "3 a", " ", "\n", "\x00", f.enc("x"), "12")
				fr := []byte(f.enc(content) + tail)
				strip := f.T.SuffixStrip
				if f.Term < 0 {
					strip = f.T.PrefixStrip
				}
				var d, rest []byte
				var err error
				if c.Guard(func() { d, rest, err = strip(fr, g.IntN(2) == 0) }) {
					return
				}
				if err != nil || string(d) != content || rest == nil || string(rest) != tail {
					c.Violate("the %s frame of %s and %s are cut into %s and %s, %v", f.Name, q(content), q(tail), q(d), q(rest), err)
				}
			}
		})
	})
}

// sized gives a message of about the given encoded size.
func sized(g *rand.Rand, f framing, id string, size int) string {
	m := mkMsg(id, g.IntN(192), randTime(g), "").Want
	for {
		n := size - len(m) - 1
		if n <= 0 {
			return m
		}
		text := f.clean(refTrim(string(randBytes(g, n))))
		if text != "" {
			return m + " " + text
		}
	}
}

// uniq makes the messages unique for a connection, keeping their length.
func uniq(f framing, msgs []string, k int) []string {
	out := make([]string, len(msgs))
	for i, m := range msgs {
		// the app name is "app" in every generated message
		tag := []byte("app")
		n := k
		for j := range tag {
			tag[j] = byte('a' + n%26)
			n /= 26
		}
		j := bytes.Index([]byte(m), []byte(" app "))
		out[i] = m[:j+1] + string(tag) + m[j+4:]
	}
	return out
}
