package vharness

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"testing"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// same08 compares a decoded message with the reference state of the encoded one.
func (c *C) same08(what string, b []byte, m syslog.MessageImmutable, s refState, elems []string) {
	got, err := refRead(b)
	if err != nil {
		c.Violate("%s: invalid encoding %s: %v", what, q(b), err)
		return
	}
	if s.hostAny {
		s.host = got.Host
	}
	if m.String() != string(b) {
		c.Violate("%s: String is %s, the encoding %s", what, q(m.String()), q(b))
	}
	var w bytes.Buffer
	if n, err := m.WriteTo(&w); err != nil || n != int64(len(b)) || w.String() != string(b) {
		c.Violate("%s: WriteTo gives %s, %d, %v", what, q(w.Bytes()), n, err)
	}
	sw := &shortWriter{limit: len(b) / 2}
	if n, err := m.WriteTo(sw); err != errShort || n != int64(len(b)/2) {
		c.Violate("%s: WriteTo gives %d, %v for a writer that fails behind %d bytes", what, n, err, len(b)/2)
	}
	if int(m.Priority()) != s.prio {
		c.Violate("%s: priority %d, want %d", what, m.Priority(), s.prio)
	}
	if !s.tsAny {
		want := s.ts.Truncate(0)
		d := m.TimeStamp().UnixMicro() - refMicro(want)
		_, o1 := m.TimeStamp().Zone()
		_, o2 := s.ts.Zone()
		if d != 0 || o1 != o2 {
			c.Violate("%s: timestamp %v, want %v", what, m.TimeStamp(), s.ts)
		}
	}
	for _, f := range []struct{ n, got, want string }{
		{"host", m.Hostname(), s.host}, {"app", m.AppName(), s.app}, {"procid", m.ProcID(), s.proc}, {"msgid", m.MsgID(), s.msgid}, {"text", m.Text(), s.text}} {
		if f.got != f.want {
			c.Violate("%s: %s decoded as %s, want %s (from %s)", what, f.n, q(f.got), q(f.want), q(b))
		}
	}
	l := m.StructuredData()
	if len(l) != len(elems) {
		c.Violate("%s: %d elements decoded, want %d (from %s)", what, len(l), len(elems), q(b))
	} else {
		lb, err := l.Marshal5424()
		lt, terr := l.MarshalText()
		if err != nil || terr != nil || string(lb) != string(lt) || l.String() != string(lb) {
			c.Violate("%s: the list is encoded as %s, %v by Marshal5424, %s, %v by MarshalText and %s by String", what, q(lb), err, q(lt), terr, q(l.String()))
		}
		for i, e := range elems {
			eb, err := l[i].Marshal5424()
			if err != nil || string(eb) != e {
				c.Violate("%s: element %d decoded as %s, %v, want %s", what, i, q(eb), err, q(e))
			}
		}
	}
	wr := m.Writable()
	eb, err := wr.Marshal5424()
	if err != nil || string(eb) != string(b) {
		c.Violate("%s: encoded again as %s, %v, want %s", what, q(eb), err, q(b))
	}
	if wr.String() != string(b) {
		c.Violate("%s: Writable().String() is %s, want %s", what, q(wr.String()), q(b))
	}
}

var errShort = errors.New("short write")

type shortWriter struct{ limit int }

func (w *shortWriter) Write(p []byte) (int, error) {
	n := min(len(p), w.limit)
	w.limit -= n
	if n < len(p) {
		return n, errShort
	}
	return n, nil
}

// refMicro gives the instant in microseconds, rounded down.
func refMicro(t time.Time) int64 { return t.Unix()*1000000 + int64(t.Nanosecond()/1000) }

func (c *C) roundTrip(g *rand.Rand, what string, m syslog.Message, s refState, elems []string) {
	b, err := m.Marshal5424()
	if err != nil {
		c.Violate("%s: %v", what, err)
		return
	}
	if m.String() != string(b) {
		c.Violate("%s: String and Marshal5424 disagree", what)
	}
	keep := string(b)
	var d syslog.MessageImmutable
	var rest []byte
	if c.Guard(func() { d, rest, err = syslog.Parse(b, nil, g.IntN(2) == 0) }) {
		return
	}
	if err != nil || len(rest) != 0 {
		c.Violate("%s: %s is not decoded: %v", what, q(b), err)
		return
	}
	c.Guard(func() { c.same08(what, b, d, s, elems) })
	// through each framing
	f := framings()[g.IntN(3)]
	if f.ok(keep) {
		fr := f.T.Encode(b)
		if string(fr) != f.enc(keep) {
			c.Violate("%s: %s frame is %s", what, f.Name, q(fr))
			return
		}
		tail := pick(g, "", "12 x", "<1>1 -")
		fr = append(append([]byte(nil), fr...), tail...)
		if c.Guard(func() { d, rest, err = syslog.Parse(fr, f.T, g.IntN(2) == 0) }) {
			return
		}
		if err != nil || rest == nil || string(rest) != tail {
			c.Violate("%s: framed by %s decodes with rest %s, %v", what, f.Name, q(rest), err)
			return
		}
		c.Guard(func() { c.same08(what+" framed", []byte(keep), d, s, elems) })
	}
	if string(b) != keep {
		c.Violate("%s: decoding changed the input", what)
	}
	c.Eval(true, keep)
	c.Sample("message", "%s", q(keep))
}

// randElems gives elements that encode to themselves.
func randElems(g *rand.Rand) (elems []string) {
	for k := pick(g, 0, 0, 1, 1, 2, 3, 5, 12); k > 0; k-- {
		if g.IntN(5) == 0 {
			_, n := tqRaw(g)
			elems = append(elems, n)
			continue
		}
		for {
			raw := sdElementRaw(g)
			if refTQ(raw) == 0 {
				elems = append(elems, raw)
				break
			}
		}
	}
	return
}

func withElems(m syslog.Message, s refState, elems []string) (syslog.Message, refState) {
	if len(elems) > 0 {
		s.sd = ""
	}
	for _, e := range elems {
		m = m.StructuredData(rawSD(e))
		s.sd += e
	}
	return m, s
}

func TestC08(t *testing.T) {
	r := newR(t, "C08", "one evaluation = one message encoded, decoded bare and through a framing, each accessor compared with what was given, and encoded again; distinct by encoded bytes")
	r.Case("random", func(c *C) {
		c.Parallel(r.N(60000, 1200000), func(i int) {
			g := c.Sub(i)
			m, s, what := refNew(g)
			for k := g.IntN(4); k > 0; k-- {
				m2, s2, op := refDerive(g, m, s)
				if s2.sd != "-" { // elements are added below, where their list is known
					continue
				}
				m, s, what = m2, s2, what+"."+op
			}
			elems := randElems(g)
			m, s = withElems(m, s, elems)
			c.roundTrip(g, what, m, s, elems)
		})
	})
	r.Case("sizes", func(c *C) {
		sz := sizes(140000)
		c.Parallel(len(sz), func(i int) {
			g := c.Sub(i)
			for k := 0; k < 3; k++ {
				text := string(randBytes(g, sz[i]))
				m := syslog.CreateWholeMessage(14, randTime(g), "h", "a", "p", "m", text)
				s := refState{prio: 14, tsAny: true, host: "h", app: "a", proc: "p", msgid: "m", sd: "-", text: refTrim(text)}
				var elems []string
				if k == 1 {
					elems = []string{"[big v=\"" + escapeSD(string(randBytes(g, min(sz[i], 70000)))) + "\"]"}
				}
				m, s = withElems(m, s, elems)
				c.roundTrip(g, fmt.Sprintf("text of %d bytes", sz[i]), m, s, elems)
			}
		})
	})
	r.Case("huge", func(c *C) {
		c.Parallel(r.N(48, 400), func(i int) {
			g := c.Sub(i)
			n := pick(g, 140000, 1<<18-1, 1<<18+1, 1<<19+3, 1<<20+7, 3<<20) + g.IntN(1000)
			text := string(randBytes(g, n))
			ts := randTime(g)
			m := syslog.CreateWholeMessage(14, ts, "h", "a", "p", "m", "")
			what := ""
			switch i % 4 {
			case 0:
				m, what = syslog.CreateWholeMessage(14, ts, "h", "a", "p", "m", text), "CreateWholeMessage"
			case 1:
				m, what = m.Msg(text), "Msg"
			case 2:
				m, what = syslog.CreateMessage("a", 14, text).Host("h").ProcID("p").MsgID("m").Time(ts), "CreateMessage"
			default:
				m, what = m.Msg("x").Msg(text).Priority(14), "Msg twice"
			}
			s := refState{prio: 14, ts: ts, host: "h", app: "a", proc: "p", msgid: "m", sd: "-", text: refTrim(text)}
			var elems []string
			switch g.IntN(3) {
			case 0:
				elems = []string{"[big v=\"" + escapeSD(string(randBytes(g, n))) + "\"]"}
			case 1:
				for k := 0; k < n/1000; k++ {
					elems = append(elems, "[e"+strconv.Itoa(k)+" v=\""+strings.Repeat("x", g.IntN(2000))+"\"]")
				}
			}
			m, s = withElems(m, s, elems)
			c.roundTrip(g, fmt.Sprintf("%s with a text of %d bytes", what, n), m, s, elems)
		})
	})
	r.Case("tricky-texts", func(c *C) {
		g := c.Rand
		toks := []string{"", "]", "[", "\"", "\\", " ", "-", "x", "\"]", "[a b=\"c\"]", "=", "\n", "\x00"}
		for _, a := range toks {
			for _, b := range toks {
				for _, d := range toks {
					for _, elems := range [][]string{nil, {"[a]"}, {"[a b=\"\"]", "[c d=\"\\]\\\"\\\\\"]"}} {
						text := a + b + d
						m := syslog.CreateWholeMessage(0, time.Unix(1, 0), "-", "", "-", "-", text)
						s := refState{ts: time.Unix(1, 0), host: "-", app: "-", proc: "-", msgid: "-", sd: "-", text: refTrim(text)}
						m, s = withElems(m, s, elems)
						c.roundTrip(g, "text "+q(text), m, s, elems)
					}
				}
			}
		}
	})
	// messages in a row, at times which agree in the instant, in the wall clock, in the name of
	// the zone, in the fraction or in the second, and differ in the rest
	r.Case("alike-times", func(c *C) {
		c.Parallel(r.N(4000, 60000), func(i int) {
			g := c.Sub(i)
			ts := randTime(g)
			for k := 0; k < 12; k++ {
				name, off := ts.Zone()
				y, mo, d := ts.Date()
				h, mi, s := ts.Clock()
				other := 60 * (g.IntN(2*14*60) - 14*60)
				switch g.IntN(8) {
				case 0: // the same instant elsewhere
					ts = ts.In(time.FixedZone(pick(g, name, "", "X"), other))
				case 1: // the same wall clock elsewhere
					ts = time.Date(y, mo, d, h, mi, s, ts.Nanosecond(), time.FixedZone(pick(g, name, "", "X"), other))
				case 2: // the same in UTC
					ts = time.Date(y, mo, d, h, mi, s, ts.Nanosecond(), time.UTC)
				case 3: // the other side of UTC
					ts = time.Date(y, mo, d, h, mi, s, ts.Nanosecond(), time.FixedZone(name, -off))
				case 4: // the same second
					ts = ts.Add(time.Duration(g.IntN(1000000000) - ts.Nanosecond()))
				case 5: // the same fraction
					ts = ts.Add(time.Second * time.Duration(pick(g, 1, -1, 60, 3600, -86400, g.IntN(100000))))
				case 6:
					ts = ts.Add(time.Duration(pick(g, 1, 999, 1000, -1, -1000, 1000000)))
				case 7:
					ts = ts.AddDate(pick(g, 0, 0, 1, -1, 4), pick(g, 0, 1, -1), pick(g, 0, 1, -7))
				}
				if y := ts.Year(); y < 2 || y > 9997 {
					return
				}
				m := pick(g, syslog.EmptyMessage().Time(ts), syslog.CreateWholeMessage(0, ts, "", "", "", "", ""))
				c.roundTrip(g, "a time like the one before it "+ts.String(), m, refState{ts: ts, host: "-", app: "-", proc: "-", msgid: "-", sd: "-"}, nil)
			}
		})
	})
	r.Case("times", func(c *C) {
		c.Parallel(r.N(20000, 300000), func(i int) {
			g := c.Sub(i)
			ts := randTime(g)
			m := syslog.EmptyMessage().Time(ts)
			c.roundTrip(g, "time "+ts.String(), m, refState{ts: ts, host: "-", app: "-", proc: "-", msgid: "-", sd: "-"}, nil)
		})
	})
}
