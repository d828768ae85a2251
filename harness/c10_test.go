package vharness

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// gMsg is one derivation of the RFC 5424 grammar with the value of each field.
type gMsg struct {
	prio                   int
	ts                     string
	host, app, proc, msgid string
	elems                  []string
	text                   string
	hasText                bool
}

func (m gMsg) wire() string {
	sd := "-"
	if len(m.elems) > 0 {
		sd = strings.Join(m.elems, "")
	}
	s := fmt.Sprintf("<%d>1 %s %s %s %s %s %s", m.prio, m.ts, m.host, m.app, m.proc, m.msgid, sd)
	if m.hasText {
		s += " " + m.text
	}
	return s
}

func gStamp(g *rand.Rand) string {
	if g.IntN(8) == 0 {
		return "-"
	}
	y := pick(g, 0, 1, 1969, 1970, 1999, 2000, 2003, 2024, 2038, 2100, 9999, g.IntN(10000))
	mo := 1 + g.IntN(12)
	d := 1 + g.IntN(refDaysIn(y, mo))
	if g.IntN(4) == 0 {
		d = refDaysIn(y, mo)
	}
	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, d, pick(g, 0, 23, g.IntN(24)), pick(g, 0, 59, g.IntN(60)), pick(g, 0, 59, g.IntN(60)))
	if n := g.IntN(7); n > 0 {
		s += "."
		for ; n > 0; n-- {
			s += string([]byte{byte('0' + pick(g, 0, 9, g.IntN(10)))})
		}
	}
	switch g.IntN(3) {
	case 0:
		return s + "Z"
	case 1:
		return s + pick(g, "+00:00", "-00:00", "+01:00", "-07:00", "+05:30", "+14:00", "-12:00", "+23:59", "-23:59", "+00:30")
	}
	return s + fmt.Sprintf("%s%02d:%02d", pick(g, "+", "-"), g.IntN(24), g.IntN(60))
}

func gElement(g *rand.Rand) string {
	switch g.IntN(8) {
	case 0:
		raw, _ := tqRaw(g)
		return raw
	case 1:
		return pick(g, "[a]", "[x@1]", "[a b=\"\"]", "[a b=\"\\]\"]", "[a b=\"\\\"\"]", "[a b=\"\\\\\"]", "[a b=\"\\\\\" c=\"\\\\\\\"\"]", "[a b=\"[\"]", "[a b=\" \"]", "[a b=\"] \"]"[:0]+"[a b=\"\\] \"]", "[a b=\"\\n\"]", "[[ [=\"[\"]",
			"[- -=\"-\"]", "[\\ \\=\"\\\\\"]", "[origin ip=\"192.0.2.1\" ip=\"192.0.2.129\"]", "[meta sequenceId=\"29\"]", "[ID@32473 iut=\"3\" eventSource=\"Application\"]", "[a' b'=\"'\"]", "[timeQuality tzKnown=\"0\" isSynced=\"0\"]", "[a b=\"\ufeff\"]", "[a b=\"\n\t\"]")
	}
	return sdElementRaw(g)
}

func gText(g *rand.Rand) string {
	switch g.IntN(6) {
	case 0:
		return ""
	case 1:
		return pick(g, " ", "  ", "-", "[", "]", "\"", "[a b=\"c\"]", "][", "\ufeff", "\ufeffé", "]x", "\"]", "\\]", "- -", "<1>1 - - - - - -", "\x00", "\n", " x", "x ", "[x] ", "\\", "a]b[c")
	}
	if g.IntN(300) == 0 {
		return string(randBytes(g, pickSize(g, 200000)))
	}
	return string(randBytes(g, pickSize(g, 3000)))
}

func gMessage(g *rand.Rand) gMsg {
	m := gMsg{prio: g.IntN(192), ts: gStamp(g), host: cleanField(g, 255), app: cleanField(g, 48), proc: cleanField(g, 128), msgid: cleanField(g, 32)}
	k := pick(g, 0, 0, 0, 1, 1, 2, 3, 6)
	if g.IntN(150) == 0 {
		k = pick(g, 7, 8, 9, 16, 17, 33, 65, 130, 300)
	}
	for ; k > 0; k-- {
		m.elems = append(m.elems, gElement(g))
	}
	if g.IntN(4) > 0 {
		m.hasText, m.text = true, gText(g)
	}
	return m
}

func refTQNorm(raw string) string {
	e, _, _ := refElement(raw)
	v := map[string]string{}
	for _, p := range e.Params {
		v[p.K] = p.V
	}
	s := "[timeQuality"
	for _, k := range []string{"tzKnown", "isSynced"} {
		if v[k] == "1" {
			s += " " + k + "=\"1\""
		}
	}
	if a, ok := v["syncAccuracy"]; ok {
		s += " syncAccuracy=\"" + a + "\""
	}
	return s + "]"
}

func (c *C) judge10(m gMsg, d syslog.MessageImmutable) {
	wire := m.wire()
	fail := func(what string, got, want any) {
		c.Violate("%s of %s is %s, want %s", what, q(wire), q(fmt.Sprint(got)), q(fmt.Sprint(want)))
	}
	if d.String() != wire {
		fail("String", d.String(), wire)
	}
	var w bytes.Buffer
	if n, err := d.WriteTo(&w); err != nil || w.String() != wire || n != int64(len(wire)) {
		fail("WriteTo", fmt.Sprint(w.String(), n, err), wire)
	}
	// twice: accessors are repeatable
	for k := 0; k < 2; k++ {
		if int(d.Priority()) != m.prio {
			fail("Priority", int(d.Priority()), m.prio)
		}
		for _, f := range []struct{ n, got, want string }{{"Hostname", d.Hostname(), m.host}, {"AppName", d.AppName(), m.app}, {"ProcID", d.ProcID(), m.proc}, {"MsgID", d.MsgID(), m.msgid}, {"Text", d.Text(), m.text}} {
			if f.got != f.want {
				fail(f.n, f.got, f.want)
			}
		}
	}
	if m.ts == "-" {
		if !d.TimeStamp().IsZero() {
			fail("TimeStamp", d.TimeStamp(), "the zero time")
		}
	} else {
		sec, us, off, err := refTimestamp(m.ts)
		_, o := d.TimeStamp().Zone()
		if err != nil || refMicro(d.TimeStamp()) != sec*1000000+int64(us) || o != off || d.TimeStamp().Nanosecond()%1000 != 0 {
			fail("TimeStamp", d.TimeStamp(), m.ts)
		}
	}
	l := d.StructuredData()
	if len(l) != len(m.elems) {
		fail("number of elements", len(l), len(m.elems))
	} else {
		for i, e := range m.elems {
			switch refTQ(e) {
			case 1:
				tq, ok := l[i].(timequality.TimeQuality)
				b, err := l[i].Marshal5424()
				if !ok || err != nil || string(b) != refTQNorm(e) {
					fail("element", fmt.Sprintf("%#v %s", tq, b), e)
				}
			case 0:
				b, err := l[i].Marshal5424()
				if err != nil || string(b) != e {
					fail("element", string(b), e)
				}
			}
		}
	}
	// the writable copy
	wb, err := d.Writable().Marshal5424()
	if err != nil {
		c.Violate("the writable copy of %s is not encodable: %v", q(wire), err)
		return
	}
	wm, err := refRead(wb)
	if err != nil && m.ts != "-" {
		c.Violate("the writable copy of %s is encoded as %s: %v", q(wire), q(wb), err)
		return
	}
	if wm.Prio != m.prio || wm.Host != m.host || wm.App != m.app || wm.Proc != m.proc || wm.MsgID != m.msgid || wm.Text != m.text || len(wm.SD) != len(m.elems) {
		c.Violate("the writable copy of %s is encoded as %s", q(wire), q(wb))
	}
	for i, e := range m.elems {
		if i < len(wm.SD) && refTQ(e) == 0 && wm.SD[i].Raw != e {
			c.Violate("the writable copy of %s is encoded as %s", q(wire), q(wb))
		}
	}
	s1, u1, o1, _ := refTimestamp(wm.TS)
	if m.ts == "-" {
		if wm.TS != "-" && wm.TS != "0001-01-01T00:00:00Z" {
			fail("timestamp of the writable copy", wm.TS, "nil or the zero time")
		}
	} else if s2, u2, o2, _ := refTimestamp(m.ts); s1 != s2 || u1 != u2 || o1 != o2 {
		fail("timestamp of the writable copy", wm.TS, m.ts)
	}
}

func (c *C) decode10(g *rand.Rand, m gMsg) {
	wire := m.wire()
	if _, err := refRead([]byte(wire)); err != nil {
		panic("harness: the generator made an invalid message " + q(wire) + ": " + err.Error())
	}
	var d syslog.MessageImmutable
	var rest []byte
	var err error
	if c.Guard(func() { d, rest, err = syslog.Parse([]byte(wire), nil, g.IntN(2) == 0) }) {
		return
	}
	if err != nil || len(rest) != 0 {
		c.Violate("valid message %s refused: %v", q(wire), err)
		return
	}
	c.Guard(func() { c.judge10(m, d) })
	f := framings()[g.IntN(3)]
	if f.ok(wire) {
		tail := pick(g, "", "12 ", "1", "<1>1 - - -", "x\n", "\x00")
		eof := g.IntN(2) == 0
		if c.Guard(func() { d, rest, err = syslog.Parse([]byte(f.enc(wire)+tail), f.T, eof) }) {
			return
		}
		if err != nil || rest == nil || string(rest) != tail {
			c.Violate("valid message %s in %s refused: %v, rest %s", q(wire), f.Name, err, q(rest))
			return
		}
		c.Guard(func() { c.judge10(m, d) })
	}
	c.Eval(true, wire)
	c.Sample("grammar", "%s", q(wire))
}

func TestC10(t *testing.T) {
	r := newR(t, "C10", "one evaluation = one message derived from the RFC 5424 grammar, decoded bare and inside a framing, every accessor compared with the derivation; distinct by message")
	r.Case("grammar", func(c *C) {
		c.Parallel(r.N(60000, 1500000), func(i int) {
			g := c.Sub(i)
			c.decode10(g, gMessage(g))
		})
	})
	base := gMsg{prio: 13, ts: "2003-10-11T22:14:15.003Z", host: "h", app: "a", proc: "p", msgid: "m"}
	// all pairs of structured data and text tokens
	r.Case("tail-tokens", func(c *C) {
		toks := []string{"[", "]", "\"", "\\", " ", "-", "x", "="}
		names := []string{"a", "[", "\\", "-", "'", "timeQuality", "<1>1"}
		vals := []string{"", "]", "\"", "\\", "[", " ", "-", "a", "\\x"[1:]}
		texts := []string{""}
		for _, a := range toks {
			texts = append(texts, a)
			for _, b := range toks {
				texts = append(texts, a+b)
				for _, d := range toks {
					texts = append(texts, a+b+d)
				}
			}
		}
		var sds [][]string
		sds = append(sds, nil)
		for _, n := range names {
			sds = append(sds, []string{"[" + n + "]"})
			for _, v := range vals {
				for _, v2 := range vals {
					sds = append(sds, []string{"[" + n + " k=\"" + escapeSD(v+v2) + "\"]"})
				}
			}
		}
		sds = append(sds, []string{"[a]", "[b]"}, []string{"[a b=\"\\]\"]", "[c]", "[d e=\"\"]"})
		c.Parallel(len(sds), func(i int) {
			g := c.Sub(i)
			for _, t := range texts {
				m := base
				m.elems, m.hasText, m.text = sds[i], true, t
				c.decode10(g, m)
			}
			m := base
			m.elems = sds[i]
			c.decode10(g, m)
		})
	})
	r.Case("fields", func(c *C) {
		g := c.Rand
		for p := 0; p < 192; p++ {
			m := base
			m.prio = p
			c.decode10(g, m)
		}
		for b := 33; b < 127; b++ {
			o := string([]byte{byte(b)})
			for _, v := range []string{o, o + "x", "x" + o, o + o, "-" + o} {
				m := base
				m.host = v
				c.decode10(g, m)
				m = base
				m.app = v
				c.decode10(g, m)
				m = base
				m.proc = v
				c.decode10(g, m)
				m = base
				m.msgid = v
				c.decode10(g, m)
			}
		}
		for n := 1; n <= 255; n++ {
			m := base
			m.host = strings.Repeat("h", n)
			m.app = strings.Repeat("a", min(n, 48))
			m.proc = strings.Repeat("p", min(n, 128))
			m.msgid = strings.Repeat("m", min(n, 32))
			c.decode10(g, m)
			if n <= 32 {
				m = base
				m.elems = []string{"[" + strings.Repeat("i", n) + "]", "[" + strings.Repeat("j", n) + " " + strings.Repeat("k", n) + "=\"v\"]"}
				c.decode10(g, m)
			}
		}
		for i := 0; i < r.N(20000, 300000); i++ {
			m := base
			m.ts = gStamp(g)
			c.decode10(g, m)
		}
	})
	r.Case("sizes", func(c *C) {
		sz := sizes(140000)
		c.Parallel(len(sz), func(i int) {
			g := c.Sub(i)
			m := base
			m.hasText, m.text = true, string(randBytes(g, sz[i]))
			c.decode10(g, m)
			m.elems = []string{"[big@1 v=\"" + escapeSD(string(randBytes(g, sz[i]))) + "\"]"}
			c.decode10(g, m)
			m = base
			for k := min(sz[i], 3000) / 4; k > 0; k-- {
				m.elems = append(m.elems, fmt.Sprintf("[e%d@1 n=\"%d\"]", k, k))
			}
			c.decode10(g, m)
		})
	})
}
