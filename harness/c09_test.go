package vharness

import (
	"bytes"
	"math/rand/v2"
	"strconv"
	"strings"
	"testing"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// validSeeds are messages mutations start from.
func validSeed(g *rand.Rand) []byte {
	f := framings()[0]
	switch g.IntN(6) {
	case 0:
		return []byte(pick(g, "<0>1 - - - - - -", "<13>1 1970-01-01T00:00:00Z h a p m - text", "<34>1 2003-10-11T22:14:15.003Z mymachine.example.com su - ID47 - 'su root' failed",
			"<165>1 2003-10-11T22:14:15.003Z h evntslog - ID47 [exampleSDID@32473 iut=\"3\"][examplePriority@32473 class=\"high\"] text ]", "<1>1 - - - - - [a]", "<1>1 - - - - - [a][b c=\"\\]\"] x", "", "<", "-", "[", " ", "0", "1 ", "<1>1 - - - - - "))
	case 1:
		raw, _ := tqRaw(g)
		return []byte("<1>1 - - - - - " + raw)
	}
	return []byte(randMsg(g, f, "id", 300).Want)
}

func (c *C) probeParse(in []byte, f framing, eof bool) {
	var tr syslog.Transport
	if f.Name != "" {
		tr = f.T
	}
	buf := make([]byte, len(in)+32)
	copy(buf, in)
	for i := len(in); i < len(buf); i++ {
		buf[i] = byte(0xA5 + i)
	}
	keep := string(buf)
	data := buf[:len(in)]
	var m syslog.MessageImmutable
	var rest []byte
	var err error
	what := "Parse(" + q(in) + ", " + f.Name + ", " + strconv.FormatBool(eof) + ")"
	if c.Guard(func() { m, rest, err = syslog.Parse(data, tr, eof) }) {
		return
	}
	ok := err == nil && (tr == nil || rest != nil || m.String() != "")
	if rest != nil {
		if len(rest) >= len(in) || !bytes.HasSuffix(in, rest) {
			c.Violate("%s: the rest %s is not a shorter suffix of the input", what, q(rest))
		}
	}
	if ok {
		c.Guard(func() {
			s := m.String()
			if !strings.Contains(string(in[:len(in)-len(rest)]), s) {
				c.Violate("%s: the decoded message %s is not a part of the input before the rest %s", what, q(s), q(rest))
			}
			var w bytes.Buffer
			if n, err := m.WriteTo(&w); err != nil || n != int64(len(s)) || w.String() != s {
				c.Violate("%s: WriteTo writes %s, %d, %v", what, q(w.Bytes()), n, err)
			}
			m.Priority()
			m.TimeStamp()
			m.Hostname()
			m.AppName()
			m.ProcID()
			m.MsgID()
			for _, sd := range m.StructuredData() {
				if sd == nil {
					c.Violate("%s: the structured data holds a nil element", what)
					continue
				}
				sd.Marshal5424()
				_ = sd.SDID().String()
			}
			m.StructuredData().Marshal5424()
			m.Text()
			wr := m.Writable()
			b, err := wr.Marshal5424()
			if err == nil && wr.String() != string(b) {
				c.Violate("%s: writable String and Marshal5424 disagree", what)
			}
			// what was decoded and encoded once is decoded again
			if err == nil {
				if _, _, err = syslog.Parse(b, nil, true); err == nil {
					c.Stat("reencoded_decodable", 1)
				}
			}
		})
		c.Stat("decoded_ok", 1)
	} else if err != nil {
		c.Guard(func() { _ = err.Error() })
		c.Stat("decode_errors", 1)
	} else {
		c.Stat("incomplete", 1)
	}
	if string(buf) != keep {
		c.Violate("%s: the input or the bytes behind it were modified", what)
	}
	c.Eval(true, in, f.Name, eof)
}

func (c *C) probeFraming(in []byte, f framing, eof bool) {
	buf := append(append(make([]byte, 0, len(in)+8), in...), "12345678"...)
	keep := string(buf)
	data := buf[:len(in)]
	for _, fn := range []struct {
		n string
		f func([]byte, bool) ([]byte, []byte, error)
	}{{"PrefixStrip", f.T.PrefixStrip}, {"SuffixStrip", f.T.SuffixStrip}} {
		var d, rest []byte
		if c.Guard(func() { d, rest, _ = fn.f(data, eof) }) {
			continue
		}
		if rest != nil && (len(rest) >= len(in) || !bytes.HasSuffix(in, rest)) {
			c.Violate("%s %s(%s): rest %s is not a shorter suffix", f.Name, fn.n, q(in), q(rest))
		}
		if d != nil && !bytes.Contains(in[:len(in)-len(rest)], d) {
			c.Violate("%s %s(%s): data %s is not a part of the input", f.Name, fn.n, q(in), q(d))
		}
	}
	var e []byte
	if !c.Guard(func() { e = f.T.Encode(data) }) && string(e) != f.enc(string(in)) {
		c.Violate("%s Encode(%s) = %s", f.Name, q(in), q(e))
	}
	if string(buf) != keep {
		c.Violate("%s framing functions modified the input %s or the bytes behind it", f.Name, q(in))
	}
	c.Eval(true, "framing", f.Name, in, eof)
}

func (c *C) probeSD(in []byte) {
	keep := string(in)
	c.Guard(func() {
		sd, ok := sdata.Parse(in)
		if ok {
			b, err := sd.Marshal5424()
			if err != nil {
				c.Violate("element %s is decoded but not encodable: %v", q(in), err)
			} else if sd2, ok := sdata.Parse(b); !ok {
				c.Violate("element %s is encoded as %s, which is refused", q(in), q(b))
			} else if b2, err := sd2.Marshal5424(); err != nil || string(b2) != string(b) {
				c.Violate("element %s is encoded as %s, then as %s, %v", q(in), q(b), q(b2), err)
			}
			_ = sd.SDID().String()
			sd.SDID().IsIANA()
			sd.SDID().GetPEN()
			c.Stat("elements_ok", 1)
		}
	})
	c.Guard(func() {
		sd, ok := timequality.TQ.Found(in)
		if ok {
			sd.Marshal5424()
		}
	})
	if string(in) != keep {
		c.Violate("decoding the element %s modified it", q(keep))
	}
	c.Eval(true, "sd", in)
}

func (c *C) probePrio(in []byte) {
	keep := string(in)
	c.Guard(func() {
		p := syslog.Priority(77)
		if err := p.Unmarshal5424(in); err != nil && p != 77 {
			c.Violate("priority decoder fails on %s and changes its target to %d", q(in), p)
		}
		p = 77
		if err := p.Set(string(in)); err != nil && p != 77 {
			c.Violate("Set(%s) fails and changes its target to %d", q(in), p)
		}
		_ = p.String()
	})
	if string(in) != keep {
		c.Violate("decoding the priority %s modified it", q(keep))
	}
	c.Eval(true, "prio", in)
}

// stream puts mutated messages into a framing, with broken headers at times.
func hostileStream(g *rand.Rand, f framing) []byte {
	var b []byte
	for k := 1 + g.IntN(3); k > 0; k-- {
		m := validSeed(g)
		if g.IntN(2) == 0 {
			m = mutate(g, m)
		}
		fr := []byte(f.enc(string(m)))
		if f.Term < 0 && g.IntN(4) == 0 {
			fr = append([]byte(pick(g, "0", "00", "-1", "+5", " ", "", "99999999999999999999", "9223372036854775807", "9223372036854775806", "18446744073709551616", "4294967296", "2147483648", "1e3", "0x10", "1_0", "٣", "007", "1000000", "\x00")+pick(g, " ", "", "\t", "  ")), m...)
		}
		b = append(b, fr...)
	}
	switch g.IntN(4) {
	case 0:
		b = mutate(g, b)
	case 1:
		b = b[:g.IntN(len(b)+1)]
	}
	return b
}

func TestC09(t *testing.T) {
	r := newR(t, "C09", "one evaluation = one input decoded under one transport and end-of-input flag with all accessors exercised and the input compared before and after (or one framing, element or priority decoding); distinct by input, transport and flag")
	fs := append(framings(), framing{})
	all := func(c *C, in []byte) {
		for _, f := range fs {
			for _, eof := range []bool{false, true} {
				c.probeParse(in, f, eof)
				if f.Name != "" {
					c.probeFraming(in, f, eof)
				}
			}
		}
	}
	r.Case("tiny", func(c *C) {
		// every input of up to 2 octets over all values, up to 5 over a small alphabet
		all(c, nil)
		all(c, []byte{})
		for a := 0; a < 256; a++ {
			all(c, []byte{byte(a)})
			c.probeSD([]byte{byte(a)})
			c.probePrio([]byte{byte(a)})
			c.Parallel(256, func(b int) {
				all(c, []byte{byte(a), byte(b)})
				c.probeSD([]byte{byte(a), byte(b)})
				c.probePrio([]byte{byte(a), byte(b)})
			})
		}
		alpha := []byte("[] \"\\=-a1<>\n\x00")
		n := len(alpha)
		total := 1
		for l := 1; l <= r.N(4, 5); l++ {
			total *= n
			c.Parallel(total, func(k int) {
				b := make([]byte, 0, 8)
				for x, i := k, 0; i < l; i++ {
					b = append(b, alpha[x%n])
					x /= n
				}
				c.probeSD(b)
				c.probePrio(b)
				// as the structured data of a message
				in := append([]byte("<1>1 - - - - - "), b...)
				c.probeParse(in, framing{}, true)
				c.probeParse(append(in, '\n'), fs[1], false)
			})
		}
	})
	r.Case("truncations", func(c *C) {
		// every prefix and every suffix of streams of valid messages
		c.Parallel(r.N(150, 3000), func(i int) {
			g := c.Sub(i)
			f := fs[i%3]
			var b []byte
			for k := 1 + g.IntN(2); k > 0; k-- {
				b = append(b, f.enc(f.clean(string(validSeed(g))))...)
			}
			if len(b) > 400 {
				b = b[:400]
			}
			for k := 0; k <= len(b); k++ {
				for _, eof := range []bool{false, true} {
					c.probeParse(b[:k], f, eof)
					c.probeParse(b[k:], f, eof)
				}
				c.probeParse(b[:k], framing{}, true)
			}
		})
	})
	r.Case("mutations", func(c *C) {
		c.Parallel(r.N(60000, 1500000), func(i int) {
			g := c.Sub(i)
			in := mutate(g, validSeed(g))
			c.probeParse(in, framing{}, g.IntN(2) == 0)
			all(c, in)
		})
	})
	r.Case("streams", func(c *C) {
		c.Parallel(r.N(60000, 1500000), func(i int) {
			g := c.Sub(i)
			f := fs[g.IntN(3)]
			in := hostileStream(g, f)
			eof := g.IntN(2) == 0
			c.probeParse(in, f, eof)
			c.probeFraming(in, f, eof)
			// successive decoding of the whole stream always advances
			rest := in
			for n := 0; ; n++ {
				var next []byte
				if c.Guard(func() { _, next, _ = syslog.Parse(rest, f.T, eof) }) {
					return
				}
				if next == nil {
					break
				}
				if len(next) >= len(rest) {
					c.Violate("decoding %s with %s does not advance", q(rest), f.Name)
					return
				}
				rest = next
			}
			c.Sample("stream "+f.Name, "%s", q(in))
		})
	})
	r.Case("random", func(c *C) {
		c.Parallel(r.N(40000, 800000), func(i int) {
			g := c.Sub(i)
			all(c, randBytes(g, pickSize(g, 600)))
			c.probeSD(randBytes(g, pickSize(g, 100)))
			c.probeSD(mutate(g, []byte(sdElementRaw(g))))
			raw, _ := tqRaw(g)
			c.probeSD(mutate(g, []byte(raw)))
			c.probePrio(mutate(g, []byte(pick(g, "<1>1", "<191>1", "daemon.warning", "<999>1", "<256>1", "local7.debug"))))
		})
	})
	r.Case("large", func(c *C) {
		for _, n := range []int{1000, 65535, 65536, 65537, 300000, 2000000} {
			for _, unit := range []string{"[", "]", "\"", "\\", " ", "9", "0", "-", "[a b=\"c\"]", "<1>1 - - - - - -\n", "a", "\x00"} {
				in := bytes.Repeat([]byte(unit), n/len(unit))
				all(c, in)
				in = append([]byte("<1>1 - - - - - "), in...)
				all(c, in)
				in = append([]byte("<1>1 - - - - - [a b=\""), in...)
				all(c, in)
			}
		}
	})
}
