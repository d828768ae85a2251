package vharness

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"
	"testing"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// lenientElement tells whether s has at least the structure of an element: brackets, header,
// name="value" parameters behind spaces, escaped ] in values. Name alphabets and lengths are not judged.
func lenientElement(s string) bool {
	if len(s) < 3 || s[0] != '[' || s[len(s)-1] != ']' {
		return false
	}
	name := func(i int) int {
		for i < len(s) && s[i] > ' ' && s[i] != '=' && s[i] != ']' && s[i] != '"' && s[i] != 127 {
			i++
		}
		return i
	}
	i := name(1)
	if i == 1 {
		return false
	}
	for {
		if i >= len(s) {
			return false
		}
		if s[i] == ']' {
			return i == len(s)-1
		}
		if s[i] != ' ' {
			return false
		}
		for i < len(s) && s[i] == ' ' {
			i++
		}
		j := name(i)
		if j == i || j+1 >= len(s) || s[j] != '=' || s[j+1] != '"' {
			return false
		}
		i = j + 2
		for {
			if i >= len(s) || s[i] == ']' {
				return false
			}
			if s[i] == '"' {
				break
			}
			if s[i] == '\\' {
				i++
			}
			i++
		}
		i++
	}
}

// refTQ tells whether an element is a timeQuality element: 1 yes, 0 no, -1 not judged.
func refTQ(s string) int {
	e, n, err := refElement(s)
	if err != nil || n != len(s) {
		if lenientElement(s) {
			return -1
		}
		return 0
	}
	if e.ID != "timeQuality" {
		return 0
	}
	tz, sync, acc := false, false, false
	seen := map[string]bool{}
	unsure := false
	for _, p := range e.Params {
		if seen[p.K] {
			unsure = true
		}
		seen[p.K] = true
		switch p.K {
		case "tzKnown", "isSynced":
			if p.V != "0" && p.V != "1" {
				return 0
			}
			if p.K == "tzKnown" {
				tz = p.V == "1"
			} else {
				sync = p.V == "1"
			}
		case "syncAccuracy":
			digits := strings.TrimLeft(p.V, "+-")
			if digits == "" || strings.Trim(digits, "0123456789") != "" || len(p.V)-len(digits) > 1 {
				return 0
			}
			if len(digits) > 15 || p.V[0] == '+' || (digits[0] == '0' && len(digits) > 1) || p.V == "-0" {
				unsure = true
			}
			acc = true
		default:
			return 0
		}
	}
	if unsure {
		return -1
	}
	if (sync && !tz) || (acc && !sync) {
		return 0
	}
	return 1
}

// regID is a registered structured-data type claiming one id.
type regID struct {
	id  string
	gen int
}
type regSD struct {
	id  regID
	raw string
}

func (d regID) String() string               { return d.id }
func (d regID) IsIANA() bool                 { return false }
func (d regID) GetPEN() uint64               { return 1 }
func (d regID) MarshalText() ([]byte, error) { return []byte(d.id), nil }
func (d regID) Found(b []byte) (sdata.StructuredData, bool) {
	if s := string(b); strings.HasPrefix(s, "["+d.id+" ") || s == "["+d.id+"]" {
		return regSD{d, s}, true
	}
	return nil, false
}

// regFam is a registered type which decides on its own what it claims, whatever its name.
type regFam struct {
	name  string
	claim func(string) bool
}
type regFamSD struct {
	id  *regFam
	raw string
}

func (d *regFam) String() string               { return d.name }
func (d *regFam) IsIANA() bool                 { return true }
func (d *regFam) GetPEN() uint64               { return 0 }
func (d *regFam) MarshalText() ([]byte, error) { return []byte(d.name), nil }
func (d *regFam) Found(b []byte) (sdata.StructuredData, bool) {
	if !d.claim(string(b)) {
		return nil, false
	}
	return regFamSD{d, string(b)}, true
}
func (s regFamSD) SDID() sdata.SDID             { return s.id }
func (s regFamSD) Marshal5424() ([]byte, error) { return []byte(s.raw), nil }

func (s regSD) SDID() sdata.SDID             { return s.id }
func (s regSD) Marshal5424() ([]byte, error) { return []byte(s.raw), nil }

func (c *C) unknownElement(raw string) {
	in := []byte(raw)
	var sd sdata.StructuredData
	var ok bool
	if c.Guard(func() { sd, ok = sdata.Parse(in) }) {
		return
	}
	if string(in) != raw {
		c.Violate("decoding %s changed the input to %s", q(raw), q(in))
	}
	if !ok {
		c.Violate("valid element refused: %s", q(raw))
		return
	}
	var out []byte
	var err error
	if c.Guard(func() { out, err = sd.Marshal5424() }) {
		return
	}
	if err != nil || string(out) != raw {
		c.Violate("element %s is encoded as %s, %v", q(raw), q(out), err)
	}
	if sd.SDID() == nil || sd.SDID().String() == "" {
		c.Violate("element %s has no SDID", q(raw))
	}
}

func TestC16(t *testing.T) {
	r := newR(t, "C16", "one evaluation = one element decoded through the registry and its encoding compared byte for byte, or one malformed element that must be refused, or one claimed element whose decoding type is compared; distinct by element")

	valid := func(c *C, g *rand.Rand) string {
		for {
			raw := sdElementRaw(g)
			if g.IntN(20) == 0 { // a timeQuality the type does not claim
				raw = "[timeQuality " + pick(g, `tzKnown="2"`, `isSynced="1"`, `x="y"`, `tzKnown="1" syncAccuracy="3"`, `tzKnown=""`, `tzKnown="1" isSynced="1" syncAccuracy="x"`) + "]"
			}
			if g.IntN(10) == 0 { // duplicates
				n, v := sdName(g, 8), sdValueRaw(g, 20)
				raw = raw[:len(raw)-1] + " " + n + "=\"" + v + "\" " + n + "=\"" + sdValueRaw(g, 10) + "\" " + n + "=\"" + v + "\"]"
			}
			if refTQ(raw) == 0 && !strings.HasPrefix(raw, "[reg") {
				return raw
			}
		}
	}
	// elements decoded before and after a type claims them; first, nothing else is decoded yet
	r.Case("registered-later", func(c *C) {
		for i := 0; i < r.N(200, 1000); i++ {
			g := c.Sub(1000000 + i)
			id := fmt.Sprintf("reg-later%d@1", i)
			raws := []string{"[" + id + "]", "[" + id + " a=\"" + sdValueRaw(g, 30) + "\"]", "[" + id + " b=\"" + sdValueRaw(g, 30) + "\" b=\"\"]"}
			early, _, err := syslog.Parse([]byte("<1>1 - - - - - "+raws[0]+raws[1]+" x"), nil, false)
			if err != nil {
				c.Violate("message with %s%s refused: %v", raws[0], raws[1], err)
				continue
			}
			before := early.StructuredData()
			for k := 1 + g.IntN(3); k > 0; k-- {
				for _, raw := range raws[:2] {
					c.unknownElement(raw)
				}
			}
			d := regID{id, i}
			if i%2 == 0 {
				sdata.Register(d)
			} else {
				sdata.RegisterGroup(d)
			}
			for _, raw := range raws {
				sd, ok := sdata.Parse([]byte(raw))
				if !ok || !reflect.DeepEqual(sd, regSD{d, raw}) {
					c.Violate("element %s, decoded before its type was registered, decodes to %#v, %v afterwards", q(raw), sd, ok)
				}
				m, _, err := syslog.Parse([]byte("<1>1 - - - - - "+raw+" x"), nil, false)
				if err != nil {
					c.Violate("message with %s refused: %v", raw, err)
				} else if l := m.StructuredData(); len(l) != 1 || !reflect.DeepEqual(l[0], regSD{d, raw}) {
					c.Violate("message with %s, decoded before its type was registered: %#v", q(raw), l)
				}
				c.Eval(true, "later", raw)
			}
			if s := before.String(); s != raws[0]+raws[1] {
				c.Violate("the elements %s%s, decoded before their type was registered, became %s", raws[0], raws[1], q(s))
			}
			c.Stat("registered_later", 1)
		}
	})
	r.Case("identity", func(c *C) {
		for _, raw := range []string{"[a]", "[a b=\"\"]", "[x@1]", "[a b=\"c\"]", "[ab]", "[abc]", "[abcd]", "[abcde]", "[a b=\"\\]\"]", "[a b=\"\\\"\"]", "[a b=\"\\\\\"]", "[a b=\"\\x\"]", "[timeQualit]", "[TimeQuality]", "[timeQuality@1]",
			"[timeQualityX]", "[unknown]", "[a b=\"c\" b=\"c\"]", "[[ [=\"[\"]", "[- -=\"-\"]", "[\\ \\=\"\"]"} {
			c.unknownElement(raw)
			c.Eval(true, raw)
		}
		c.Parallel(r.N(60000, 1000000), func(i int) {
			g := c.Sub(i)
			raw := valid(c, g)
			c.unknownElement(raw)
			c.Eval(true, raw)
			c.Sample("identity", "%s", q(raw))
		})
		c.StatMax("identity_max", 1)
	})
	r.Case("long", func(c *C) {
		for _, n := range sizes(70000) {
			raw := "[big@1 v=\"" + strings.Repeat("x", n) + "\" w=\"" + strings.Repeat("\\]", n/8) + "\"]"
			c.unknownElement(raw)
			c.Eval(true, raw)
		}
		raw := "[many@1"
		for i := 0; i < 3000; i++ {
			raw += fmt.Sprintf(" p%d=\"%d\"", i%700, i)
		}
		c.unknownElement(raw + "]")
		c.Eval(true, raw)
	})
	r.Case("malformed", func(c *C) {
		c.Parallel(r.N(60000, 1000000), func(i int) {
			g := c.Sub(i)
			b := []byte(valid(c, g))
			for k := 1 + g.IntN(2); k > 0; k-- {
				p := g.IntN(len(b) + 1)
				switch g.IntN(4) {
				case 0:
					if p < len(b) {
						b = append(b[:p:p], b[p+1:]...)
					}
				case 1:
					b = append(b[:p:p], append([]byte(pick(g, "[", "]", "\"", "\\", " ", "=", "x", "\n", "\x7f")), b[p:]...)...)
				case 2:
					if p < len(b) {
						b[p] = pick(g, byte('['), ']', '"', '\\', ' ', '=', 'x', 0, 127)
					}
				case 3:
					b = b[:p]
				}
			}
			raw := string(b)
			if _, n, err := refElement(raw); err == nil && n == len(raw) {
				if refTQ(raw) == 0 && !strings.HasPrefix(raw, "[reg") {
					c.unknownElement(raw)
				}
				c.Eval(true, raw)
				return
			}
			var ok bool
			if c.Guard(func() { _, ok = sdata.Parse(b) }) {
				return
			}
			if ok && !lenientElement(raw) {
				c.Violate("malformed element accepted: %s", q(raw))
			}
			if !lenientElement(raw) {
				c.Stat("malformed_observed", 1)
			}
			c.Eval(true, raw)
			c.Sample("malformed", "%s", q(raw))
		})
	})
	r.Case("registered", func(c *C) {
		const n = 150
		for i := 0; i < n; i++ {
			d := regID{fmt.Sprintf("reg%d@1", i), 1}
			switch i % 3 {
			case 0:
				if got := sdata.Register(d); got == nil {
					c.Violate("Register returned nil")
				}
			case 1:
				sdata.RegisterGroup(d, regID{fmt.Sprintf("reg%d-b@1", i), 1})
			case 2:
				sdata.RegisterGroup(d, regID{d.id, 2}, d)
			}
			if i%5 == 0 { // known ones before, between and behind new ones
				sdata.RegisterGroup(regID{d.id, 5}, regID{fmt.Sprintf("reg%d@1", n+2*(i/5)), 1}, regID{d.id, 6}, regID{"reg0@1", 7}, regID{fmt.Sprintf("reg%d@1", n+2*(i/5)+1), 1}, regID{d.id, 8})
			}
			// the same id again, alone and in a group
			sdata.Register(regID{d.id, 3})
			sdata.RegisterGroup(regID{d.id, 4})
		}
		sdata.RegisterGroup()
		sdata.Register(sdata.GenericSD(sdStrMap{}).SDID())
		var wg sync.WaitGroup
		for w := 0; w < 6; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				g := c.Sub(w)
				for k := 0; k < r.N(4000, 60000); k++ {
					if k%500 == 0 {
						sdata.Register(regID{fmt.Sprintf("reg-late%d-%d@1", w, k), 1})
					}
					i := g.IntN(n + n/5*2)
					id := fmt.Sprintf("reg%d@1", i)
					raw := "[" + id + "]"
					if g.IntN(2) == 0 {
						raw = "[" + id + " a=\"" + sdValueRaw(g, 30) + "\"]"
					}
					if k%100 == 99 { // a large one
						raw = "[" + id + " a=\"" + strings.Repeat(sdValueRaw(g, 30)+"x", pickSize(g, 5000)) + "\"" + strings.Repeat(" b=\"\"", g.IntN(3)*g.IntN(300)) + "]"
					}
					var sd sdata.StructuredData
					var ok bool
					if c.Guard(func() { sd, ok = sdata.Parse([]byte(raw)) }) {
						return
					}
					want := regSD{regID{id, 1}, raw}
					if !ok || !reflect.DeepEqual(sd, want) {
						c.Violate("element %s of a registered type decodes to %#v, %v; want %#v", q(raw), sd, ok, want)
						return
					}
					c.Eval(true, raw)
					// as part of a decoded message
					if k%10 == 0 {
						other := valid(c, g)
						m, _, err := syslog.Parse([]byte("<1>1 - - - - - "+raw+other+raw), nil, false)
						if err != nil {
							c.Violate("message with %s%s%s refused: %v", raw, other, raw, err)
							return
						}
						l := m.StructuredData()
						if len(l) != 3 || !reflect.DeepEqual(l[0], want) || !reflect.DeepEqual(l[2], want) || l.String() != raw+other+raw {
							c.Violate("message elements decode to %#v, want %s%s%s", l, raw, other, raw)
						}
					}
					// other elements are not affected
					raw = valid(c, g)
					c.unknownElement(raw)
					c.Eval(true, raw)
				}
			}()
		}
		wg.Wait()
		// types which claim other identifiers than their name, several, or only some of their own
		fams := []*regFam{
			{"Reg Family", func(s string) bool { return strings.HasPrefix(s, "[regfam-") }},
			{"regpart@1", func(s string) bool { return strings.HasPrefix(s, "[regpart@1 ") && strings.Contains(s, " a=\"") }},
			{"REGCASE", func(s string) bool { return strings.HasPrefix(s, "[regcase ") || s == "[regcase]" }},
			{"", func(s string) bool { return strings.HasPrefix(s, "[regnoname]") }},
			{"reglong", func(s string) bool { return strings.HasPrefix(s, "[reglong") && len(s) > 500 }},
			{"a", func(s string) bool { return strings.HasPrefix(s, "[regother") }},
			{"timeQuality", func(s string) bool { return strings.HasPrefix(s, "[regtime") }},
			{"regother", func(s string) bool { return s == "[regpart@1]" }},
			{"regshort", func(s string) bool { return strings.HasPrefix(s, "[reglong") && len(s) < 30 }},
		}
		for k, d := range fams {
			if k%2 == 0 {
				sdata.Register(d)
			} else {
				sdata.RegisterGroup(regID{"reg0@1", 1}, d)
			}
		}
		for i := 0; i < r.N(4000, 60000); i++ {
			g := c.Sub(100 + i)
			raw := "[" + pick(g, "regfam-"+sdName(g, 10), "regfam", "regpart@1", "regcase", "REGCASE", "regnoname", "reglong", "regother", "regotherwise", "a", "regtime", "regpart@12", "regfam-")
			for k := g.IntN(3); k > 0; k-- {
				raw += " " + pick(g, "a", "b", "a", "cc") + "=\"" + sdValueRaw(g, pick(g, 10, 600)) + "\""
			}
			raw += "]"
			if _, n, err := refElement(raw); err != nil || n != len(raw) {
				continue
			}
			var claims []*regFam
			for _, d := range fams {
				if d.claim(raw) {
					claims = append(claims, d)
				}
			}
			if len(claims) == 0 {
				c.unknownElement(raw)
			} else {
				sd, ok := sdata.Parse([]byte(raw))
				if x, is := sd.(regFamSD); !ok || !is || x.id != claims[0] || x.raw != raw {
					c.Violate("element %s, which the registered type %q claims, decodes to %#v, %v", q(raw), claims[0].name, sd, ok)
				}
				m, _, err := syslog.Parse([]byte("<1>1 - - - - - "+raw+" x"), nil, false)
				if err != nil {
					c.Violate("message with %s refused: %v", q(raw), err)
				} else if l := m.StructuredData(); len(l) != 1 || l[0] != sdata.StructuredData(regFamSD{claims[0], raw}) {
					c.Violate("message with %s, which the registered type %q claims: %#v", q(raw), claims[0].name, l)
				}
			}
			c.Eval(true, "family", raw, len(claims))
			if tq, _ := tqRaw(g); refTQ(tq) > 0 {
				if sd, ok := sdata.Parse([]byte(tq)); !ok || reflect.TypeOf(sd) != reflect.TypeOf(timequality.TimeQuality{}) {
					c.Violate("%s decodes to %#v, %v", q(tq), sd, ok)
				}
			}
		}
		// a generic type knows its identifier without parameters
		for _, raw := range []string{"[strMap@1]", "[strMap@1 a=\"b\"]", "[strMap@12]", "[strMap@]", "[strMap@1x y=\"\"]"} {
			c.unknownElement(raw)
			c.Eval(true, "generic", raw)
		}
		c.Stat("registered_types", n)
	})
}
