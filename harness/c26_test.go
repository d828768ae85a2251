package vharness

// C26: the tools for authors of structured data tell right from wrong.

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
	"testing"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// planSD is a value whose codec does what a plan says. It holds a slice: it is not comparable with ==.
type planSD struct {
	List []string
	p    *codecPlan
}

type codecPlan struct {
	found bool
	loose bool // a value comes with a refusal
	obj   sdata.StructuredData
	enc   string
	err   error
	seen  []string // what Found is asked
}

func (v planSD) SDID() sdata.SDID { return timequality.TQ }
func (v planSD) Marshal5424() ([]byte, error) {
	if v.p.err != nil {
		return nil, v.p.err
	}
	return []byte(v.p.enc), nil
}

type planID struct{ p *codecPlan }

func (planID) String() string { return "plan@32473" }
func (d planID) Found(b []byte) (sdata.StructuredData, bool) {
	d.p.seen = append(d.p.seen, string(b))
	if !d.p.found && !d.p.loose {
		return nil, false
	}
	return d.p.obj, d.p.found
}

func TestC26(t *testing.T) {
	r := newR(t, "C26", "one evaluation = one run of a test helper with a codec whose faults are known, one refused destination, or one error text; distinct by helper and content")

	r.Case("helpers", func(c *C) {
		e1, e2 := errors.New("one"), fmt.Errorf("two")
		texts := func(g *rand.Rand) string {
			return pick(g, "", "[a b=\"c\"]", "[plan@32473]", randText(g, 60), sdElementRaw(g))
		}
		c.Parallel(c.N(4000, 60000), func(i int) {
			g := c.Sub(i)
			orig, enc := texts(g), texts(g)
			list := []string{texts(g)}
			p := &codecPlan{found: g.IntN(4) > 0, loose: g.IntN(2) == 0, enc: enc, err: pick(g, nil, nil, nil, e1, e2)}
			made := planSD{List: list, p: p}
			p.obj = made
			want := planSD{List: append([]string(nil), list...), p: p}
			okObj := true
			switch g.IntN(5) {
			case 0:
				want.List = append(want.List, "more")
				okObj = false
			case 1:
				want.List = []string{list[0] + "x"}
				okObj = false
			}
			wantEnc := enc
			switch g.IntN(6) {
			case 0:
				wantEnc += pick(g, " ", "x", "\x00", "\n")
			case 1:
				wantEnc = " " + enc
			case 2:
				if enc != "" && strings.ToUpper(enc) != enc {
					wantEnc = strings.ToUpper(enc)
				}
			case 3:
				if enc != "" {
					wantEnc = enc[:len(enc)-1]
				}
			}
			wantErr := pick(g, nil, e1, e2)
			id := planID{p}
			judge := func(what string, t sdata.SDTest, good bool) {
				c.Guard(func() {
					err := t.DoTest(id)
					if (err == nil) != good {
						c.Violate("%s: DoTest gives %v for a codec which is right: %v (found %v, same value %v, encoding %s for %s, error %v for %v)", what, err, good, p.found, okObj, q(enc), q(wantEnc), p.err, wantErr)
					}
					if err != nil && err.Error() == "" {
						c.Violate("%s: an error without text", what)
					}
				})
				c.Eval(true, what, i)
			}
			judge("TestValid", sdata.TestValid(orig, want, wantEnc), p.found && okObj && p.err == nil && wantEnc == enc)
			judge("TestInvalidUnmarshal", sdata.TestInvalidUnmarshal(orig), !p.found)
			judge("TestInvalidMarshal", sdata.TestInvalidMarshal(made, wantErr), wantErr == p.err)
			// whatever is told to be the value
			p.obj = pick[sdata.StructuredData](g, nil, nil, (*planSD)(nil), made, planSD{p: p})
			judge("TestInvalidUnmarshal with another value", sdata.TestInvalidUnmarshal(orig), !p.found)
			if p.obj == nil {
				judge("TestValid without value", sdata.TestValid(orig, want, wantEnc), false)
			}
			for k, s := range p.seen {
				if s != orig {
					c.Violate("the helpers ask for %s (time %d), not %s", q(s), k, q(orig))
				}
			}
		})
	})
	// the helpers with the codecs of the library
	r.Case("library-codecs", func(c *C) {
		c.Parallel(c.N(2000, 30000), func(i int) {
			g := c.Sub(i)
			raw, _ := tqRaw(g)
			obj, ok := timequality.TQ.Found([]byte(raw))
			if ok {
				b, err := obj.Marshal5424()
				if err != nil {
					c.Violate("%s is found but not encoded: %v", q(raw), err)
					return
				}
				if err := sdata.TestValid(raw, obj, string(b)).DoTest(timequality.TQ); err != nil {
					c.Violate("TestValid(%s): %v", q(raw), err)
				}
				if err := sdata.TestValid(raw, obj, string(b)+" ").DoTest(timequality.TQ); err == nil {
					c.Violate("TestValid(%s) accepts the encoding %s with a space behind", q(raw), q(b))
				}
				other := timequality.TimeQuality{}
				if b2, err := other.Marshal5424(); err != nil || string(b2) != string(b) {
					if err := sdata.TestValid(raw, other, string(b)).DoTest(timequality.TQ); err == nil {
						c.Violate("TestValid(%s) accepts another value", q(raw))
					}
				}
			}
			if err := sdata.TestInvalidUnmarshal(raw).DoTest(timequality.TQ); (err == nil) != !ok {
				c.Violate("TestInvalidUnmarshal(%s): %v although found is %v", q(raw), err, ok)
			}
			c.Eval(true, raw)
		})
	})
	r.Case("unmarshal", func(c *C) {
		var nilStruct *struct{ A int }
		var nilIface error
		n := 0
		for _, data := range [][]byte{nil, {}, []byte("[a b=\"c\"]"), []byte("["), []byte("\xff\x00")} {
			for _, v := range []any{nil, nilIface, nilStruct, 1, "x", struct{ A int }{}, []string{"x"}, map[string]string{}, map[string]string(nil), func() {}, make(chan int), (*int)(nil), (**int)(nil), (*any)(nil), errors.New, [3]int{}, reflect.ValueOf(1), 1.5, complex(1, 1), timequality.TimeQuality{}, timequality.TQ} {
				c.Guard(func() {
					err := sdata.UnmarshalSD(data, v)
					var want *sdata.InvalidUnmarshalError
					if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr && !rv.IsNil() {
						return
					}
					if !errors.As(err, &want) {
						c.Violate("UnmarshalSD to %T gives %v", v, err)
						return
					}
					if want.Type != reflect.TypeOf(v) {
						c.Violate("UnmarshalSD to %T tells the type %v", v, want.Type)
					}
					text := err.Error()
					if v != nil && !strings.Contains(text, reflect.TypeOf(v).String()) {
						c.Violate("UnmarshalSD to %T gives %q", v, text)
					}
					if v != nil && strings.Contains(text, "non-pointer") == (reflect.TypeOf(v).Kind() == reflect.Ptr) {
						c.Violate("UnmarshalSD to %T gives %q", v, text)
					}
				})
				n++
				c.Eval(true, string(data), n)
			}
			for _, v := range []any{new(int), new(string), new(struct{ A string }), new(any), &nilStruct, new([]byte), new(map[string]string), new(timequality.TimeQuality)} {
				before := fmt.Sprintf("%#v", reflect.ValueOf(v).Elem())
				c.Guard(func() {
					if err := sdata.UnmarshalSD(data, v); err != nil {
						var iu *sdata.InvalidUnmarshalError
						if errors.As(err, &iu) {
							c.Violate("UnmarshalSD refuses a pointer to %T: %v", v, err)
						}
						if after := fmt.Sprintf("%#v", reflect.ValueOf(v).Elem()); after != before && len(data) == 0 {
							c.Violate("UnmarshalSD of nothing changes %s into %s", before, after)
						}
					}
				})
				n++
				c.Eval(true, string(data), n)
			}
		}
	})
	r.Case("error-texts", func(c *C) {
		types := []reflect.Type{reflect.TypeOf(1), reflect.TypeOf(""), reflect.TypeOf(struct{ A int }{}), reflect.TypeOf((*error)(nil)), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(func() {})}
		say := func(what string, err error, parts ...string) {
			c.Guard(func() {
				s := err.Error()
				for _, p := range parts {
					if !strings.Contains(s, p) {
						c.Violate("%s: the text %q does not tell %q", what, s, p)
					}
				}
			})
			c.Eval(true, what, fmt.Sprint(parts))
		}
		for _, ty := range types {
			say("UnsupportedTypeError", &sdata.UnsupportedTypeError{Type: ty}, ty.String())
			say("MissingFieldError", &sdata.MissingFieldError{Type: ty, Field: "field%d"}, ty.String(), "field%d")
			say("MarshalerError", &sdata.MarshalerError{Type: ty, Err: errors.New("cause %s")}, ty.String(), "cause %s")
			say("InvalidUnmarshalError", &sdata.InvalidUnmarshalError{Type: ty}, ty.String())
		}
		say("InvalidUnmarshalError", &sdata.InvalidUnmarshalError{}, "nil")
		for _, v := range []any{1, "x", nil, struct{}{}, []int{1}} {
			say("InvalidValueError", &sdata.InvalidValueError{Value: reflect.ValueOf(v)}, "unsupported")
		}
		for i := 0; i < c.N(300, 3000); i++ {
			b := randBytes(c.Rand, pickSize(c.Rand, 300))
			pos := pick(c.Rand, 0, 1, -1, len(b), len(b)+10, 1<<40)
			say("ParseError", syslog.ParseError{Buffer: b, Pos: pos, Message: "what%d"}, "what%d", strconv.Itoa(pos), strconv.Quote(string(b)))
			say("ParseError", &syslog.ParseError{Buffer: b, Pos: pos, Message: "what%d"}, "what%d")
		}
		// the errors of the package are different, and told by their texts
		all := []error{syslog.ErrBufferClose, syslog.ErrNoConnection, syslog.ErrPos0, syslog.ErrPosNotFound, syslog.ErrImpossible, syslog.ErrInvalidNetwork, syslog.ErrInvalidAddress, syslog.ErrEmptyNetworkAddress, syslog.ErrTransportIncomplete, syslog.ErrTransportTooLong, syslog.ErrTransportNoHeader, syslog.ErrTransportInvHeader}
		for i, a := range all {
			for j, b := range all {
				if i != j && (errors.Is(a, b) || a.Error() == b.Error()) {
					c.Violate("the errors %v and %v are the same", a, b)
				}
			}
			say("package error", a, " ")
		}
	})
}
