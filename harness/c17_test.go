package vharness

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"testing"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

func tqEqual(a, b timequality.TimeQuality) bool {
	if a.TzKnown != b.TzKnown || a.IsSynced != b.IsSynced || (a.SyncAccuracy == nil) != (b.SyncAccuracy == nil) {
		return false
	}
	return a.SyncAccuracy == nil || *a.SyncAccuracy == *b.SyncAccuracy
}

func TestC17(t *testing.T) {
	r := newR(t, "C17", "one evaluation = one timeQuality value encoded and decoded again, or one element offered to the timeQuality decoder and to the registry and compared with an independent recogniser; distinct by value or element")

	// elements decoded before: what is decoded later does not change them
	type heldTQ struct {
		got  timequality.TimeQuality
		want string
	}
	var held []heldTQ
	value := func(c *C, v timequality.TimeQuality) {
		consistent := (!v.IsSynced || v.TzKnown) && (v.SyncAccuracy == nil || v.IsSynced)
		want := "[timeQuality"
		if v.TzKnown {
			want += ` tzKnown="1"`
		}
		if v.IsSynced {
			want += ` isSynced="1"`
		}
		if v.SyncAccuracy != nil {
			want += ` syncAccuracy="` + strconv.Itoa(*v.SyncAccuracy) + `"`
		}
		want += "]"
		var b []byte
		var err error
		if c.Guard(func() { b, err = v.Marshal5424() }) {
			return
		}
		c.Eval(true, want, consistent)
		if v.IsValid() != consistent {
			c.Violate("IsValid of %s says %v", want, v.IsValid())
		}
		if !consistent {
			if err == nil || len(b) != 0 {
				c.Violate("inconsistent value encoded as %s, %v", q(b), err)
			}
			if mb, merr := syslog.EmptyMessage().StructuredData(v).Marshal5424(); merr == nil || len(mb) != 0 {
				c.Violate("message with an inconsistent timeQuality encoded as %s", q(mb))
			}
			return
		}
		if err != nil || string(b) != want {
			c.Violate("encoded as %s, %v; want %s", q(b), err, q(want))
			return
		}
		c.Sample("value", "%s", want)
		if v.SDID() != timequality.TQ {
			c.Violate("SDID of %s is not timeQuality", want)
		}
		for _, f := range []func([]byte) (sdata.StructuredData, bool){timequality.TQ.Found, sdata.Parse} {
			sd, ok := f(b)
			got, is := sd.(timequality.TimeQuality)
			if !ok || !is || !tqEqual(got, v) {
				c.Violate("%s decodes to %#v, %v", want, sd, ok)
			} else if len(held) < 20000 {
				held = append(held, heldTQ{got, want})
			}
		}
		if string(b) != want {
			c.Violate("encoding %s changed to %s while it was decoded", want, q(b))
		}
		// through a message
		m, _, err := syslog.Parse([]byte("<1>1 - - - - - "+want+" x"), nil, true)
		if err != nil {
			c.Violate("message with %s: %v", want, err)
			return
		}
		if l := m.StructuredData(); len(l) != 1 || l.String() != want {
			c.Violate("message with %s has elements %s", want, l)
		}
	}
	r.Case("values", func(c *C) {
		accs := []*int{nil}
		add := func(n int) { accs = append(accs, &n) }
		for _, n := range []int{0, 1, -1, 9, -9, 10, -10, 11, 99, 100, 101, 999, 1000, 1001, 60000000, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1} {
			add(n)
		}
		for n := 1; n > 0 && n < 1<<62; n *= 2 {
			add(n)
			add(-n)
			add(n - 1)
		}
		for n := 10; n < 1e18; n *= 10 {
			add(n)
			add(n - 1)
			add(-n)
		}
		for i := 0; i < r.N(3000, 100000); i++ {
			add(int(c.Rand.Uint64() >> c.Rand.IntN(64)))
		}
		for mask := 0; mask < 4; mask++ {
			for _, a := range accs {
				value(c, timequality.TimeQuality{TzKnown: mask&1 != 0, IsSynced: mask&2 != 0, SyncAccuracy: a})
			}
		}
		for _, h := range held {
			b, err := h.got.Marshal5424()
			c.Eval(false, "")
			if err != nil || string(b) != h.want {
				c.Violate("%s was decoded and became %s, %v when other elements were decoded", h.want, q(b), err)
				break
			}
		}
		c.Stat("values_kept_while_others_are_decoded", int64(len(held)))
	})
	element := func(c *C, raw string) {
		in := []byte(raw)
		var sd, sd2 sdata.StructuredData
		var ok, ok2 bool
		if c.Guard(func() { sd, ok = timequality.TQ.Found(in) }) {
			return
		}
		if c.Guard(func() { sd2, ok2 = sdata.Parse(in) }) {
			return
		}
		if string(in) != raw {
			c.Violate("decoding changed the input %s", q(raw))
		}
		want := refTQ(raw)
		_, is := sd.(timequality.TimeQuality)
		_, is2 := sd2.(timequality.TimeQuality)
		c.Eval(true, raw)
		switch {
		case ok != is || (ok2 && is2) != ok:
			c.Violate("element %s: decoder says %v (%T), registry says %v (%T)", q(raw), ok, sd, ok2, sd2)
		case want == 1 && !ok:
			c.Violate("timeQuality element not recognised: %s", q(raw))
		case want == 0 && ok:
			c.Violate("element taken for timeQuality: %s", q(raw))
		case want == 0 && ok2:
			if b, err := sd2.Marshal5424(); err != nil || (string(b) != raw && refStrict(raw)) {
				c.Violate("unclaimed element %s encodes as %s, %v", q(raw), q(b), err)
			}
		}
		if ok && want == 1 {
			c.Stat("recognised", 1)
			e, _, _ := refElement(raw)
			exp := timequality.TimeQuality{}
			for _, p := range e.Params {
				switch p.K {
				case "tzKnown":
					exp.TzKnown = p.V == "1"
				case "isSynced":
					exp.IsSynced = p.V == "1"
				case "syncAccuracy":
					n, _ := strconv.Atoi(p.V)
					exp.SyncAccuracy = &n
				}
			}
			if !tqEqual(exp, sd.(timequality.TimeQuality)) {
				c.Violate("element %s decodes to %#v", q(raw), sd)
			}
		} else if want == 0 {
			c.Stat("not_timequality", 1)
		}
	}
	names := []string{"tzKnown", "isSynced", "syncAccuracy", "tzknown", "x"}
	values := []string{"0", "1", "", "2", "10", "-1", "60000000", "a", "01", "1 ", "\\\""}
	r.Case("elements", func(c *C) {
		// all lists of up to two parameters, sampled beyond
		var pairs []string
		for _, n := range names {
			for _, v := range values {
				pairs = append(pairs, " "+n+"=\""+v+"\"")
			}
		}
		element(c, "[timeQuality]")
		for _, a := range pairs {
			element(c, "[timeQuality"+a+"]")
			for _, b := range pairs {
				element(c, "[timeQuality"+a+b+"]")
			}
		}
		good := []string{` tzKnown="0"`, ` tzKnown="1"`, ` isSynced="0"`, ` isSynced="1"`, ` syncAccuracy="5"`, ` syncAccuracy="0"`, ` syncAccuracy="-3"`}
		for _, a := range good {
			for _, b := range good {
				for _, d := range good {
					element(c, "[timeQuality"+a+b+d+"]")
					element(c, "[timeQuality"+a+b+d+` z="1"]`)
					element(c, "[timeQualitY"+a+b+d+"]")
					element(c, "[timeQualityX"+a+b+d+"]")
					element(c, "[timeQuality@1"+a+b+d+"]")
				}
			}
		}
	})
	r.Case("mutations", func(c *C) {
		c.Parallel(r.N(40000, 600000), func(i int) {
			g := c.Sub(i)
			raw, _ := tqRaw(g)
			element(c, raw)
			b := []byte(raw)
			for k := 1 + g.IntN(3); k > 0; k-- {
				b = mutate(g, b)
			}
			element(c, string(b))
		})
		raw := `[timeQuality tzKnown="1" isSynced="1" syncAccuracy="60000000"]`
		for i := 0; i <= len(raw); i++ {
			element(c, raw[:i])
			element(c, raw[i:])
			element(c, raw[:i]+"]")
			for b := 0; b < 256; b++ {
				if i < len(raw) {
					element(c, raw[:i]+string([]byte{byte(b)})+raw[i+1:])
				}
				element(c, raw[:i]+string([]byte{byte(b)})+raw[i:])
			}
		}
		for _, s := range []string{"", "[", "]", "[]", "[t]", "[timeQualit", "[timeQuality", "[timeQuality ]", strings.Repeat("[", 40)} {
			element(c, s)
		}
		c.Sample("mutated", "%s", fmt.Sprint(len(raw)))
	})
}

func refStrict(s string) bool {
	_, n, err := refElement(s)
	return err == nil && n == len(s)
}

// mutate changes, drops, doubles or inserts a few octets.
func mutate(g *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	p := g.IntN(len(b) + 1)
	switch g.IntN(7) {
	case 0:
		if p < len(b) {
			b = append(b[:p], b[p+1:]...)
		}
	case 1:
		ins := []byte(pick(g, hostile...))
		b = append(b[:p:p], append(ins, b[p:]...)...)
	case 2:
		if p < len(b) {
			b[p] = byte(g.IntN(256))
		}
	case 3:
		if p < len(b) {
			b[p] = pick(g, byte('['), ']', '"', '\\', ' ', '=', '-', '<', '>', '1', 0, '\n', 127)
		}
	case 4:
		b = b[:p]
	case 5: // double a slice
		e := p + g.IntN(len(b)-p+1)
		b = append(b[:e:e], append(append([]byte(nil), b[p:e]...), b[e:]...)...)
	case 6: // drop a slice
		e := p + g.IntN(len(b)-p+1)
		b = append(b[:p:p], b[e:]...)
	}
	return b
}
