package vharness

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"net"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// refSDName is the documented sanitising of a structured-data name.
func refSDName(s string) string {
	if s == "" {
		return "-"
	}
	if len(s) > 32 {
		s = s[:32]
	}
	b := []byte(s)
	for i, c := range b {
		if c < 33 || c > 126 || c == '=' || c == ']' || c == '"' {
			b[i] = '%'
		}
	}
	return string(b)
}

var errUnsupported = errors.New("unsupported")

// refValues gives the printed values one Go value contributes, following the documented rules.
func refValues(v reflect.Value) ([]string, error) {
	if !v.IsValid() {
		return nil, nil
	}
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil, nil
		}
		return refValues(v.Elem())
	}
	if sd, ok := v.Interface().(sdata.StructuredData); ok && !(v.Kind() == reflect.Ptr && v.IsNil()) {
		b, err := sd.Marshal5424()
		if err != nil {
			return nil, err
		}
		return []string{string(b)}, nil
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil, nil
		}
		return refValues(v.Elem())
	case reflect.Slice, reflect.Array:
		var out []string
		for i := 0; i < v.Len(); i++ {
			x, err := refValues(v.Index(i))
			if err != nil {
				return nil, err
			}
			out = append(out, x...)
		}
		return out, nil
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.String:
		return []string{fmt.Sprint(v.Interface())}, nil
	}
	return nil, errUnsupported
}

// value families -----------------------------------------------------------

type colour int

func (c colour) String() string { return fmt.Sprintf("colour \"%d\"]", int(c)) }

type textName string
type errKind string

func (e errKind) Error() string { return "err]" + string(e) }

// lists which print as something else
type hexKind [2]byte

func (h hexKind) String() string { return fmt.Sprintf("%x", h[:]) }

type hexText []byte

func (h hexText) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%x", []byte(h))), nil }

type names []string

func (n names) String() string { return strings.Join(n, ",") }
func (n names) Error() string  { return "no " + strings.Join(n, ",") }

type subStruct struct{ A string }

type nestedSD struct{ s string }

func (n nestedSD) SDID() sdata.SDID { return rawID{} }
func (n nestedSD) Marshal5424() ([]byte, error) {
	if n.s == "fail" {
		return nil, errSink
	}
	return []byte("[n v=\"" + n.s + "\"]"), nil
}

func genValue(g *rand.Rand, depth int) any {
	str := func() string { return sdValue(g, 300) }
	if g.IntN(250) == 0 { // much of something
		k := pick(g, 65, 100, 129, 257, 1000, 3000)
		switch g.IntN(7) {
		case 0:
			return string(randBytes(g, pick(g, 5000, 70000, 300000)))
		case 1:
			l := make([]string, k)
			for i := range l {
				l[i] = fmt.Sprint(i)
			}
			return l
		case 2:
			l := make([]any, k)
			for i := range l {
				l[i] = pick[any](g, i, nil, "x", &i)
			}
			return l
		case 3:
			return make([]byte, k)
		case 4: // pointers to pointers
			v := reflect.ValueOf(str())
			for i := 2 + g.IntN(8); i > 0; i-- {
				p := reflect.New(v.Type())
				if i > 1 || g.IntN(3) > 0 {
					p.Elem().Set(v)
				}
				v = p
			}
			return v.Interface()
		case 5: // lists of lists
			v := reflect.ValueOf([]string{str(), "y"})
			for i := 1 + g.IntN(6); i > 0; i-- {
				s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 2)
				v = reflect.Append(s, v, reflect.Zero(v.Type()))
			}
			return v.Interface()
		default: // interfaces of pointers to interfaces
			var v any = str()
			for i := 2 + g.IntN(8); i > 0; i-- {
				w := v
				v = pick[any](g, &w, []any{w}, [1]any{w})
			}
			return v
		}
	}
	switch n := g.IntN(30); {
	case n < 8:
		return str()
	case n == 8:
		return g.IntN(2000) - 1000
	case n == 9:
		return pick[any](g, int8(-128), int16(-1), int32(math.MinInt32), int64(math.MaxInt64), uint(7), uint8(255), uint16(9), uint32(1), uint64(math.MaxUint64), uintptr(12), uint(math.MaxUint64), uintptr(math.MaxUint64), uint32(math.MaxUint32), uint16(math.MaxUint16), int(math.MinInt64), int64(math.MinInt64), int16(math.MinInt16), int8(127),
			g.Uint64(), uint(g.Uint64()), int64(g.Uint64()), uint64(1)<<63, int64(1)<<53+1, uint32(1)<<31)
	case n == 10:
		return pick[any](g, math.Float64frombits(g.Uint64()), math.Float32frombits(g.Uint32()), math.MaxFloat64, math.SmallestNonzeroFloat64, float64(1<<53), 123456789.0, 1e20, 1e21, 0.000001, 1.5, float32(0.1), math.NaN(), math.Inf(-1), 1e300, -0.0, 1e-7)
	case n == 11:
		return g.IntN(2) == 0
	case n == 12:
		return colour(g.IntN(5))
	case n == 13:
		return textName(str())
	case n == 14:
		return errKind(str())
	case n == 15:
		return time.Duration(g.IntN(1000000))
	case n == 16:
		s := str()
		return &s
	case n == 17:
		return (*string)(nil)
	case n == 18:
		return nil
	case n == 19:
		return []byte(str()[:0] + "ab")
	case n == 20 && depth > 0:
		i := g.IntN(256)
		return pick[any](g, [2]string{str(), str()}, [3]byte{byte(i), 0, 'a'}, [1]int8{-1}, [2]rune{'a', rune(i)}, [2]bool{true}, [2]float64{0.5, 1e21}, [2]float32{0.1}, [1]*int{&i}, [2][]byte{{1}, {2, 3}}, [2][2]uint8{{1, 2}, {3, 4}},
			[]rune{'é', 0}, []float32{0.1, 16777216}, []uint64{math.MaxUint64}, []*[2]byte{nil, {byte(i), 2}}, []colour{1, 2}, []time.Duration{1, time.Hour}, [1]any{[]byte("x")}, net.IPv4(10, 0, 0, byte(i)), net.IP{}, net.IPMask{255, byte(i)}, json.RawMessage(`"]`), net.HardwareAddr{1, byte(i)}, hexKind{byte(i), 10}, hexText("]x"), names{str(), "z"}, [2]textName{"a]", textName(str())}, [][]string{{"a"}, nil, {"b", str()}})
	case n == 21 && depth > 0:
		return pick[any](g, [0]int{}, []string{}, []string(nil), [3]*int{}, []any{nil}, []error{nil, errKind("x")}, []fmt.Stringer{colour(3), nil})
	case n == 22 && depth > 0:
		var l []any
		for i := g.IntN(4); i > 0; i-- {
			l = append(l, genValue(g, depth-1))
		}
		return l
	case n == 23 && depth > 0:
		var l []string
		for i := g.IntN(4); i > 0; i-- {
			l = append(l, str())
		}
		return l
	case n == 24 && depth > 0:
		v := genValue(g, depth-1)
		return &v
	case n == 25 && depth > 0:
		p := &[]int{g.IntN(3), 7}
		return &p
	case n == 26 && g.IntN(3) == 0: // unsupported ones
		return pick[any](g, subStruct{"x"}, &subStruct{"x"}, map[string]string{"a": "b"}, make(chan int), func() {}, complex(1, 2), time.Unix(1, 0), []subStruct{{"a"}}, [1]map[string]int{{}}, []any{"ok", subStruct{}})
	case n == 27 && g.IntN(3) == 0:
		return pick[any](g, nestedSD{"x]\""}, &nestedSD{"y"}, (*nestedSD)(nil), nestedSD{"fail"})
	}
	return str()
}

// genValueOK gives a value which has an encoding.
func genValueOK(g *rand.Rand) any {
	for {
		v := genValue(g, 2)
		if v == nil {
			return nil
		}
		if _, err := refValues(reflect.ValueOf(v)); err == nil {
			return v
		}
	}
}

// identifiers ---------------------------------------------------------------

type sdMap map[string]any

var sdMapID = "mapSD@32473"

func (sdMap) String() string { return sdMapID }
func (sdMap) IsIANA() bool   { return false }
func (sdMap) GetPEN() uint64 { return 32473 }

// keyName is a string which prints as something else.
type keyName string

func (keyName) String() string { return "printed" }
func (keyName) Error() string  { return "told" }
func (keyName) MarshalText() ([]byte, error) {
	return []byte("text"), nil
}

type sdStrMap map[keyName]string

// maps of other types
type sdMapOf[K ~string, V any] map[K]V

func (sdMapOf[K, V]) String() string { return "mapOf@1" }
func (sdMapOf[K, V]) IsIANA() bool   { return true }
func (sdMapOf[K, V]) GetPEN() uint64 { return 0 }

func checkMapOf[K ~string, V any](c *C, g *rand.Rand, gen func() V) {
	m := sdMapOf[K, V]{}
	for k := g.IntN(6); k > 0; k-- {
		m[K(sdName(g, 32))] = gen()
	}
	var keys []string
	for k := range m {
		keys = append(keys, string(k))
	}
	sort.Strings(keys)
	var params []refParam
	for _, k := range keys {
		vs, err := refValues(reflect.ValueOf(m[K(k)]))
		if err != nil {
			c.Violate("harness: %v", err)
			return
		}
		for _, v := range vs {
			params = append(params, refParam{k, v})
		}
	}
	c.sdCheck(fmt.Sprintf("%T", m), m, "mapOf@1", params, false)
}

func (sdStrMap) String() string { return "strMap@1" }
func (sdStrMap) IsIANA() bool   { return true }
func (sdStrMap) GetPEN() uint64 { return 0 }

type sdIntMap map[int]string

func (sdIntMap) String() string { return "intMap@1" }
func (sdIntMap) IsIANA() bool   { return true }
func (sdIntMap) GetPEN() uint64 { return 0 }

// the struct family: field rules
type sdStruct struct {
	First                                    string
	hidden                                   string
	Second                                   int     `sd5424:"second"`
	Third                                    *string `sd5424:"third-3"`
	Skipped                                  string  `sd5424:"-"`
	Any                                      any
	List                                     []string `sd5424:"l"`
	Arr                                      [2]int
	Z                                        *[]*string
	Accent                                   string `sd5424:"a.b_c"`
	private                                  *int
	Bad                                      string `sd5424:"x\"y"`
	Ünï                                      string // name to be sanitised
	LongLongLongLongLongLongLongLongLongLong string
	Str                                      fmt.Stringer
	Dash                                     string `sd5424:"-,"`
	Last                                     bool
}

var sdStructNames = map[string]string{"First": "First", "Second": "second", "Third": "third-3", "Any": "Any", "List": "l", "Arr": "Arr", "Z": "Z",
	"Accent": "a.b_c", "Bad": "Bad", "Ünï": refSDName("Ünï"), "LongLongLongLongLongLongLongLongLongLong": "LongLongLongLongLongLongLongLong", "Str": "Str", "Dash": "-", "Last": "Last"}

var sdStructID = "structSD@32473"

func (sdStruct) String() string { return sdStructID }
func (sdStruct) IsIANA() bool   { return false }
func (sdStruct) GetPEN() uint64 { return 32473 }

type sdMandatory struct {
	A string `sd5424:"a,mandatory"`
	B *int   `sd5424:"b,other,mandatory"`
	C []int  `sd5424:",mandatory"`
	D string `sd5424:"d,optional"`
	E any    `sd5424:"e,mandatory"`
	F int    `sd5424:"f,mandatory"`
}

func (sdMandatory) String() string { return "mand@1" }
func (sdMandatory) IsIANA() bool   { return false }
func (sdMandatory) GetPEN() uint64 { return 1 }

type sdHostile struct {
	A string `sd5424:"a b"`
	B string `sd5424:"x=y"`
	C string `sd5424:"q]z"`
	D string `sd5424:"[w"`
	E string `sd5424:"été"`
}

func (sdHostile) String() string { return "host ile]=\"x" }
func (sdHostile) IsIANA() bool   { return false }
func (sdHostile) GetPEN() uint64 { return 1 }

// one encoding judged against (id, params) or an error
func (c *C) sdCheck(what string, x sdata.SDIDLight, id string, params []refParam, wantErr bool) {
	var sd sdata.StructuredData
	var b []byte
	var err error
	if c.Guard(func() {
		sd = sdata.GenericSD(x)
		b, err = sd.Marshal5424()
	}) {
		return
	}
	c.Eval(len(params) > 0 || wantErr, what, b, fmt.Sprint(err))
	if wantErr {
		if err == nil {
			c.Violate("%s: an error was expected, got %s", what, q(b))
		}
		if len(b) != 0 {
			c.Violate("%s: partial output %s beside the error %v", what, q(b), err)
		}
		m, merr := syslog.EmptyMessage().StructuredData(sd).Marshal5424()
		if merr == nil || len(m) != 0 {
			c.Violate("%s: the message is encoded as %s, %v although its structured data has no encoding", what, q(m), merr)
		}
		c.Stat("errors_observed", 1)
		return
	}
	if err != nil {
		c.Violate("%s: unexpected error %v", what, err)
		return
	}
	e, n, perr := refElement(string(b))
	if perr != nil || n != len(b) {
		c.Violate("%s: %s is not one well-formed element: %v", what, q(b), perr)
		return
	}
	want := "[" + id
	for _, p := range params {
		want += " " + p.K + "=\"" + escapeSD(p.V) + "\""
	}
	want += "]"
	if e.ID != id || len(e.Params) != len(params) || string(b) != want {
		c.Violate("%s: encoded as %s, want %s", what, q(b), q(want))
		return
	}
	for i := range params {
		if e.Params[i] != params[i] {
			c.Violate("%s: parameter %d reads %q, want %q", what, i, e.Params[i], params[i])
			return
		}
	}
	again, err := sd.Marshal5424()
	if err != nil || string(again) != string(b) {
		c.Violate("%s: encoding is not deterministic: %s then %s, %v", what, q(b), q(again), err)
	}
	l, err := sdata.EmptyList().Add(sd, rawSD("[raw]"), sd).Marshal5424()
	if err != nil || string(l) != want+"[raw]"+want {
		c.Violate("%s: list encoded as %s, %v", what, q(l), err)
	}
	if sd.SDID().String() != x.String() || sd.SDID().IsIANA() != x.IsIANA() || sd.SDID().GetPEN() != x.GetPEN() {
		c.Violate("%s: SDID gives another identifier: %q", what, sd.SDID().String())
	}
	c.Stat("parameters_observed", int64(len(params)))
	c.Sample(what, "%s", q(b))
}

func TestC15(t *testing.T) {
	r := newR(t, "C15", "one evaluation = one Go value encoded and its output read back by an independent reader and compared with a reference enumeration of the value (or an error expected); non-trivial = at least one parameter or an expected error; distinct by kind and output")

	r.Case("maps", func(c *C) {
		c.Parallel(r.N(20000, 400000), func(i int) {
			g := c.Sub(i)
			m := sdMap{}
			for k := g.IntN(pick(g, 3, 8, 30)) + g.IntN(300)/299*g.IntN(3000); k > 0; k-- {
				key := sdName(g, 32)
				if g.IntN(4) == 0 {
					key = string(randBytes(g, g.IntN(45)))
				}
				m[key] = genValue(g, 3)
			}
			if i == 0 {
				m = nil
			}
			keys := make([]string, 0, len(m))
			for k := range m {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			var params []refParam
			bad := false
			for _, k := range keys {
				vs, err := refValues(reflect.ValueOf(m[k]))
				if err != nil {
					bad = true
				}
				for _, v := range vs {
					params = append(params, refParam{refSDName(k), v})
				}
			}
			c.sdCheck("map", m, sdMapID, params, bad)
		})
	})
	r.Case("string-maps", func(c *C) {
		c.sdCheck("nil string map", sdStrMap(nil), "strMap@1", nil, false)
		c.sdCheck("empty string map", sdStrMap{}, "strMap@1", nil, false)
		c.sdCheck("int map", sdIntMap{1: "a"}, "", nil, true)
		c.sdCheck("nil int map", sdIntMap(nil), "", nil, true)
		for i := 0; i < r.N(2000, 40000); i++ {
			g := c.Sub(i)
			m := sdStrMap{}
			for k := g.IntN(6); k > 0; k-- {
				m[keyName(sdName(g, 32))] = sdValue(g, 2000)
			}
			keys := []string{}
			for k := range m {
				keys = append(keys, string(k))
			}
			sort.Strings(keys)
			var params []refParam
			for _, k := range keys {
				params = append(params, refParam{k, m[keyName(k)]})
			}
			c.sdCheck("string map", m, "strMap@1", params, false)
		}
	})
	r.Case("typed-maps", func(c *C) {
		for i := 0; i < r.N(400, 20000); i++ {
			g := c.Sub(i)
			str := func() string { return sdValue(g, 200) }
			checkMapOf[string](c, g, str)
			checkMapOf[keyName](c, g, func() int { return g.IntN(1000) - 500 })
			checkMapOf[errKind](c, g, func() colour { return colour(g.IntN(9)) })
			checkMapOf[textName](c, g, func() []string { return []string{str(), str()}[:g.IntN(3)] })
			checkMapOf[string](c, g, func() *string { s := str(); return pick(g, &s, nil) })
			checkMapOf[string](c, g, func() any { return genValueOK(g) })
			checkMapOf[keyName](c, g, func() [2]bool { return [2]bool{g.IntN(2) == 0} })
			checkMapOf[string](c, g, func() float64 { return pick(g, g.Float64(), 1e30, 0.1) })
			checkMapOf[string](c, g, func() fmt.Stringer { return pick[fmt.Stringer](g, colour(3), nil, time.Second) })
			checkMapOf[string](c, g, func() **uint8 { u := uint8(g.IntN(256)); p := &u; return pick(g, &p, nil) })
		}
	})
	r.Case("structs", func(c *C) {
		c.Parallel(r.N(20000, 400000), func(i int) {
			g := c.Sub(i)
			s := sdStruct{hidden: "hidden", Skipped: "skipped"}
			one := 1
			s.private = &one
			str := func() string {
				if g.IntN(3) == 0 {
					return ""
				}
				return sdValue(g, 100)
			}
			s.First, s.Accent, s.Bad, s.Ünï, s.Dash, s.LongLongLongLongLongLongLongLongLongLong = str(), str(), str(), str(), str(), str()
			s.Second = g.IntN(100) - 50
			if g.IntN(2) == 0 {
				x := str()
				s.Third = &x
			}
			s.Any = genValue(g, 2)
			for k := g.IntN(3); k > 0; k-- {
				s.List = append(s.List, str())
			}
			if g.IntN(2) == 0 {
				x := str()
				l := []*string{&x, nil, &x}
				s.Z = &l
			}
			if g.IntN(2) == 0 {
				s.Str = colour(g.IntN(9))
			}
			s.Last = g.IntN(2) == 0
			v := reflect.ValueOf(s)
			var params []refParam
			bad := false
			for f := 0; f < v.NumField(); f++ {
				name := v.Type().Field(f).Name
				if name == "hidden" || name == "private" || name == "Skipped" {
					continue
				}
				fv := v.Field(f)
				if fv.Kind() == reflect.String && fv.Len() == 0 {
					continue
				}
				vs, err := refValues(fv)
				if fv.Kind() == reflect.Map && fv.Len() == 0 {
					vs, err = nil, nil
				}
				if err != nil {
					bad = true
				}
				for _, x := range vs {
					params = append(params, refParam{sdStructNames[name], x})
				}
			}
			c.sdCheck("struct", s, sdStructID, params, bad)
		})
	})
	r.Case("mandatory", func(c *C) {
		one := 1
		for mask := 0; mask < 32; mask++ {
			s := sdMandatory{F: 0}
			var params []refParam
			add := func(bit int, k, v string, set func()) {
				if mask>>bit&1 == 1 {
					set()
					params = append(params, refParam{k, v})
				}
			}
			add(0, "a", "x]", func() { s.A = "x]" })
			add(1, "b", "1", func() { s.B = &one })
			add(2, "C", "7", func() { s.C = []int{7} })
			add(3, "d", "\\", func() { s.D = "\\" })
			add(4, "e", "true", func() { s.E = true })
			params = append(params, refParam{"f", "0"})
			missing := mask&0b10111 != 0b10111
			c.sdCheck(fmt.Sprintf("mandatory fields %05b", mask), s, "mand@1", params, missing)
		}
	})
	r.Case("identifiers", func(c *C) {
		defer func(a string) { sdMapID = a }(sdMapID)
		for i := 0; i < r.N(5000, 100000); i++ {
			g := c.Sub(i)
			sdMapID = randField(g, 32)
			c.sdCheck("identifier", sdMap{"a": "b"}, refSDName(sdMapID), []refParam{{"a", "b"}}, false)
			// an element of the identifier alone, claimed by the identifier
			if sd, ok := sdata.GenericSD(sdMap{}).SDID().Found([]byte("[" + sdMapID + "]")); ok {
				b, err := sd.Marshal5424()
				if want := "[" + refSDName(sdMapID) + "]"; err != nil || string(b) != want {
					c.Violate("the element of the identifier %q alone gives %s, %v, want %s", sdMapID, q(b), err, q(want))
				}
				c.Stat("identifiers_alone", 1)
			}
		}
		// hostile tags: names must stay well-formed, one per field, values intact
		b, err := sdata.GenericSD(sdHostile{"1", "2", "3", "4", "5"}).Marshal5424()
		e, n, perr := refElement(string(b))
		if err != nil || perr != nil || n != len(b) || len(e.Params) != 5 {
			c.Violate("hostile tags and identifier: %s, %v, %v", q(b), err, perr)
		} else {
			for i, p := range e.Params {
				if p.V != fmt.Sprint(i+1) {
					c.Violate("hostile tags: parameter %d is %q", i, p)
				}
			}
		}
		c.Eval(true, b)
	})
	// struct types made at run time, through MarshalSD: any field order, names and tags
	r.Case("made-types", func(c *C) {
		types := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(true), reflect.TypeOf([]string{}), reflect.TypeOf([2]bool{}),
			reflect.TypeOf(new(string)), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(colour(0)), reflect.TypeOf(1.0), reflect.TypeOf(new(*int)), reflect.TypeOf([]any{}), reflect.TypeOf(uint8(0))}
		c.Parallel(r.N(4000, 60000), func(i int) {
			g := c.Sub(i)
			n := g.IntN(10)
			if i%100 == 99 {
				n = g.IntN(600)
			}
			fields := make([]reflect.StructField, n)
			names := make([]string, n)
			for k := range fields {
				name := fmt.Sprintf("F%d%s", k, strings.Repeat("x", g.IntN(20)))
				fields[k] = reflect.StructField{Name: name, Type: pick(g, types...)}
				switch g.IntN(4) {
				case 0:
					names[k] = fmt.Sprintf("t%d.%d", k, g.IntN(10))
					if g.IntN(2) == 0 { // all the punctuation a tag may have, anywhere
						const punct = "!#$%&()*+-./:<=>?@[]^_{|}~ "
						for n := 1 + g.IntN(3); n > 0; n-- {
							at := pick(g, 0, len(names[k]), len(names[k]), g.IntN(len(names[k])+1))
							names[k] = names[k][:at] + string(punct[g.IntN(len(punct))]) + names[k][at:]
						}
					}
					fields[k].Tag = reflect.StructTag(fmt.Sprintf("json:\"zz\" sd5424:%q", names[k]+pick(g, "", ",", ",opt", ",a,b")))
				case 1:
					fields[k].Tag = `sd5424:"-"`
				case 2:
					names[k] = name
					fields[k].Tag = `sd5424:",opt" other:"x"`
				default:
					names[k] = name
				}
			}
			v := reflect.New(reflect.StructOf(fields)).Elem()
			var params []refParam
			bad := false
			for k := range fields {
				f := v.Field(k)
				if g.IntN(4) != 0 {
					fillValue(g, f)
				}
				if names[k] == "" || (f.Kind() == reflect.String && f.Len() == 0) {
					continue
				}
				vs, err := refValues(f)
				if err != nil {
					bad = true
				}
				for _, x := range vs {
					params = append(params, refParam{refSDName(names[k]), x})
				}
			}
			var b []byte
			if c.Guard(func() { b = sdata.MarshalSD(v.Interface()) }) {
				return
			}
			c.Eval(len(params) > 0, "made", b)
			if bad {
				if len(b) != 0 {
					c.Violate("made type with an unsupported value encodes as %s", q(b))
				}
				return
			}
			if len(b) < 2 || b[0] != '[' {
				c.Violate("made type %v encodes as %s", v.Type(), q(b))
				return
			}
			want := ""
			for _, p := range params {
				want += " " + p.K + "=\"" + escapeSD(p.V) + "\""
			}
			if string(b) != "["+want+"]" && string(b) != "[-"+want+"]" {
				c.Violate("made type %v encodes as %s, want parameters %s", v.Type(), q(b), q(want))
			}
			c.Stat("made_types", 1)
		})
	})
	// types are what they are, not what they are called: different types of one name and size
	r.Case("same-names", func(c *C) {
		for i := 0; i < 4000; i++ {
			g := c.Sub(i)
			k := g.IntN(len(sameNamed))
			v := sdValue(g, 30)
			x, params, bad := sameNamed[k](v)
			var b []byte
			if c.Guard(func() { b = sdata.MarshalSD(x) }) {
				return
			}
			want := ""
			for _, p := range params {
				want += " " + p.K + "=\"" + escapeSD(p.V) + "\""
			}
			want += "]"
			if bad && len(b) != 0 || !bad && string(b) != "["+want && string(b) != "[-"+want {
				c.Violate("%T number %d with value %s encodes as %s, want parameters %s (unsupported %v)", x, k, q(v), q(b), q(want), bad)
			}
			// and as a field, an element and an interface
			c.sdCheck("same names in a map", sdMap{"k": x}, sdMapID, nil, true)
			if y, ps, ok := sameNamedValue(g, v); ok {
				c.sdCheck("values of types of the same name", sdMap{"k": y}, sdMapID, ps, false)
			}
			c.Eval(true, "same", k, v)
		}
	})
	// embedded fields are fields; names which are the same once valid stay one parameter each
	r.Case("embedded", func(c *C) {
		c.Parallel(r.N(4000, 60000), func(i int) {
			g := c.Sub(i)
			x := sdEmbedded{Word: Word(sdValue(g, 40)), Count: Count(g.IntN(9)), hiddenWord: "h", Tail: sdValue(g, 40), Kind: Kind{}}
			var params []refParam
			if x.Word != "" {
				params = append(params, refParam{"Word", string(x.Word)})
			}
			params = append(params, refParam{"Count", fmt.Sprint(int(x.Count))})
			if g.IntN(2) == 0 {
				w := Word2(sdValue(g, 40))
				x.Word2 = &w
				params = append(params, refParam{"Word2", string(w)})
			}
			for k := g.IntN(4); k > 0; k-- {
				x.Kind = append(x.Kind, sdValue(g, 20))
				params = append(params, refParam{"k", x.Kind[len(x.Kind)-1]})
			}
			switch g.IntN(3) {
			case 0:
				x.Stringer = colour(g.IntN(5))
				vs, _ := refValues(reflect.ValueOf(x.Stringer))
				params = append(params, refParam{"Stringer", vs[0]})
			}
			if x.Tail != "" {
				params = append(params, refParam{"Tail", x.Tail})
			}
			c.sdCheck("embedded", x, "emb@1", params, false)

			m := sdMap{}
			for k := 2 + g.IntN(5); k > 0; k-- {
				m[pick(g, "a", "")+pick(g, " ", "=", "]", "\"", "%", "é")[:1]+pick(g, "", "b")] = genValue(g, 0)
				m[strings.Repeat("z", 32)+sdName(g, 5)] = genValue(g, 0)
			}
			var keys []string
			for k := range m {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			params = nil
			bad := false
			for _, k := range keys {
				vs, err := refValues(reflect.ValueOf(m[k]))
				bad = bad || err != nil
				for _, v := range vs {
					params = append(params, refParam{refSDName(k), v})
				}
			}
			c.sdCheck("names the same once valid", m, sdMapID, params, bad)
		})
	})
	r.Case("never-panics", func(c *C) {
		var nilStruct *sdStruct
		for _, x := range []any{nil, 1, "x", 1.5, []string{"a"}, [1]int{1}, make(chan int), func() {}, errSink, nilStruct, &sdStruct{}, &sdMap{}, struct{}{}, new(any), time.Now(), map[any]any{}, map[string]any(nil), complex(1, 1)} {
			c.Guard(func() { sdata.MarshalSD(x) })
			if l, ok := x.(sdata.SDIDLight); ok || x == nil {
				c.Guard(func() {
					b, err := sdata.GenericSD(l).Marshal5424()
					if err != nil && len(b) > 0 {
						c.Violate("partial output %s beside error %v", q(b), err)
					}
					if err == nil {
						if _, n, perr := refElement(string(b)); perr != nil || n != len(b) {
							c.Violate("encoding of %T is not well-formed: %s", x, q(b))
						}
					}
				})
			}
			c.Eval(true, fmt.Sprintf("%T", x))
		}
	})
}

type (
	Word       string
	Word2      string
	Count      int
	Kind       []string
	hiddenWord string
	sdEmbedded struct {
		Word
		Count
		hiddenWord
		*Word2
		Kind `sd5424:"k"`
		fmt.Stringer
		Tail string
	}
)

func (sdEmbedded) String() string { return "emb@1" }
func (sdEmbedded) IsIANA() bool   { return false }
func (sdEmbedded) GetPEN() uint64 { return 1 }

func fillValue(g *rand.Rand, f reflect.Value) {
	switch f.Kind() {
	case reflect.String:
		f.SetString(sdValue(g, 50))
	case reflect.Int:
		f.SetInt(int64(g.IntN(100)))
	case reflect.Uint8:
		f.SetUint(uint64(g.IntN(256)))
	case reflect.Bool:
		f.SetBool(g.IntN(2) == 0)
	case reflect.Float64:
		f.SetFloat(g.Float64())
	case reflect.Ptr:
		p := reflect.New(f.Type().Elem())
		if g.IntN(3) > 0 {
			fillValue(g, p.Elem())
		}
		f.Set(p)
	case reflect.Interface:
		if x := genValue(g, 2); x != nil {
			f.Set(reflect.ValueOf(x))
		}
	case reflect.Array:
		for i := 0; i < f.Len(); i++ {
			fillValue(g, f.Index(i))
		}
	case reflect.Slice:
		n := g.IntN(4)
		s := reflect.MakeSlice(f.Type(), n, n)
		for i := 0; i < n; i++ {
			fillValue(g, s.Index(i))
		}
		f.Set(s)
	}
}

// sameNamed makes values of types which are all called T.
var sameNamed = []func(v string) (any, []refParam, bool){
	func(v string) (any, []refParam, bool) {
		type T struct{ A, B string }
		return T{v + "a", "b"}, []refParam{{"A", v + "a"}, {"B", "b"}}, false
	},
	func(v string) (any, []refParam, bool) {
		type T struct{ B, A string }
		return T{v + "a", "b"}, []refParam{{"B", v + "a"}, {"A", "b"}}, false
	},
	func(v string) (any, []refParam, bool) {
		type T struct {
			A string `sd5424:"x"`
			B string `sd5424:"-"`
		}
		return T{v + "a", "b"}, []refParam{{"x", v + "a"}}, false
	},
	func(v string) (any, []refParam, bool) {
		type T struct {
			A string `sd5424:"a,mandatory"`
			B string `sd5424:"b,mandatory"`
		}
		return T{v + "a", ""}, nil, true
	},
	func(v string) (any, []refParam, bool) {
		type T map[string]string
		return T{"m": v}, []refParam{{"m", v}}, false
	},
	func(v string) (any, []refParam, bool) {
		type T map[string][]string
		return T{"m": {v, "w"}}, []refParam{{"m", v}, {"m", "w"}}, false
	},
	func(v string) (any, []refParam, bool) {
		type T struct {
			A []byte
			B string
		}
		return T{[]byte{1, 2}, v + "b"}, []refParam{{"A", "1"}, {"A", "2"}, {"B", v + "b"}}, false
	},
	func(v string) (any, []refParam, bool) {
		type T struct {
			A, B string
			C    chan int
		}
		return T{A: v}, nil, true
	},
	func(v string) (any, []refParam, bool) {
		type T map[int]string
		return T{1: v}, nil, true
	},
}

// sameNamedValue makes values of types which are all called V.
func sameNamedValue(g *rand.Rand, v string) (any, []refParam, bool) {
	switch g.IntN(5) {
	case 0:
		type V string
		return V(v), []refParam{{"k", v}}, true
	case 1:
		type V []string
		return V{v, "2"}, []refParam{{"k", v}, {"k", "2"}}, true
	case 2:
		type V int
		return V(7), []refParam{{"k", "7"}}, true
	case 3:
		type V [2]*string
		return V{nil, &v}, []refParam{{"k", v}}, true
	default:
		type V bool
		return []V{true, false}, []refParam{{"k", "true"}, {"k", "false"}}, true
	}
}
