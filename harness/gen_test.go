package vharness

// Generators: boundary-biased values plus a dictionary of the literals of the tree under test.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type dictionary struct {
	ints []int
	strs []string
}

var dictOnce = sync.OnceValue(loadDict)

// loadDict collects integer, character and string literals of the non-test sources, as
// fuzzers do with their automatic dictionaries. It only adds inputs, never expectations.
func loadDict() dictionary {
	root := os.Getenv("VH_REPO")
	if root == "" {
		root = "/repo"
	}
	ints := map[int]bool{}
	strs := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != root {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				switch v.Kind {
				case token.INT:
					if i, err := strconv.ParseInt(v.Value, 0, 64); err == nil && i >= 0 && i < 1<<20 {
						ints[int(i)] = true
					}
				case token.CHAR:
					if s, err := strconv.Unquote(v.Value); err == nil {
						strs[s] = true
					}
				case token.STRING:
					if s, err := strconv.Unquote(v.Value); err == nil && len(s) < 100 && s != "" {
						strs[s] = true
					}
				}
			case *ast.BinaryExpr: // 1<<16 and friends
				l, ok1 := v.X.(*ast.BasicLit)
				r, ok2 := v.Y.(*ast.BasicLit)
				if ok1 && ok2 && v.Op == token.SHL && l.Kind == token.INT && r.Kind == token.INT {
					a, _ := strconv.Atoi(l.Value)
					b, _ := strconv.Atoi(r.Value)
					if b < 20 {
						ints[a<<b] = true
					}
				}
			}
			return true
		})
		return nil
	})
	d := dictionary{}
	for i := range ints {
		d.ints = append(d.ints, i)
	}
	for s := range strs {
		d.strs = append(d.strs, s)
	}
	sort.Ints(d.ints)
	sort.Strings(d.strs)
	return d
}

var baseSizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 19, 20, 21, 31, 32, 33, 47, 48, 49, 63, 64, 65, 80, 99, 100, 101,
	127, 128, 129, 200, 254, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049,
	4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 16384, 20000, 32767, 32768, 50000, 65000, 65535, 65536, 65537, 70000, 99999, 100000, 131072}

// sizes gives interesting sizes up to max: fixed boundaries and literals of the tree, each +-1.
func sizes(max int) []int {
	m := map[int]bool{}
	for _, s := range baseSizes {
		m[s] = true
	}
	for _, s := range dictOnce().ints {
		m[s-1], m[s], m[s+1] = true, true, true
	}
	out := []int{}
	for s := range m {
		if s >= 0 && s <= max {
			out = append(out, s)
		}
	}
	sort.Ints(out)
	return out
}

func pickSize(g *rand.Rand, max int) int {
	switch g.IntN(4) {
	case 0:
		return g.IntN(min(max, 40) + 1)
	case 1:
		return g.IntN(min(max, 300) + 1)
	default:
		s := sizes(max)
		return s[g.IntN(len(s))]
	}
}

func pick[T any](g *rand.Rand, xs ...T) T { return xs[g.IntN(len(xs))] }

var hostile = []string{" ", "  ", "-", "[", "]", "\"", "\\", "\\]", "\\\"", "\"]", "\\\\", "=", "\n", "\r\n", "\x00", "\t", "\x7f", "\x80", "\xff",
	"é", "日本", "\ufeff", "\u00a0", "\u2028", "<", ">", "<34>1 ", "%", "%s", "[a@1 b=\"c\"]", "][", "- ", " -", "[x]", "@", "/", "|", "a", "0", "~", "!", "DEL\x7f", "51 "}

// randBytes builds a byte string of about n bytes from a profile.
func randBytes(g *rand.Rand, n int) []byte {
	b := make([]byte, 0, n+8)
	prof := g.IntN(7)
	d := dictOnce().strs
	for len(b) < n {
		switch prof {
		case 0: // any byte
			b = append(b, byte(g.IntN(256)))
		case 1: // printable
			b = append(b, byte(33+g.IntN(94)))
		case 2: // printable and space
			b = append(b, byte(32+g.IntN(95)))
		case 3: // hostile tokens
			b = append(b, hostile[g.IntN(len(hostile))]...)
		case 4: // mostly letters, some hostile
			if g.IntN(6) == 0 {
				b = append(b, hostile[g.IntN(len(hostile))]...)
			} else {
				b = append(b, byte('a'+g.IntN(26)))
			}
		case 5: // dictionary words
			if len(d) > 0 && g.IntN(2) == 0 {
				b = append(b, d[g.IntN(len(d))]...)
			} else {
				b = append(b, byte(32+g.IntN(95)))
			}
		case 6: // constant run
			c := byte(33 + g.IntN(94))
			for len(b) < n {
				b = append(b, c)
			}
		}
	}
	return b[:n]
}

// randField gives a raw header-field value.
func randField(g *rand.Rand, limit int) string {
	var n int
	switch g.IntN(8) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2:
		n = limit + pick(g, -2, -1, 0, 1, 2, 20, 300)
	default:
		n = 1 + g.IntN(limit)
		if g.IntN(2) == 0 {
			n = 1 + g.IntN(min(limit, 12))
		}
	}
	if n < 0 {
		n = 0
	}
	if g.IntN(12) == 0 {
		return pick(g, "-", "--", "-a", " ", "\x00", "a b", "é", "", "%", "0", "[a]", "<1>1", "nil")
	}
	return string(randBytes(g, n))
}

// cleanField gives a valid header field.
func cleanField(g *rand.Rand, limit int) string {
	switch g.IntN(6) {
	case 0:
		return "-"
	case 1:
		return pick(g, "a", "-a", "--", "[", "]", "\"", "\\", "=", "<1>1", "%", "a=b", "[x", "x]", "1", "~", "!")
	case 2:
		n := limit - g.IntN(3)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(33 + g.IntN(94))
		}
		return string(b)
	}
	n := 1 + g.IntN(min(limit, 16))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + g.IntN(94))
	}
	return string(b)
}

// randText gives a raw message text.
func randText(g *rand.Rand, max int) string {
	switch g.IntN(14) {
	case 0:
		return ""
	case 1:
		return pick(g, " ", "\n", " \t\r\n", "\u00a0", "\u2028\u2029", "a ", " a", "a\n", "\ufeffBOM text", "- ", "-", "- -", "[", "]", "[a b=\"c\"]", "[a b=\"c\"] x", "\"]", "\\", "a]", "x \"]\" y", "] [", "a  b", "\x00", "\v\f")
	case 2: // white-space tails
		return string(randBytes(g, g.IntN(20))) + pick(g, " ", "  \n", "\t", "\r\n", "\u3000", "\x85", "\u0085", "\xa0", "\x00 ")
	}
	return string(randBytes(g, pickSize(g, max)))
}

// randTime gives an instant and zone of the supported range.
func randTime(g *rand.Rand) time.Time {
	if g.IntN(16) == 0 {
		return landmark(g)
	}
	var loc *time.Location
	switch g.IntN(4) {
	case 0:
		loc = time.UTC
	case 1:
		loc = time.FixedZone("", 60*pick(g, 1, -1, 60, -60, 330, 345, 840, -720, 1439, -1439, 59, -59, 0))
	default:
		loc = time.FixedZone("z", 60*(g.IntN(2*1439+1)-1439))
	}
	nano := g.IntN(1000000000)
	switch g.IntN(6) {
	case 0:
		nano = 0
	case 1:
		nano = pick(g, 999999999, 999999000, 999999499, 1, 999, 1000, 1001, 100000000, 10000000, 1000000, 100000, 10000, 120000000, 999000000, 500000000, 3000, 3000000)
	case 2:
		nano = nano / 1000 * 1000
	case 3:
		nano = nano / 1000000 * 1000000
	}
	year := 1970 + g.IntN(100)
	switch g.IntN(6) {
	case 0:
		year = pick(g, 1, 2, 99, 999, 1000, 1582, 1900, 1969, 1970, 2000, 2038, 2100, 9998)
	case 1:
		year = 1 + g.IntN(9998)
	}
	// keep local year inside 0..9999
	t := time.Date(year, time.Month(1+g.IntN(12)), 1+g.IntN(28), g.IntN(24), g.IntN(60), g.IntN(60), nano, loc)
	if g.IntN(20) == 0 {
		t = time.Date(pick(g, 0, 9999), pick(g, time.January, time.December), pick(g, 1, 31), pick(g, 0, 23), pick(g, 0, 59), pick(g, 0, 59), nano, loc)
	}
	return t
}

// landmarks are the seconds where representations of time have their corners.
var landmarks = []int64{0, -1, 1, -62135596800, -62135596801, -62167219200, 253402300799, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, -1 << 32, 1000000000,
	-11644473600, -2208988800, 2085978496, 315964800, 946684800, 951782400, 951868800, 4107542400, 1 << 33, 1 << 34, 9223372036, 9223372037, -9223372036, -9223372037, 86400, -86400, 978307200, -62135510400}

// landmark gives an instant at or next to one of the corners.
func landmark(g *rand.Rand) time.Time {
	for {
		sec, nano := landmarks[g.IntN(len(landmarks))], pick(g, 0, 0, 0, 1, -1, 999, 1000, -1000, 999999, 1000000, 500000000, 999999999)
		t := time.Unix(sec, int64(nano)).In(pick(g, time.UTC, time.UTC, time.FixedZone("", 60), time.FixedZone("", -60), time.FixedZone("", 3600), time.FixedZone("z", 60*(g.IntN(2*1439+1)-1439))))
		if g.IntN(10) == 0 {
			t = time.Time{}
		}
		if y := t.Year(); y >= 0 && y <= 9999 {
			return t
		}
	}
}

// sdName gives a valid RFC 5424 SD-NAME.
func sdName(g *rand.Rand, max int) string {
	n := 1 + g.IntN(8)
	switch g.IntN(6) {
	case 0:
		n = 1
	case 1:
		n = max - g.IntN(3)
	}
	b := make([]byte, n)
	for i := range b {
		for {
			b[i] = byte(33 + g.IntN(94))
			if b[i] != '=' && b[i] != ']' && b[i] != '"' {
				break
			}
		}
		if g.IntN(2) == 0 {
			b[i] = byte('a' + g.IntN(26))
		}
	}
	return string(b)
}

// sdValueRaw gives a PARAM-VALUE in wire form (escaped).
func sdValueRaw(g *rand.Rand, max int) string {
	return escapeSD(sdValue(g, max))
}

func sdValue(g *rand.Rand, max int) string {
	switch g.IntN(6) {
	case 0:
		return pick(g, "", "]", "\"", "\\", "\\]", "\\\"", "\"]", "][", "\"][x y=\"", " ", "a b", "é", "\n", "\x00", "=", "[", "\\\\", "\\\\]", "a\\", "\"\"", "]]", "0", "1")
	case 1:
		return string(randBytes(g, pickSize(g, max)))
	}
	return string(randBytes(g, g.IntN(20)))
}

func escapeSD(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' || s[i] == ']' {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// sdElementRaw gives a valid SD-ELEMENT in wire form.
func sdElementRaw(g *rand.Rand) string {
	id := sdName(g, 32)
	if g.IntN(2) == 0 {
		id = pick(g, "a", "x@1", "exampleSDID@32473", "ab", "abc", "abcd", "origin", "meta", "ID@0", "timeQualit", "timeQualityX", "timequality", "TimeQuality", "q.w-e")
	}
	s := "[" + id
	n, size := g.IntN(4), 600
	switch g.IntN(200) {
	case 0:
		n = pick(g, 5, 9, 17, 33, 65, 129, 300)
	case 1:
		size = 20000
	}
	for i := 0; i < n; i++ {
		s += " " + sdName(g, 32) + "=\"" + sdValueRaw(g, size) + "\""
	}
	return s + "]"
}

// tqRaw gives a consistent timeQuality element in wire form and its normal form.
func tqRaw(g *rand.Rand) (string, string) {
	acc := fmt.Sprint(pick(g, 0, 1, 2, 9, 10, 11, 99, 100, 1000, 60000000, 2147483647, g.IntN(1<<40)))
	p := pick(g,
		[2]string{"[timeQuality]", "[timeQuality]"},
		[2]string{`[timeQuality tzKnown="0"]`, "[timeQuality]"},
		[2]string{`[timeQuality tzKnown="1"]`, `[timeQuality tzKnown="1"]`},
		[2]string{`[timeQuality tzKnown="1" isSynced="1"]`, `[timeQuality tzKnown="1" isSynced="1"]`},
		[2]string{`[timeQuality tzKnown="1" isSynced="0"]`, `[timeQuality tzKnown="1"]`},
		[2]string{`[timeQuality isSynced="1" tzKnown="1"]`, `[timeQuality tzKnown="1" isSynced="1"]`},
		[2]string{`[timeQuality tzKnown="1" isSynced="1" syncAccuracy="` + acc + `"]`, `[timeQuality tzKnown="1" isSynced="1" syncAccuracy="` + acc + `"]`},
	)
	return p[0], p[1]
}
