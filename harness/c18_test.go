package vharness

import (
	"flag"
	"fmt"
	"io"
	"strconv"
	"strings"
	"testing"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// RFC 5424 numbering, written down independently.
var refFacilities = map[string]int{"kern": 0, "user": 1, "mail": 2, "daemon": 3, "auth": 4, "syslog": 5, "lpr": 6, "news": 7,
	"uucp": 8, "cron": 9, "authpriv": 10, "ftp": 11,
	"local0": 16, "local1": 17, "local2": 18, "local3": 19, "local4": 20, "local5": 21, "local6": 22, "local7": 23}
var refSeverities = map[string]int{"emerg": 0, "alert": 1, "crit": 2, "err": 3, "warning": 4, "notice": 5, "info": 6, "debug": 7}

func refPriText() map[string]int {
	m := map[string]int{}
	for f, i := range refFacilities {
		for s, j := range refSeverities {
			m[f+"."+s] = i*8 + j
		}
	}
	return m
}

// refWirePrio reads "<", one to three digits up to 255, ">1".
func refWirePrio(s string) (int, bool) {
	if len(s) < 4 || len(s) > 6 || s[0] != '<' || s[len(s)-2:] != ">1" {
		return 0, false
	}
	n := 0
	for _, c := range []byte(s[1 : len(s)-2]) {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
	}
	return n, n <= 255
}

func TestC18(t *testing.T) {
	r := newR(t, "C18", "one evaluation = one codec call judged against independent tables; distinct = distinct inputs; all facility/severity texts, all values 0..255, all wire strings up to a length over the wire alphabet, and mutations of valid texts")
	texts := refPriText()

	r.Case("texts", func(c *C) {
		for txt, want := range texts {
			p := syslog.Priority(77)
			if err := p.Set(txt); err != nil || int(p) != want {
				c.Violate("Set(%q) gives %d, %v; want %d", txt, int(p), err, want)
			}
			if p.String() != txt {
				c.Violate("String of %d is %q, want %q", int(p), p.String(), txt)
			}
			var p2 syslog.Priority
			fs := flag.NewFlagSet("x", flag.ContinueOnError)
			fs.SetOutput(io.Discard)
			fs.Var(&p2, "p", "priority")
			if err := fs.Parse([]string{"-p", txt}); err != nil || int(p2) != want {
				c.Violate("as a flag %q gives %d, %v", txt, int(p2), err)
			}
			c.Eval(true, txt)
			c.Sample("text", "%q <-> %d", txt, want)
		}
	})
	r.Case("values", func(c *C) {
		for n := -2000; n <= 3000; n++ {
			p := syslog.Priority(n)
			txt := p.String() // must not panic
			if n >= 0 && n <= 255 {
				if p.Facility()|p.Severity() != p || p.Facility()+p.Severity() != p || int(p.Severity()) != n%8 || int(p.Facility()) != n/8*8 {
					c.Violate("priority %d splits into facility %d and severity %d", n, int(p.Facility()), int(p.Severity()))
				}
				w := "<" + strconv.Itoa(n) + ">1"
				b, err := p.Marshal5424()
				if err != nil || string(b) != w {
					c.Violate("wire form of %d is %q, %v", n, b, err)
				}
				back := syslog.Priority(1000)
				if err := back.Unmarshal5424([]byte(w)); err != nil || back != p {
					c.Violate("wire form %q decodes to %d, %v", w, int(back), err)
				}
			}
			if v, ok := texts[txt]; ok && n >= 0 && n < 192 && v != n {
				c.Violate("priority %d prints as %q which is %d", n, txt, v)
			}
			c.Eval(true, n)
		}
		for _, n := range []int{1 << 31, -1 << 31, 1<<62 + 5, -1 << 62, 255, 256, 65535} {
			_ = syslog.Priority(n).String()
			c.Eval(true, n)
		}
	})
	checkText := func(c *C, s string) {
		p := syslog.Priority(123)
		err := p.Set(s)
		want, ok := texts[s]
		if ok && (err != nil || int(p) != want) {
			c.Violate("Set(%q) gives %d, %v", s, int(p), err)
		}
		if !ok && err == nil {
			c.Violate("Set(%q) is accepted as %d", s, int(p))
		}
		if !ok && p != 123 {
			c.Violate("Set(%q) fails and changes the target to %d", s, int(p))
		}
		c.Eval(true, "t", s)
	}
	r.Case("other-texts", func(c *C) {
		words := []string{"", "-", ".", " ", "*", "none", "panic", "error", "warn", "emergency", "KERN", "Err", "local8", "local", "local00", "security", "0", "3", "kern.err", "err.kern", "\x00", "ftp2", "clock"}
		words = append(words, dictOnce().strs...)
		for f := range refFacilities {
			words = append(words, f)
		}
		for s := range refSeverities {
			words = append(words, s)
		}
		seps := []string{".", "", "..", " ", ":", ". ", " .", ".\x00", "/", "。"}
		for _, a := range words {
			checkText(c, a)
			for _, b := range words {
				for _, sep := range seps {
					checkText(c, a+sep+b)
				}
			}
		}
		for txt := range texts {
			for i := 0; i <= len(txt); i++ {
				checkText(c, txt[:i])
				checkText(c, txt[i:])
				checkText(c, txt[:i]+"."+txt[i:])
				checkText(c, txt[:i]+" "+txt[i:])
				checkText(c, strings.ToUpper(txt[:i])+txt[i:])
				for _, x := range []byte("a.0 -\x00\xff") {
					checkText(c, txt[:i]+string(x)+txt[i:])
					if i < len(txt) {
						checkText(c, txt[:i]+string(x)+txt[i+1:])
					}
				}
			}
			checkText(c, txt+"."+txt)
		}
		for i := 0; i < r.N(3000, 100000); i++ {
			checkText(c, string(randBytes(c.Rand, c.Rand.IntN(20))))
		}
	})
	checkWire := func(c *C, s string) {
		p := syslog.Priority(321)
		in := []byte(s)
		err := p.Unmarshal5424(in)
		want, ok := refWirePrio(s)
		switch {
		case ok && (err != nil || int(p) != want):
			c.Violate("wire form %q decodes to %d, %v; want %d", s, int(p), err, want)
		case !ok && err == nil:
			c.Violate("wire form %q is accepted as %d", s, int(p))
		case !ok && p != 321:
			c.Violate("wire form %q is refused and changes the target to %d", s, int(p))
		case string(in) != s:
			c.Violate("decoding %q changed the input", s)
		}
	}
	// the wire form belongs to the caller
	r.Case("returned-bytes", func(c *C) {
		for round := 0; round < 3; round++ {
			for k := 0; k < 256; k++ {
				b, err := syslog.Priority(k).Marshal5424()
				if want := fmt.Sprintf("<%d>1", k); err != nil || string(b) != want {
					c.Violate("priority %d is encoded as %s, %v, after earlier encodings were overwritten", k, q(b), err)
					return
				}
				for i := range b {
					b[i] = '#'
				}
				_ = append(b, "0123456789"...)
				c.Eval(true, "returned", k, round)
			}
		}
	})
	r.Case("wire", func(c *C) {
		// digits: all of 0..9 appear in the canonical part below; here structure is enumerated
		alpha := []byte("<>0125-+ 9")
		maxLen := r.N(6, 7)
		var n int64
		buf := make([]byte, maxLen)
		var rec func(i, l int)
		rec = func(i, l int) {
			if i == l {
				s := string(buf[:l])
				checkWire(c, s)
				n++
				if n%5000 == 0 {
					c.Eval(true, "w", s)
				}
				return
			}
			for _, a := range alpha {
				buf[i] = a
				rec(i+1, l)
			}
		}
		for l := 0; l <= maxLen; l++ {
			rec(0, l)
		}
		c.Stat("wire_strings_enumerated", n)
		for k := 0; k <= 9999; k++ {
			for _, f := range []string{"<%d>1", "<%02d>1", "<%03d>1", "<%d>2", "<%d> 1", "<%d>11", "%d>1", "<%d1", "<%d>", " <%d>1", "<%d>1 "} {
				checkWire(c, fmt.Sprintf(f, k))
			}
			c.Eval(true, "k", k)
		}
		for k := 0; k <= 191; k++ {
			s := fmt.Sprintf("<%d>1", k)
			for i := range s {
				for b := 0; b < 256; b++ {
					checkWire(c, s[:i]+string([]byte{byte(b)})+s[i+1:])
					checkWire(c, s[:i]+string([]byte{byte(b)})+s[i:])
				}
			}
			c.Eval(true, "m", s)
		}
		checkWire(c, "")
		p := syslog.Priority(5)
		if p.Unmarshal5424(nil) == nil || p != 5 {
			c.Violate("nil wire form accepted")
		}
	})
}
