package vharness

// Independent reference: RFC 5424 strict reader, header sanitiser, expected encodings.

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"
	"unicode"
)

type refParam struct{ K, V string } // V unescaped

type refElem struct {
	ID     string
	Params []refParam
	Raw    string
}

type refMsg struct {
	Prio                   int
	TS                     string
	Host, App, Proc, MsgID string
	SDRaw                  string
	SD                     []refElem
	HasText                bool
	Text                   string
}

func refPrintable(s string, max int) error {
	if len(s) < 1 || len(s) > max {
		return fmt.Errorf("length %d not in 1..%d", len(s), max)
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 33 || s[i] > 126 {
			return fmt.Errorf("octet %#x at %d", s[i], i)
		}
	}
	return nil
}

// refTimestamp reads an RFC 5424 TIMESTAMP; digits gives the number of fraction digits.
func refTimestamp(s string) (sec int64, usec int, off int, err error) {
	bad := errors.New("bad timestamp " + strconv.Quote(s))
	num := func(a, b int) int {
		v := 0
		for i := a; i < b; i++ {
			if i >= len(s) || s[i] < '0' || s[i] > '9' {
				err = bad
				return 0
			}
			v = v*10 + int(s[i]-'0')
		}
		return v
	}
	lit := func(i int, c byte) {
		if i >= len(s) || s[i] != c {
			err = bad
		}
	}
	y, mo, d := num(0, 4), num(5, 7), num(8, 10)
	h, mi, se := num(11, 13), num(14, 16), num(17, 19)
	lit(4, '-')
	lit(7, '-')
	lit(10, 'T')
	lit(13, ':')
	lit(16, ':')
	if err != nil {
		return
	}
	if mo < 1 || mo > 12 || d < 1 || d > refDaysIn(y, mo) || h > 23 || mi > 59 || se > 59 {
		return 0, 0, 0, bad
	}
	p := 19
	if p < len(s) && s[p] == '.' {
		p++
		q := p
		for q < len(s) && s[q] >= '0' && s[q] <= '9' {
			q++
		}
		if q == p || q-p > 6 {
			return 0, 0, 0, bad
		}
		v, _ := strconv.Atoi(s[p:q])
		for i := q - p; i < 6; i++ {
			v *= 10
		}
		usec = v
		p = q
	}
	switch {
	case s[p:] == "Z":
	case len(s) == p+6 && (s[p] == '+' || s[p] == '-') && s[p+3] == ':':
		oh, om := num(p+1, p+3), num(p+4, p+6)
		if err != nil || oh > 23 || om > 59 {
			return 0, 0, 0, bad
		}
		off = oh*3600 + om*60
		if s[p] == '-' {
			off = -off
		}
	default:
		return 0, 0, 0, bad
	}
	days := refDays(y, mo, d)
	sec = days*86400 + int64(h*3600+mi*60+se) - int64(off)
	return
}

func refLeap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
func refDaysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if refLeap(y) {
			return 29
		}
		return 28
	}
	return 31
}

// refDays counts days from 1970-01-01 in the proleptic Gregorian calendar.
func refDays(y, m, d int) int64 {
	if m <= 2 {
		y--
	}
	era := y
	if y < 0 {
		era = y - 399
	}
	era /= 400
	yoe := y - era*400
	mm := m + 9
	if m > 2 {
		mm = m - 3
	}
	doy := (153*mm+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return int64(era)*146097 + int64(doe) - 719468
}

// refElement reads one SD-ELEMENT at the beginning of s.
func refElement(s string) (e refElem, n int, err error) {
	name := func(i int) (string, int) {
		j := i
		for j < len(s) && s[j] >= 33 && s[j] <= 126 && s[j] != '=' && s[j] != ']' && s[j] != '"' {
			j++
		}
		return s[i:j], j
	}
	if s == "" || s[0] != '[' {
		return e, 0, errors.New("no [")
	}
	var i int
	e.ID, i = name(1)
	if e.ID == "" || len(e.ID) > 32 {
		return e, 0, fmt.Errorf("bad SD-ID %q", e.ID)
	}
	for {
		if i >= len(s) {
			return e, 0, errors.New("unterminated element")
		}
		if s[i] == ']' {
			e.Raw = s[:i+1]
			return e, i + 1, nil
		}
		if s[i] != ' ' {
			return e, 0, fmt.Errorf("octet %q after name or value", s[i])
		}
		k, j := name(i + 1)
		if k == "" || len(k) > 32 {
			return e, 0, fmt.Errorf("bad PARAM-NAME %q", k)
		}
		if j+1 >= len(s) || s[j] != '=' || s[j+1] != '"' {
			return e, 0, errors.New("no =\"")
		}
		j += 2
		var v strings.Builder
		for {
			if j >= len(s) {
				return e, 0, errors.New("unterminated value")
			}
			if s[j] == '"' {
				break
			}
			if s[j] == ']' {
				return e, 0, errors.New("unescaped ] in value")
			}
			if s[j] == '\\' && j+1 < len(s) && (s[j+1] == '"' || s[j+1] == '\\' || s[j+1] == ']') {
				j++
			}
			v.WriteByte(s[j])
			j++
		}
		e.Params = append(e.Params, refParam{k, v.String()})
		i = j + 1
	}
}

// refRead is the strict RFC 5424 reader.
func refRead(b []byte) (m refMsg, err error) {
	s := string(b)
	if len(s) < 5 || s[0] != '<' {
		return m, errors.New("no PRI")
	}
	gt := strings.IndexByte(s, '>')
	if gt < 2 || gt > 4 {
		return m, errors.New("bad PRI")
	}
	for _, c := range s[1:gt] {
		if c < '0' || c > '9' {
			return m, errors.New("bad PRI digit")
		}
		m.Prio = m.Prio*10 + int(c-'0')
	}
	if m.Prio > 191 || strconv.Itoa(m.Prio) != s[1:gt] {
		return m, fmt.Errorf("bad PRIVAL %q", s[1:gt])
	}
	if !strings.HasPrefix(s[gt+1:], "1 ") {
		return m, errors.New("bad VERSION")
	}
	rest := s[gt+3:]
	next := func() string {
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			if err == nil {
				err = errors.New("missing header field")
			}
			return ""
		}
		f := rest[:i]
		rest = rest[i+1:]
		return f
	}
	m.TS, m.Host, m.App, m.Proc, m.MsgID = next(), next(), next(), next(), next()
	if err != nil {
		return
	}
	if m.TS != "-" {
		if _, _, _, err = refTimestamp(m.TS); err != nil {
			return
		}
	}
	for i, f := range []struct {
		v   string
		max int
	}{{m.Host, 255}, {m.App, 48}, {m.Proc, 128}, {m.MsgID, 32}} {
		if e := refPrintable(f.v, f.max); e != nil {
			return m, fmt.Errorf("header field %d: %v", i, e)
		}
	}
	if rest == "" {
		return m, errors.New("no STRUCTURED-DATA")
	}
	if rest[0] == '-' {
		m.SDRaw = "-"
		rest = rest[1:]
	} else {
		start := rest
		for rest != "" && rest[0] == '[' {
			e, n, e2 := refElement(rest)
			if e2 != nil {
				return m, e2
			}
			m.SD = append(m.SD, e)
			rest = rest[n:]
		}
		m.SDRaw = start[:len(start)-len(rest)]
		if m.SDRaw == "" {
			return m, errors.New("bad STRUCTURED-DATA")
		}
	}
	if rest == "" {
		return m, nil
	}
	if rest[0] != ' ' {
		return m, fmt.Errorf("octet %q after STRUCTURED-DATA", rest[0])
	}
	m.HasText = true
	m.Text = rest[1:]
	return m, nil
}

// refField is the documented sanitising of a header field.
func refField(s string, max int) string {
	if s == "" {
		return "-"
	}
	if len(s) > max {
		s = s[:max]
	}
	b := []byte(s)
	for i, c := range b {
		if c < 33 || c > 126 {
			b[i] = '%'
		}
	}
	return string(b)
}

func refTrim(s string) string { return strings.TrimRightFunc(s, unicode.IsSpace) }

// refStamp formats an instant as the emitted timestamp must read, by arithmetic only.
func refStamp(t time.Time) string {
	_, off := t.Zone()
	sec := t.Unix() + int64(off)
	us := t.Nanosecond() / 1000
	day := sec / 86400
	if sec%86400 < 0 {
		day--
	}
	sod := int(sec - day*86400)
	z := day + 719468
	era := z
	if z < 0 {
		era = z - 146096
	}
	era /= 146097
	doe := int(z - era*146097)
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y := yoe + int(era)*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d := doy - (153*mp+2)/5 + 1
	m := mp + 3
	if mp >= 10 {
		m = mp - 9
	}
	if m <= 2 {
		y++
	}
	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, m, d, sod/3600, sod/60%60, sod%60)
	if us != 0 {
		s += "." + strings.TrimRight(fmt.Sprintf("%06d", us), "0")
	}
	if off == 0 {
		return s + "Z"
	}
	sign := "+"
	if off < 0 {
		sign, off = "-", -off
	}
	return s + fmt.Sprintf("%s%02d:%02d", sign, off/3600, off/60%60)
}

// refEncode is the expected encoding of a message.
func refEncode(prio int, ts string, host, app, proc, msgid, sd, text string) string {
	s := fmt.Sprintf("<%d>1 %s %s %s %s %s %s", prio, ts, host, app, proc, msgid, sd)
	if text != "" {
		s += " " + text
	}
	return s
}

func q(b any) string {
	var s string
	switch v := b.(type) {
	case []byte:
		s = string(v)
	case string:
		s = v
	default:
		s = fmt.Sprint(v)
	}
	if len(s) > 300 {
		return fmt.Sprintf("%q…(%d bytes)…%q", s[:200], len(s), s[len(s)-60:])
	}
	return strconv.Quote(s)
}
