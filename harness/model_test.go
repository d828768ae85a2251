package vharness

// Reference model of a message and of the operations that derive one from another.

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

type refState struct {
	prio                   int
	ts                     time.Time
	tsAny                  bool // set from the clock: only its form is known here
	host, app, proc, msgid string
	hostAny                bool
	sd, text               string
}

// dynSD is a map with hostile names, encoded by the generic encoder.
type dynSD map[string]string

func (dynSD) String() string { return "dyn@32473" }
func (dynSD) IsIANA() bool   { return false }
func (dynSD) GetPEN() uint64 { return 32473 }

func (d dynSD) want() string {
	keys := []string{}
	for k := range d {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := "[dyn@32473"
	for _, k := range keys {
		s += " " + refSDName(k) + "=\"" + escapeSD(d[k]) + "\""
	}
	return s + "]"
}

// idSD is a struct whose identifier is data.
type idSD struct {
	id   string
	iana bool
	A    string `sd5424:"a"`
	B    *string
}

func (d idSD) String() string { return d.id }
func (d idSD) IsIANA() bool   { return d.iana }
func (d idSD) GetPEN() uint64 { return 32473 }

func (d idSD) want() string {
	s := "[" + refSDName(d.id)
	if d.A != "" {
		s += " a=\"" + escapeSD(d.A) + "\""
	}
	if d.B != nil {
		s += " B=\"" + escapeSD(*d.B) + "\""
	}
	return s + "]"
}

// randSD gives a structured data and its wire form.
func randSD(g *rand.Rand) (sdata.StructuredData, string) {
	switch g.IntN(4) {
	case 0:
		d := dynSD{}
		for k := g.IntN(5); k > 0; k-- {
			key := sdName(g, 32)
			if g.IntN(2) == 0 {
				key = string(randBytes(g, g.IntN(40)))
			}
			d[key] = sdValue(g, 100)
		}
		return syslog.GenericSD(d), d.want()
	case 1:
		d := idSD{id: randField(g, 32), A: sdValue(g, 50)}
		if g.IntN(3) == 0 {
			d.id, d.iana = pick(g, "timeQuality", "origin", "meta", "snmp", d.id), true
		}
		if g.IntN(3) == 0 {
			v := sdValue(g, 20)
			d.B = &v
		}
		return sdata.GenericSD(d), d.want()
	}
	raw := sdElementRaw(g)
	return rawSD(raw), raw
}

// refNew makes a message through a random public constructor.
func refNew(g *rand.Rand) (syslog.Message, refState, string) {
	host, app, proc, msgid := randField(g, 255), randField(g, 48), randField(g, 128), randField(g, 32)
	text, prio, ts := randText(g, 3000), g.IntN(192), randTime(g)
	switch g.IntN(6) {
	case 0:
		return syslog.CreateMessage(app, syslog.Priority(prio), text),
			refState{prio: prio, tsAny: true, hostAny: true, app: refField(app, 48), proc: "-", msgid: "-", sd: "-", text: refTrim(text)}, "CreateMessage"
	case 1:
		return syslog.EmptyMessage(),
			refState{prio: 0, ts: time.Unix(0, 0), host: "-", app: "-", proc: "-", msgid: "-", sd: "-"}, "EmptyMessage"
	}
	return syslog.CreateWholeMessage(syslog.Priority(prio), ts, host, app, proc, msgid, text),
		refState{prio: prio, ts: ts, host: refField(host, 255), app: refField(app, 48), proc: refField(proc, 128), msgid: refField(msgid, 32), sd: "-", text: refTrim(text)}, "CreateWholeMessage"
}

// refDerive applies one random setter.
func refDerive(g *rand.Rand, m syslog.Message, s refState) (syslog.Message, refState, string) {
	switch g.IntN(13) {
	case 0:
		v := randField(g, 255)
		s.host, s.hostAny = refField(v, 255), false
		return m.Host(v), s, "Host"
	case 1:
		v := randField(g, 48)
		s.app = refField(v, 48)
		return m.AppName(v), s, "AppName"
	case 2:
		v := randField(g, 128)
		s.proc = refField(v, 128)
		return m.ProcID(v), s, "ProcID"
	case 3:
		v := randField(g, 32)
		s.msgid = refField(v, 32)
		return m.MsgID(v), s, "MsgID"
	case 4:
		s.prio = g.IntN(192)
		return m.Priority(syslog.Priority(s.prio)), s, "Priority"
	case 5:
		s.hostAny = true
		return m.LocalHost(), s, "LocalHost"
	case 6:
		v := randText(g, 3000)
		s.text = refTrim(v)
		return m.Msg(v), s, "Msg"
	case 7, 8:
		var l []sdata.StructuredData
		add := ""
		for k := pick(g, 0, 1, 1, 1, 2, 3, 6); k > 0; k-- {
			sd, w := randSD(g)
			l = append(l, sd)
			add += w
		}
		if add != "" {
			if s.sd == "-" {
				s.sd = ""
			}
			s.sd += add
		}
		return m.StructuredData(l...), s, "StructuredData"
	case 9:
		s.ts, s.tsAny = randTime(g), false
		return m.Time(s.ts), s, "Time"
	case 10:
		s.tsAny = true
		return m.Now(), s, "Now"
	case 11:
		sec, ns := int64(g.IntN(4000000000)), int64(g.IntN(1000000000))
		s.ts, s.tsAny = time.Unix(sec, ns), false
		return m.Epoch(fmt.Sprint(sec), fmt.Sprint(ns)), s, "Epoch"
	default:
		boot := randTime(g)
		if boot.Year() > 9900 || boot.Year() < 1 {
			boot = time.Unix(int64(g.IntN(4000000000)), 0).UTC()
		}
		sec, ns := int64(g.IntN(1<<31)), int64(g.IntN(1000000000))
		s.ts, s.tsAny = boot.Add(time.Duration(sec)*time.Second+time.Duration(ns)), false
		return m.Delta(boot, fmt.Sprint(sec), fmt.Sprint(ns)), s, "Delta"
	}
}

// wantFor gives the expected encoding; fields only known in form are taken from got.
func (s refState) wantFor(got refMsg) string {
	ts, host := "", s.host
	if s.tsAny {
		ts = got.TS
	} else {
		ts = refStamp(s.ts)
	}
	if s.hostAny {
		host = got.Host
	}
	return refEncode(s.prio, ts, host, s.app, s.proc, s.msgid, s.sd, s.text)
}
