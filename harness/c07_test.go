package vharness

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// judge07 reads one encoding strictly and compares it with the reference state.
func (c *C) judge07(what string, b []byte, s refState) bool {
	got, err := refRead(b)
	if err != nil {
		c.Violate("%s: not a valid RFC 5424 message (%v): %s", what, err, q(b))
		return false
	}
	if want := s.wantFor(got); want != string(b) {
		c.Violate("%s: encoded as %s, want %s", what, q(b), q(want))
		return false
	}
	return true
}

func (c *C) encode07(what string, m syslog.Message, s refState) {
	var b []byte
	var err error
	if c.Guard(func() { b, err = m.Marshal5424() }) {
		return
	}
	if err != nil {
		c.Violate("%s: Marshal5424 fails: %v", what, err)
		return
	}
	if c.judge07(what, b, s) {
		c.Eval(true, b)
	}
	if str := m.String(); str != string(b) {
		c.Violate("%s: String gives %s and Marshal5424 %s", what, q(str), q(b))
	}
}

func TestC07(t *testing.T) {
	r := newR(t, "C07", "one evaluation = one emitted message read by an independent strict RFC 5424 reader and compared byte for byte with the encoding the reference model of its construction gives; distinct by emitted bytes")

	r.Case("setters", func(c *C) {
		c.Parallel(r.N(40000, 800000), func(i int) {
			g := c.Sub(i)
			m, s, what := refNew(g)
			c.encode07(what, m, s)
			for k := g.IntN(8); k > 0; k-- {
				var op string
				m, s, op = refDerive(g, m, s)
				what += "." + op
				c.encode07(what, m, s)
			}
			c.Sample("setters", "%s => %s", what, q(m.String()))
		})
	})
	fields := []struct {
		name string
		max  int
		set  func(m syslog.Message, v string) syslog.Message
		ref  func(s *refState, v string)
	}{
		{"Host", 255, func(m syslog.Message, v string) syslog.Message { return m.Host(v) }, func(s *refState, v string) { s.host = v }},
		{"AppName", 48, func(m syslog.Message, v string) syslog.Message { return m.AppName(v) }, func(s *refState, v string) { s.app = v }},
		{"ProcID", 128, func(m syslog.Message, v string) syslog.Message { return m.ProcID(v) }, func(s *refState, v string) { s.proc = v }},
		{"MsgID", 32, func(m syslog.Message, v string) syslog.Message { return m.MsgID(v) }, func(s *refState, v string) { s.msgid = v }},
		{"whole-host", 255, func(m syslog.Message, v string) syslog.Message {
			return syslog.CreateWholeMessage(13, time.Unix(0, 0), v, "a", "p", "m", "t")
		}, func(s *refState, v string) { s.host = v }},
		{"whole-app", 48, func(m syslog.Message, v string) syslog.Message {
			return syslog.CreateWholeMessage(13, time.Unix(0, 0), "h", v, "p", "m", "t")
		}, func(s *refState, v string) { s.app = v }},
		{"whole-proc", 128, func(m syslog.Message, v string) syslog.Message {
			return syslog.CreateWholeMessage(13, time.Unix(0, 0), "h", "a", v, "m", "t")
		}, func(s *refState, v string) { s.proc = v }},
		{"whole-msgid", 32, func(m syslog.Message, v string) syslog.Message {
			return syslog.CreateWholeMessage(13, time.Unix(0, 0), "h", "a", "p", v, "t")
		}, func(s *refState, v string) { s.msgid = v }},
	}
	// every octet at several places of every header field, and every length around the limits
	r.Case("fields", func(c *C) {
		base := syslog.CreateWholeMessage(13, time.Unix(0, 0), "h", "a", "p", "m", "t")
		for _, f := range fields {
			try := func(v string) {
				s := refState{prio: 13, ts: time.Unix(0, 0), host: "h", app: "a", proc: "p", msgid: "m", sd: "-", text: "t"}
				f.ref(&s, refField(v, f.max))
				c.encode07(f.name+"("+q(v)+")", f.set(base, v), s)
			}
			for b := 0; b < 256; b++ {
				for _, v := range []string{string([]byte{byte(b)}), string([]byte{'x', byte(b)}), string([]byte{byte(b), 'x'}), string([]byte{'x', byte(b), 'y'}),
					strings.Repeat("x", f.max-1) + string([]byte{byte(b)}), strings.Repeat("x", f.max) + string([]byte{byte(b)}), strings.Repeat(string([]byte{byte(b)}), f.max+5)} {
					try(v)
				}
			}
			for n := 0; n <= f.max+70; n++ {
				try(strings.Repeat("v", n))
			}
			for _, n := range sizes(70000) {
				try(strings.Repeat("w ", n/2))
			}
		}
	})
	r.Case("priorities", func(c *C) {
		for p := 0; p < 192; p++ {
			s := refState{prio: p, ts: time.Unix(0, 0), host: "h", app: "a", proc: "p", msgid: "m", sd: "-", text: "t"}
			c.encode07("priority", syslog.CreateWholeMessage(syslog.Priority(p), time.Unix(0, 0), "h", "a", "p", "m", "t"), s)
		}
	})
	// every octet in structured-data identifiers, names and values, and in texts
	r.Case("sd-octets", func(c *C) {
		for b := 0; b < 256; b++ {
			o := string([]byte{byte(b)})
			for k, v := range []string{o, "x" + o, o + "x", "x" + o + "y", o + o, "\\" + o, o + "]", o + "\""} {
				m := syslog.CreateWholeMessage(13, time.Unix(0, 0), "h", "a", "p", "m", "t")
				s := refState{prio: 13, ts: time.Unix(0, 0), host: "h", app: "a", proc: "p", msgid: "m", sd: "-", text: "t"}
				d := dynSD{v: v, "k": v}
				s.sd = d.want()
				c.encode07("sd map", m.StructuredData(sdata.GenericSD(d)), s)
				e := idSD{id: v, A: v}
				s.sd = e.want()
				c.encode07("sd id", m.StructuredData(sdata.GenericSD(e)), s)
				s.sd = "-"
				s.text = refTrim(v)
				c.encode07("text", m.Msg(v), s)
				s.text = refTrim("a" + v)
				c.encode07("text", syslog.CreateWholeMessage(13, time.Unix(0, 0), "h", "a", "p", "m", "a"+v), s)
				_ = k
			}
		}
	})
	// hundreds of KiB in the text, in values and in header fields, by every way a text is given
	r.Case("huge", func(c *C) {
		c.Parallel(r.N(36, 400), func(i int) {
			g := c.Sub(i)
			n := pick(g, 65536, 140000, 1<<18, 1<<19, 1<<20, 2<<20) + g.IntN(1000) - 500
			var text string
			switch g.IntN(3) {
			case 0:
				text = string(randBytes(g, n))
			case 1:
				text = strings.Repeat("text ", n/5) + pick(g, "", "end", "end\n", strings.Repeat(" ", 70000))
			default:
				text = strings.Repeat("\u3000", n/3) + "end"
			}
			ts := time.Unix(int64(g.IntN(1<<31)), 0)
			m := syslog.CreateWholeMessage(13, ts, "h", "a", "p", "m", "t")
			s := refState{prio: 13, ts: ts, host: "h", app: "a", proc: "p", msgid: "m", sd: "-", text: refTrim(text)}
			what := ""
			switch i % 6 {
			case 0:
				m, what = syslog.CreateWholeMessage(13, ts, "h", "a", "p", "m", text), "CreateWholeMessage"
			case 1:
				m, what = m.Msg(text), "Msg"
			case 2:
				m, what = syslog.CreateMessage("a", 13, text).Host("h").ProcID("p").MsgID("m").Time(ts), "CreateMessage"
			case 3:
				d := dynSD{"k": text, "l": "v", text: text}
				m, what = m.StructuredData(sdata.GenericSD(d)), "values of a map"
				s.sd, s.text = d.want(), "t"
			case 4:
				f := fields[g.IntN(len(fields))]
				m, what = f.set(m, text), f.name
				s = refState{prio: 13, ts: ts, host: "h", app: "a", proc: "p", msgid: "m", sd: "-", text: "t"}
				f.ref(&s, refField(text, f.max))
				if strings.HasPrefix(f.name, "whole") {
					s.ts = time.Unix(0, 0)
				}
			case 5:
				w := &sink{}
				snd, ch := syslog.NewSender(w, syslog.TransportRFC5425, make(chan time.Time))
				l := drainErrs(ch)
				sl, err := syslog.New(snd, 15, "app")
				if err != nil {
					c.Violate("New: %v", err)
					return
				}
				chn := sl.Channel(6).Msgid("huge")
				chn.Log(text)
				chn.Write([]byte(text))
				snd.End()
				<-l.done
				frames, _, err := framings()[0].split(w.bytes())
				if err != nil || len(frames) != 2 {
					c.Violate("2 messages of %d octets logged, %d frames on the wire (%v)", len(text), len(frames), err)
					return
				}
				for _, fr := range frames {
					got, err := refRead([]byte(fr))
					if err != nil || got.Text != s.text {
						c.Violate("a text of %d octets logged, %d octets emitted (%v)", len(text), len(got.Text), err)
					}
					c.Eval(true, fr)
				}
				return
			}
			c.encode07(fmt.Sprintf("%s of %d octets", what, len(text)), m, s)
		})
	})
	r.Case("channels", func(c *C) {
		c.Parallel(r.N(1500, 30000), func(i int) { c07Channels(c, i) })
	})
	r.Case("local-hostname", func(c *C) { c07Hostname(c) })
}

// c07Channels logs through randomly configured channels and reads the stream strictly.
func c07Channels(c *C, i int) {
	g := c.Sub(i)
	s := &sink{}
	f := framings()[0]
	snd, ch := syslog.NewSender(s, f.T, make(chan time.Time))
	l := drainErrs(ch)
	app := randField(g, 48)
	if app == "" {
		app = "x"
	}
	sl, err := syslog.New(snd, syslog.Priority(g.IntN(24)<<3)|syslog.LogDEBUG, app)
	if err != nil {
		c.Violate("New refuses %s: %v", q(app), err)
		snd.End()
		return
	}
	for k := g.IntN(3); k > 0; k-- {
		sl = sl.SubSyslog(randField(g, 48))
	}
	chn := sl.Channel(syslog.Priority(g.IntN(8)))
	for k := g.IntN(4); k > 0; k-- {
		if g.IntN(2) == 0 {
			chn = chn.AppName(randField(g, 48))
		} else {
			chn = chn.Msgid(randField(g, 32))
		}
	}
	var texts, sds []string
	for k := 1 + g.IntN(5); k > 0; k-- {
		text := randText(g, 2000)
		sd := "-"
		switch g.IntN(3) {
		case 0:
			chn.Write([]byte(text))
		case 1:
			var lsd []sdata.StructuredData
			for j := g.IntN(3); j > 0; j-- {
				x, w := randSD(g)
				lsd = append(lsd, x)
				if sd == "-" {
					sd = ""
				}
				sd += w
			}
			chn.Log(text, lsd...)
		case 2:
			chn.Log(text)
		}
		texts = append(texts, refTrim(text))
		sds = append(sds, sd)
	}
	snd.End()
	<-l.done
	frames, rest, err := f.split(s.bytes())
	if err != nil || len(rest) != 0 || len(frames) != len(texts) {
		c.Violate("%d messages logged, %d frames on the wire (%v)", len(texts), len(frames), err)
		return
	}
	for k, fr := range frames {
		got, err := refRead([]byte(fr))
		if err != nil {
			c.Violate("a channel emitted %s: %v", q(fr), err)
			return
		}
		if got.Text != texts[k] || got.SDRaw != sds[k] || got.HasText != (texts[k] != "") {
			c.Violate("logged text %s sd %s, emitted %s", q(texts[k]), q(sds[k]), q(fr))
		}
		if got.Proc != strconv.Itoa(os.Getpid()) {
			c.Violate("process id %d emitted as %s", os.Getpid(), q(got.Proc))
		}
		c.Eval(true, fr)
		c.Sample("channel", "%s", q(fr))
	}
}

var probeHosts = []string{"bad host", "h\x01st", "h\xc3\xa9te", strings.Repeat("h", 64), "-", "a b\"]=c", "h\n", "plain.example"}

// roleHost runs in a child: in the first stage (inside its own user and UTS namespaces) it sets
// the hostname, in the second one it emits messages carrying the local hostname.
func roleHost() {
	switch os.Getenv("VH_ROLE") {
	case "sethost":
		h, _ := strconv.Unquote(os.Getenv("VH_HOST"))
		if err := syscall.Sethostname([]byte(h)); err != nil {
			os.Exit(7)
		}
		os.Setenv("VH_ROLE", "probehost")
		env := os.Environ()
		syscall.Exec("/proc/self/exe", os.Args, env)
		os.Exit(8)
	case "probehost":
		w := &sink{}
		snd, _ := syslog.NewSender(w, syslog.TransportRFC5425, make(chan time.Time))
		snd.Send(syslog.CreateMessage("a", 13, "t"))
		snd.Send(syslog.EmptyMessage().LocalHost())
		sl, err := syslog.New(snd, 15, "app")
		if err != nil {
			os.Exit(9)
		}
		sl.Channel(6).Log("x")
		sl.SubSyslog("sub").Channel(6).Log("x")
		snd.End()
		os.Stdout.Write(w.bytes())
		os.Exit(0)
	case "locallog":
		roleLocalLog()
	case "nofilerecv":
		roleNoFileReceive()
	case "nofilesend":
		roleNoFileSend()
	}
}

func TestMain(m *testing.M) {
	// an endless recursion is a crash long before it exhausts the memory
	debug.SetMaxStack(128 << 20)
	roleHost()
	os.Exit(m.Run())
}

func c07Hostname(c *C) {
	for _, h := range probeHosts {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, "/proc/self/exe")
		cmd.Env = append(os.Environ(), "VH_ROLE=sethost", "VH_HOST="+strconv.Quote(h))
		cmd.SysProcAttr = &syscall.SysProcAttr{
			Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWUTS,
			UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
			GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
		}
		var out bytes.Buffer
		cmd.Stdout = &out
		if err := cmd.Run(); err != nil {
			c.Inconclusive("hostname probe %q not possible here: %v", h, err)
			continue
		}
		frames, _, err := framings()[0].split(out.Bytes())
		if err != nil || len(frames) != 4 {
			c.Violate("with the hostname %s the stream is %s", q(h), q(out.Bytes()))
			continue
		}
		for _, fr := range frames {
			got, err := refRead([]byte(fr))
			if err != nil {
				c.Violate("with the local hostname %s: %v in %s", q(h), err, q(fr))
			} else if got.Host != refField(h, 255) {
				c.Violate("local hostname %s emitted as %s", q(h), q(got.Host))
			}
			c.Eval(true, "hostname", h, fr)
		}
		c.Stat("hostnames_probed", 1)
		c.Sample("hostname", "%s", fmt.Sprintf("%q => %s", h, q(frames[0])))
	}
}
