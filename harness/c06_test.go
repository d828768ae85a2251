package vharness

import (
	"fmt"
	"math/rand/v2"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// rig is a syslog over a monitored output.
type rig struct {
	s    *sink
	snd  *syslog.Sender
	errs *errLog
	f    framing
}

func newRig() *rig {
	g := &rig{s: &sink{}, f: framings()[0]}
	var ch <-chan error
	g.snd, ch = syslog.NewSender(g.s, g.f.T, make(chan time.Time))
	g.errs = drainErrs(ch)
	return g
}

// end ends the sender and gives the frames written.
func (g *rig) end(c *C) []string {
	g.snd.End()
	<-g.errs.done
	frames, rest, err := g.f.split(g.s.bytes())
	if err != nil || len(rest) > 0 {
		c.Violate("the output is not a sequence of frames: %v, tail %s", err, q(rest))
	}
	return frames
}

// chanModel is the reference model of a channel or of a (sub-)syslog.
type chanModel struct {
	fac, min  int
	host, pid string
	app, msg  string
}

func (m chanModel) appName(sup string) chanModel {
	if m.app == "-" {
		m.app = refField(sup, 48)
	} else {
		m.app = refField(m.app+"/"+sup, 48)
	}
	return m
}

func (m chanModel) frame(sev int, ts time.Time, sd, text string) string {
	return refEncode(m.fac|sev, refStamp(ts), m.host, m.app, m.pid, m.msg, sd, refTrim(text))
}

func hostModel() chanModel {
	h, err := os.Hostname()
	if err != nil {
		h = "-"
	}
	return chanModel{host: refField(h, 255), pid: strconv.Itoa(os.Getpid()), msg: "-"}
}

// node is a channel with its model.
type node struct {
	ch   syslog.Channel
	m    chanModel
	sev  int
	path string
}

func (n node) enabled() bool { return n.sev <= n.m.min }

// derive gives a channel derived from n.
func (n node) derive(g *rand.Rand) node {
	v := randField(g, 48)
	if g.IntN(2) == 0 {
		v = pick(g, "a", "b", "sub", "x/y", "", "-", "é", "with space", n.m.app, n.m.app[strings.LastIndexByte(n.m.app, '/')+1:], n.m.msg)
	}
	if g.IntN(2) == 0 {
		return node{n.ch.AppName(v), n.m.appName(v), n.sev, n.path + ".AppName(" + strconv.Quote(v) + ")"}
	}
	m := n.m
	m.msg = refField(v, 32)
	return node{n.ch.Msgid(v), m, n.sev, n.path + ".Msgid(" + strconv.Quote(v) + ")"}
}

// logOnce logs through the channel and gives the frame expected ("" when disabled).
func (n node) logOnce(c *C, g *rand.Rand, ts time.Time) string {
	text := randText(g, 300)
	sdw := "-"
	var sds []sdata.StructuredData
	kind := g.IntN(4)
	switch kind {
	case 0:
		k := g.IntN(4)
		if g.IntN(6) == 0 {
			k = g.IntN(pick(g, 10, 40, 40, 300))
		}
		for ; k > 0; k-- {
			sd, w := randSD(g)
			if sdw == "-" {
				sdw = ""
			}
			for again := g.IntN(8); again >= 0; again = again - 6 { // sometimes the same one twice
				sds = append(sds, sd)
				sdw += w
			}
		}
		n.ch.Log(text, sds...)
		for k := range sds { // the caller may reuse its slice
			sds[k] = rawSD("[overwritten]")
		}
	case 1:
		b := []byte(text)
		k, err := n.ch.Write(b)
		if k != len(text) || err != nil {
			c.Violate("%s: Write of %d bytes gives %d, %v", n.path, len(text), k, err)
		}
		for i := range b { // the caller may reuse its buffer
			b[i] = '#'
		}
	default:
		n.ch.Log(text)
	}
	if n.ch.IsDevNull() == n.enabled() {
		c.Violate("%s: IsDevNull %v on a channel of severity %d with minimal severity %d", n.path, n.ch.IsDevNull(), n.sev, n.m.min)
	}
	if !n.enabled() {
		return ""
	}
	return n.m.frame(n.sev, ts, sdw, text)
}

func (c *C) sameFrames(what string, got, want []string) {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			c.Violate("%s: message %d of %d was not logged: %s", what, i, len(want), q(want[i]))
			return
		case i >= len(want):
			c.Violate("%s: %d messages were logged, frame %d is one more: %s", what, len(want), i, q(got[i]))
			return
		case got[i] != want[i]:
			c.Violate("%s: message %d is %s, want %s", what, i, q(got[i]), q(want[i]))
			return
		}
	}
}

func TestC06(t *testing.T) {
	r := newR(t, "C06", "one evaluation = one log call on a channel whose frame (or absence of a frame) at the monitored output is compared with the reference context model; distinct = distinct expected frames plus distinct disabled channels")
	ts := time.Date(2024, 1, 2, 3, 4, 5, 678901000, time.UTC)
	syslog.Now = func() time.Time { return ts }
	defer func() { syslog.Now = time.Now }()

	r.Case("all-severities", func(c *C) {
		for fac := 0; fac < 24; fac++ {
			for min := 0; min < 8; min++ {
				for form := 0; form < 6; form++ {
					rg := newRig()
					app := fmt.Sprintf("app%d", fac)
					sl, err := syslog.New(rg.snd, syslog.Priority(fac*8+min), app)
					if err != nil {
						c.Violate("New: %v", err)
						continue
					}
					m := hostModel()
					m.fac, m.min, m.app = fac*8, min, app
					switch form {
					case 1:
						sl.TestMode()
						m.host, m.pid = "localhost", "1234"
					case 2:
						sl, m = sl.SubSyslog("s"), m.appName("s")
					case 3:
						sl, m = sl.SubSyslog("s").SubSyslog("t"), m.appName("s").appName("t")
					}
					var want []string
					for sev := 0; sev < 8; sev++ {
						arg := syslog.Priority(sev)
						if form == 5 { // a severity with a facility
							arg |= syslog.Priority(((fac + 5) % 24) * 8)
						}
						n := node{sl.Channel(arg), m, sev, fmt.Sprintf("minimal %d|%d form %d severity %d", fac, min, form, sev)}
						if form == 4 {
							n = node{n.ch.AppName("x").Msgid("id"), m.appName("x"), sev, n.path + " derived"}
							n.m.msg = "id"
						}
						if n.ch == nil {
							c.Violate("%s: no channel", n.path)
							continue
						}
						w := n.logOnce(c, c.Rand, ts)
						if w != "" {
							want = append(want, w)
						}
						n.ch.Logger("p: ").Print("silent?")
						if n.enabled() && sev != 7 {
							want = append(want, n.m.frame(sev, ts, "-", "p: silent?"))
						} else if n.enabled() {
							want = append(want, "debug")
						}
						c.Eval(true, n.path, w)
					}
					got := rg.end(c)
					for i := range want {
						if want[i] == "debug" && i < len(got) {
							want[i] = got[i] // judged by C23
						}
					}
					c.sameFrames(fmt.Sprintf("minimal %d.%d form %d", fac, min, form), got, want)
					c.Stat("frames_observed", int64(len(got)))
				}
			}
		}
	})

	// all derivation sequences over a small alphabet, to a depth
	r.Case("all-derivations", func(c *C) {
		rg := newRig()
		m := hostModel()
		m.fac, m.min, m.app = 3*8, 5, "base"
		sl, _ := syslog.New(rg.snd, syslog.LogDAEMON|syslog.LogNOTICE, "base")
		ops := []string{"A:a", "A:b", "M:m", "M:n", "A:", "M:-"}
		depth := r.N(4, 6)
		var want []string
		var walk func(n node, d int)
		walk = func(n node, d int) {
			n.ch.Log(n.path)
			if n.enabled() {
				want = append(want, n.m.frame(n.sev, ts, "-", n.path))
			}
			if n.ch.IsDevNull() == n.enabled() {
				c.Violate("%s: IsDevNull is %v", n.path, n.ch.IsDevNull())
			}
			c.Eval(true, n.path, n.sev)
			if d == 0 {
				return
			}
			for _, o := range ops {
				x := n
				x.path += " " + o
				if o[0] == 'A' {
					x.ch, x.m = n.ch.AppName(o[2:]), n.m.appName(o[2:])
				} else {
					x.ch, x.m.msg = n.ch.Msgid(o[2:]), refField(o[2:], 32)
				}
				walk(x, d-1)
			}
			// the origin is not changed by what was derived from it
			n.ch.Log(n.path + " again")
			if n.enabled() {
				want = append(want, n.m.frame(n.sev, ts, "-", n.path+" again"))
			}
		}
		for _, sev := range []int{0, 5, 6} {
			walk(node{sl.Channel(syslog.Priority(sev)), m, sev, "c"}, depth)
		}
		sub := sl.SubSyslog("sub")
		walk(node{sub.Channel(syslog.LogNOTICE), m.appName("sub"), 5, "s"}, depth-1)
		walk(node{sub.Channel(syslog.LogDEBUG), m.appName("sub"), 7, "s"}, depth-1)
		got := rg.end(c)
		c.sameFrames("derivations", got, want)
		c.Stat("frames_observed", int64(len(got)))
	})

	r.Case("random-contexts", func(c *C) {
		c.Parallel(r.N(3000, 60000), func(i int) {
			g := c.Sub(i)
			rg := newRig()
			app := randField(g, 48)
			for app == "" {
				app = randField(g, 48)
			}
			m := hostModel()
			m.fac, m.min, m.app = 8*g.IntN(24), g.IntN(8), refField(app, 48)
			sl, err := syslog.New(rg.snd, syslog.Priority(m.fac+m.min), app)
			if err != nil {
				c.Violate("New(%q): %v", app, err)
				return
			}
			type sys struct {
				s    *syslog.Syslog
				m    chanModel
				path string
			}
			if g.IntN(4) == 0 {
				sl.TestMode()
				m.host, m.pid = "localhost", "1234"
			}
			sys1 := []sys{{sl, m, fmt.Sprintf("syslog %d|%d %q", m.fac, m.min, app)}}
			var nodes []node
			var want []string
			for o := 3 + g.IntN(25); o > 0; o-- {
				switch k := g.IntN(6); {
				case k == 0:
					s := sys1[g.IntN(len(sys1))]
					v := randField(g, 48)
					sys1 = append(sys1, sys{s.s.SubSyslog(v), s.m.appName(v), s.path + ".SubSyslog(" + strconv.Quote(v) + ")"})
				case k <= 2 || len(nodes) == 0:
					s := sys1[g.IntN(len(sys1))]
					sev := g.IntN(8)
					nodes = append(nodes, node{s.s.Channel(syslog.Priority(sev)), s.m, sev, s.path + ".Channel(" + strconv.Itoa(sev) + ")"})
				case k == 3:
					nodes = append(nodes, nodes[g.IntN(len(nodes))].derive(g))
				default:
					n := nodes[g.IntN(len(nodes))]
					w := n.logOnce(c, g, ts)
					if w != "" {
						want = append(want, w)
					}
					c.Eval(true, n.path, w)
				}
			}
			for _, n := range nodes {
				if w := n.logOnce(c, g, ts); w != "" {
					want = append(want, w)
				}
			}
			got := rg.end(c)
			c.sameFrames("random context of "+sys1[0].path, got, want)
			c.Stat("frames_observed", int64(len(got)))
			if i < 2 && len(nodes) > 0 {
				c.Sample("context", "%s", nodes[len(nodes)-1].path)
			}
		})
	})

	r.Case("empty-appname", func(c *C) {
		rg := newRig()
		if sl, err := syslog.New(rg.snd, syslog.LogUSER|syslog.LogINFO, ""); err == nil || sl != nil {
			c.Violate("New with an empty application name gives %v, %v", sl, err)
		}
		rg.end(c)
		c.Eval(true, "empty")
	})

	// concurrent first use: every goroutine gets channels that behave the same
	r.Case("concurrent-first-use", func(c *C) {
		for round := 0; round < r.N(400, 20000); round++ {
			g := c.Sub(round)
			rg := newRig()
			m := hostModel()
			m.fac, m.min, m.app = 8*g.IntN(24), g.IntN(8), "conc"
			sl, _ := syslog.New(rg.snd, syslog.Priority(m.fac+m.min), "conc")
			workers := 2 + g.IntN(7)
			start := make(chan struct{})
			var wg sync.WaitGroup
			var mu sync.Mutex
			want := map[string]int{}
			for w := 0; w < workers; w++ {
				wg.Add(1)
				wr := rand.New(rand.NewPCG(uint64(round), uint64(w)))
				go func() {
					defer wg.Done()
					<-start
					c.Guard(func() {
						for k := 0; k < 8; k++ {
							sev := (k + w) % 8
							n := node{sl.Channel(syslog.Priority(sev)), m, sev, fmt.Sprintf("first use, severity %d of %d", sev, m.min)}
							if wr.IntN(3) == 0 {
								s := sl.SubSyslog("s")
								n = node{s.Channel(syslog.Priority(sev)), m.appName("s"), sev, "sub " + n.path}
							}
							if wr.IntN(3) == 0 {
								n = n.derive(wr)
							}
							if n.ch.IsDevNull() == n.enabled() {
								c.Violate("%s: IsDevNull is %v", n.path, n.ch.IsDevNull())
							}
							text := fmt.Sprintf("w%d k%d", w, k)
							n.ch.Log(text)
							if n.enabled() {
								mu.Lock()
								want[n.m.frame(sev, ts, "-", text)]++
								mu.Unlock()
							}
							c.Eval(true, n.path, text)
						}
					})
				}()
			}
			close(start)
			wg.Wait()
			got := rg.end(c)
			for _, f := range got {
				if want[f]--; want[f] < 0 {
					c.Violate("concurrent first use: frame %s logged too often or never expected", q(f))
				}
			}
			for f, k := range want {
				if k > 0 {
					c.Violate("concurrent first use: %s was not logged", q(f))
				}
			}
			c.Stat("frames_observed", int64(len(got)))
		}
	})
}
