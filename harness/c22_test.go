package vharness

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// stampOf takes the timestamp field out of an encoding.
func stampOf(m syslog.Message) (string, error) {
	b, err := m.Marshal5424()
	if err != nil {
		return "", err
	}
	rm, err := refRead(b)
	if err != nil {
		return "", fmt.Errorf("%v in %s", err, q(b))
	}
	return rm.TS, nil
}

// instant is an absolute instant in microseconds, computed without the time package.
func instantOf(stamp string) (int64, int, error) {
	sec, us, off, err := refTimestamp(stamp)
	return sec*1000000 + int64(us), off, err
}

// floorMicro truncates (sec, nsec) to the microsecond.
func floorMicro(sec, nsec int64) int64 {
	s := nsec / 1000000000
	n := nsec - s*1000000000
	if n < 0 {
		n += 1000000000
		s--
	}
	return (sec+s)*1000000 + n/1000
}

func inYears(us int64, off int) bool {
	lo := refDays(0, 1, 1)*86400*1000000 - int64(off)*1000000
	hi := refDays(10000, 1, 1)*86400*1000000 - int64(off)*1000000
	return us >= lo && us < hi
}

// c22Keep applies setters that must not touch the timestamp.
func c22Keep(g *rand.Rand, m syslog.Message) syslog.Message {
	for k := g.IntN(4); k > 0; k-- {
		switch g.IntN(7) {
		case 0:
			m = m.Host(randField(g, 255))
		case 1:
			m = m.AppName(randField(g, 48))
		case 2:
			m = m.ProcID(randField(g, 128))
		case 3:
			m = m.MsgID(randField(g, 32))
		case 4:
			m = m.Priority(syslog.Priority(g.IntN(192)))
		case 5:
			m = m.Msg(randText(g, 100)).LocalHost()
		case 6:
			m = m.StructuredData(rawSD(sdElementRaw(g)))
		}
	}
	return m
}

func (c *C) judgeInstant(what string, m syslog.Message, us int64, off int, anyOff bool) {
	s, err := stampOf(m)
	if err != nil {
		c.Violate("%s: %v", what, err)
		return
	}
	gus, goff, err := instantOf(s)
	if err != nil {
		c.Violate("%s: emitted %q: %v", what, s, err)
		return
	}
	if gus != us {
		c.Violate("%s: emitted %s, %d us away from the instant given", what, s, gus-us)
	}
	if !anyOff && goff != off {
		c.Violate("%s: emitted %s, the zone given has offset %d s", what, s, off)
	}
	c.Eval(true, what, s)
}

func TestC22(t *testing.T) {
	r := newR(t, "C22", "one evaluation = one timestamp emitted after a setter, read by an independent RFC 3339 reader and compared with the instant given by integer arithmetic; distinct = distinct (setter input, emitted stamp)")

	r.Case("time", func(c *C) {
		c.Parallel(r.N(200000, 6000000), func(i int) {
			g := c.Sub(i)
			ts := randTime(g)
			_, off := ts.Zone()
			var m syslog.Message
			what := "Time(" + ts.Format(time.RFC3339Nano) + ")"
			switch g.IntN(3) {
			case 0:
				m = syslog.EmptyMessage().Time(ts)
			case 1:
				m = syslog.CreateWholeMessage(1, ts, "h", "a", "p", "m", "x")
				what = "CreateWholeMessage(" + ts.Format(time.RFC3339Nano) + ")"
			default:
				m = syslog.CreateMessage("a", 1, "x").Timestamp("Jan  2 03:04:05").Time(ts)
			}
			s, _ := stampOf(m)
			if s != refStamp(ts) {
				c.Violate("%s: emitted %q, want %q", what, s, refStamp(ts))
			}
			c.judgeInstant(what, c22Keep(g, m), floorMicro(ts.Unix(), int64(ts.Nanosecond())), off, false)
			if i < 2 {
				c.Sample("time", "%s -> %s", what, s)
			}
		})
	})

	// one after another: instants close to each other in different zones, zones with the same instant
	r.Case("neighbours", func(c *C) {
		for i := 0; i < r.N(4000, 80000) && !r.full(); i++ {
			g := c.Sub(i)
			base := randTime(g)
			zones := []*time.Location{base.Location(), time.UTC}
			for k := g.IntN(4); k > 0; k-- {
				off := (g.IntN(2*24*60-1) - 24*60 + 1) * 60
				if g.IntN(2) == 0 { // differs little from another one
					_, off = base.Zone()
					off += pick(g, -1, 1, 15, -30, 45, 60) * 60
				}
				zones = append(zones, time.FixedZone("", max(-86340, min(86340, off))))
			}
			for k := 0; k < 12; k++ {
				ts := base
				switch g.IntN(5) {
				case 0:
					ts = ts.Add(time.Duration(g.IntN(3)-1) * time.Second)
				case 1:
					ts = ts.Add(time.Duration(g.IntN(2000000) - 1000000))
				case 2:
					ts = ts.Truncate(time.Second)
				case 3: // the same clock in another zone
					z := zones[g.IntN(len(zones))]
					ts = time.Date(ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond(), z)
				}
				ts = ts.In(zones[g.IntN(len(zones))])
				if y := ts.Year(); y < 0 || y > 9999 {
					continue
				}
				s, err := stampOf(syslog.EmptyMessage().Time(ts))
				if err != nil || s != refStamp(ts) {
					c.Violate("neighbour %d of %v: Time(%v): emitted %q, %v, want %q", k, base, ts, s, err, refStamp(ts))
				}
				c.Eval(true, s)
			}
		}
	})

	// every corner in every way
	r.Case("landmarks", func(c *C) {
		for li, sec := range landmarks {
			for _, nano := range []int64{0, 1, 999, 1000, 500000, 999999999, -1, -1000} {
				for _, z := range []int{0, 1, -1, 330, -480, 1439, -1439} {
					g := c.Sub(li*100 + z)
					ts := time.Unix(sec, nano).In(time.FixedZone("", z*60))
					if z == 0 {
						ts = ts.UTC()
					}
					if sec == -62135596800 && nano == 0 && z == 0 {
						ts = time.Time{}
					}
					if y := ts.Year(); y < 0 || y > 9999 {
						continue
					}
					us := floorMicro(sec, nano)
					what := fmt.Sprintf("(%d s, %d ns, %d minutes)", sec, nano, z)
					c.judgeInstant("Time"+what, c22Keep(g, syslog.EmptyMessage().Time(ts)), us, z*60, false)
					c.judgeInstant("Now.Time"+what, c22Keep(g, syslog.CreateMessage("a", 1, "x").Time(ts)), us, z*60, false)
					c.judgeInstant("CreateWholeMessage"+what, c22Keep(g, syslog.CreateWholeMessage(14, ts, "h", "a", "p", "m", "x")), us, z*60, false)
					c.judgeInstant("Time.Time"+what, syslog.EmptyMessage().Time(randTime(g)).Time(ts), us, z*60, false)
					if inYears(us, 0) {
						c.judgeInstant("Epoch"+what, syslog.EmptyMessage().Epoch(fmt.Sprint(sec), fmt.Sprint(nano)), us, 0, true)
						c.judgeInstant("Time.Epoch"+what, syslog.EmptyMessage().Time(randTime(g)).Epoch(fmt.Sprint(sec), fmt.Sprint(nano)), us, 0, true)
						c.judgeInstant("Delta"+what, syslog.EmptyMessage().Delta(ts, "0", "0"), us, z*60, true)
						c.judgeInstant("Delta from 2000"+what, syslog.EmptyMessage().Delta(time.Unix(946684800, 0).UTC(), fmt.Sprint(sec-946684800), fmt.Sprint(nano)), us, 0, true)
						c.judgeInstant("Delta from the epoch"+what, syslog.EmptyMessage().Delta(time.Unix(0, 0).UTC(), fmt.Sprint(sec), fmt.Sprint(nano)), us, 0, true)
					}
				}
			}
		}
	})

	r.Case("every-microsecond-digit", func(c *C) {
		base := time.Date(2024, 2, 29, 23, 59, 59, 0, time.UTC)
		step := r.N(101, 1)
		c.Parallel(1000000/step, func(i int) {
			us := i * step
			ts := base.Add(time.Duration(us) * time.Microsecond)
			for _, extra := range []int{0, 1, 499, 500, 999} {
				x := ts.Add(time.Duration(extra))
				s, err := stampOf(syslog.EmptyMessage().Time(x))
				if err != nil || s != refStamp(x) {
					c.Violate("Time(%v): emitted %q, want %q", x, s, refStamp(x))
				}
				c.Eval(true, us, extra)
			}
		})
	})

	r.Case("every-day-and-zone", func(c *C) {
		c.Parallel(r.N(10000, 10000), func(y int) {
			for k := 0; k < r.N(6, 366); k++ {
				d := time.Date(y, 1, 1+(k*61)%366, 23, 59, 59, 999999999, time.UTC)
				if r.Thorough {
					d = time.Date(y, 1, 1+k, (k*7)%24, k%60, 59, 999999999, time.UTC)
				}
				if d.Year() != y {
					continue
				}
				s, err := stampOf(syslog.EmptyMessage().Time(d))
				if err != nil || s != refStamp(d) {
					c.Violate("Time(%v): emitted %q, want %q", d, s, refStamp(d))
				}
				c.Eval(true, s)
			}
		})
		for off := -23*60 - 59; off <= 23*60+59; off++ {
			ts := time.Date(2001, 12, 31, 22, 1, 2, 3000, time.FixedZone("x", off*60))
			s, err := stampOf(syslog.EmptyMessage().Time(ts))
			if err != nil || s != refStamp(ts) {
				c.Violate("Time(%v): emitted %q, want %q", ts, s, refStamp(ts))
			}
			c.Eval(true, s)
		}
	})

	r.Case("epoch", func(c *C) {
		old := time.Local
		defer func() { time.Local = old }()
		for zi, off := range []int{0, 3600, -7 * 3600, 5*3600 + 1800, -86340, 86340} {
			time.Local = time.FixedZone("", off)
			c.Parallel(r.N(15000, 400000), func(i int) {
				g := c.Sub(zi<<24 + i)
				var sec, nsec int64
				switch g.IntN(4) {
				case 0:
					sec = pick(g, int64(0), -1, 1, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 253402300799, -62135596800, -62167219200, 951782400, -1<<31)
				case 1:
					sec = int64(g.IntN(1 << 32))
				default:
					sec = -62167219200 + g.Int64N(253402300799+62167219200)
				}
				switch g.IntN(4) {
				case 0:
					nsec = pick(g, int64(0), 1, 999, 1000, 999999999, 1000000000, -1, -1000, -1000000000, 123456789, 1999999999, 100)
				case 1:
					nsec = int64(g.IntN(1000000)) * 1000
				default:
					nsec = int64(g.IntN(1000000000))
				}
				us := floorMicro(sec, nsec)
				if !inYears(us, off) {
					return
				}
				a, b := fmt.Sprint(sec), fmt.Sprint(nsec)
				m := syslog.EmptyMessage().Epoch(a, b)
				c.judgeInstant("Epoch("+a+", "+b+")", c22Keep(g, m), us, 0, true)
			})
		}
		// not numbers: no instant is given, the message must stay encodable
		g := c.Rand
		for i := 0; i < r.N(500, 20000); i++ {
			a, b := randField(g, 30), randField(g, 30)
			c.Guard(func() {
				if s, err := stampOf(syslog.EmptyMessage().Epoch("x"+a, "y"+b)); err != nil {
					c.Violate("Epoch(%q, %q): %q, %v", a, b, s, err)
				}
			})
			c.Eval(true, a, b)
		}
	})

	r.Case("delta", func(c *C) {
		c.Parallel(r.N(80000, 3000000), func(i int) {
			g := c.Sub(i)
			boot := randTime(g)
			_, off := boot.Zone()
			var sec, nsec int64
			switch g.IntN(6) {
			case 0:
				sec = pick(g, int64(0), 1, -1, 59, 3600, 86399, 86400, 1<<31-1, 1<<31, 1<<32, 9223372036, 9223372037, 9223372036*2, -9223372037)
			case 1:
				sec = g.Int64N(253402300799)
			default:
				sec = int64(g.IntN(400000000))
			}
			switch g.IntN(4) {
			case 0:
				nsec = pick(g, int64(0), 1, 999, 1000, 999999999, 1000000000, -1, 1<<31, 1<<40)
			default:
				nsec = int64(g.IntN(1000000000))
			}
			us := floorMicro(boot.Unix()+sec, int64(boot.Nanosecond())+nsec)
			if !inYears(us, off) {
				return
			}
			a, b := fmt.Sprint(sec), fmt.Sprint(nsec)
			m := syslog.EmptyMessage().Delta(boot, a, b)
			c.judgeInstant("Delta("+boot.Format(time.RFC3339Nano)+", "+a+", "+b+")", c22Keep(g, m), us, 0, true)
		})
		g := c.Rand
		for i := 0; i < r.N(500, 20000); i++ {
			a, b := randField(g, 30), randField(g, 30)
			c.Guard(func() {
				if s, err := stampOf(syslog.EmptyMessage().Delta(time.Unix(1e9, 0), "x"+a, "y"+b)); err != nil {
					c.Violate("Delta(%q, %q): %q, %v", a, b, s, err)
				}
			})
			c.Eval(true, a, b)
		}
	})

	// virtual time: the clock of the bubble starts on 2000-01-01 UTC
	r.Case("traditional-stamps", func(c *C) {
		old := time.Local
		defer func() { time.Local = old }()
		n := r.N(60, 1500)
		for _, off := range []int{0, 0, 3600, -8 * 3600} {
			time.Local = time.FixedZone("", off)
			for i := 0; i < n; i++ {
				g := c.Sub(i*7 + off)
				// the moment of the test
				skip := time.Duration(g.IntN(12*365)) * 24 * time.Hour
				if g.IntN(2) == 0 { // around a new year
					y := 2000 + g.IntN(12)
					d := time.Date(y, time.January, 1, 0, 0, 0, 0, time.UTC).Sub(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC))
					skip = d + time.Duration(pick(g, 0, 1, 12, 24, 24*30, 24*30+23, 24*31, 24*32, -1, -24, -24*31, 24*15))*time.Hour + time.Duration(g.IntN(3600))*time.Second
				}
				if skip < 0 {
					skip = 0
				}
				if off != 0 { // the local and the UTC year and month agree
					skip = skip / (24 * time.Hour) * (24 * time.Hour)
					at := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(skip)
					skip = skip - time.Duration(at.Day()-15)*24*time.Hour
					if skip < 0 {
						skip = 14 * 24 * time.Hour
					}
				}
				stamps := [][6]int{}
				for k := 0; k < 30; k++ {
					mo := 1 + g.IntN(12)
					if k%4 == 0 {
						mo = pick(g, 1, 12, 11, 2)
					}
					stamps = append(stamps, [6]int{mo, 1 + g.IntN(refDaysIn(2000, mo)), pick(g, 0, 23, g.IntN(24)), pick(g, 0, 59, g.IntN(60)), pick(g, 0, 59, g.IntN(60)), pick(g, 0, 0, 0, 1000, 999999000, 123456789, 120000000)})
				}
				c.inBubble(t, func() {
					time.Sleep(skip)
					now := time.Now()
					sub := 0
					for _, st := range stamps {
						year := now.Year()
						if now.Month() == time.January && st[0] == 12 {
							year--
						}
						if st[0] == 2 && st[1] == 29 && !refLeap(year) {
							continue
						}
						in := fmt.Sprintf("%s %2d %02d:%02d:%02d", strings.Fields("x Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec")[st[0]], st[1], st[2], st[3], st[4])
						if st[5] != 0 {
							in += strings.TrimRight(fmt.Sprintf(".%09d", st[5]), "0")
						}
						want := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", year, st[0], st[1], st[2], st[3], st[4])
						if us := st[5] / 1000; us != 0 {
							want += strings.TrimRight(fmt.Sprintf(".%06d", us), "0")
						}
						s, err := stampOf(c22Keep(g, syslog.EmptyMessage().Timestamp(in)))
						ok := err == nil && strings.HasPrefix(s, want)
						if ok {
							_, _, err = instantOf(s)
							rest := s[len(want):]
							ok = err == nil && (rest == "Z" || rest[0] == '+' || rest[0] == '-')
						}
						if !ok {
							c.Violate("at %s, Timestamp(%q): emitted %q (%v), want %sZ", now.Format(time.RFC3339), in, s, err, want)
						}
						c.Eval(true, in, year)
						sub++
						if year != now.Year() {
							c.Stat("december_read_in_january", 1)
						}
					}
					c.Sample("stamp", "at %s: %d stamps", now.Format(time.RFC3339), sub)
				})
			}
		}
	})

	r.Case("clock", func(c *C) {
		n := r.N(300, 10000)
		for i := 0; i < n; i++ {
			g := c.Sub(i)
			skip := time.Duration(g.Int64N(int64(250 * 365 * 24 * time.Hour)))
			c.inBubble(t, func() {
				time.Sleep(skip)
				now := time.Now()
				us := floorMicro(now.Unix(), int64(now.Nanosecond()))
				c.judgeInstant("Now() at "+now.Format(time.RFC3339Nano), c22Keep(g, syslog.EmptyMessage().Now()), us, 0, true)
				c.judgeInstant("CreateMessage at "+now.Format(time.RFC3339Nano), c22Keep(g, syslog.CreateMessage("a", 1, "x")), us, 0, true)
				m := syslog.CreateMessage("a", 1, "x")
				time.Sleep(time.Duration(1 + g.IntN(5000000)))
				later := time.Now()
				c.judgeInstant("CreateMessage, encoded later", m, us, 0, true)
				c.judgeInstant("Now() later", m.Now(), floorMicro(later.Unix(), int64(later.Nanosecond())), 0, true)
			})
		}
	})

	r.Case("channel-clock", func(c *C) {
		defer func() { syslog.Now = time.Now }()
		g := c.Rand
		for round := 0; round < r.N(40, 1500); round++ {
			f := framings()[0]
			s := &sink{}
			snd, ch := syslog.NewSender(s, f.T, make(chan time.Time))
			l := drainErrs(ch)
			sl, err := syslog.New(snd, syslog.LogUSER|syslog.LogDEBUG, "app")
			if err != nil {
				c.Violate("New: %v", err)
				return
			}
			var cur time.Time
			calls := 0
			syslog.Now = func() time.Time { calls++; return cur }
			var want []time.Time
			for k := 0; k < 60; k++ {
				cur = randTime(g)
				want = append(want, cur)
				cn := sl.Channel(syslog.Priority(g.IntN(8)))
				switch g.IntN(4) {
				case 0:
					cn.Log("x")
				case 1:
					cn.Write([]byte("x"))
				case 2:
					cn.AppName("y").Msgid("z").Log("x", rawSD("[a b=\"c\"]"))
				default:
					cn.Msgid("z").Logger("p").Print("x")
				}
			}
			snd.End()
			<-l.done
			frames, _, _ := f.split(s.bytes())
			if len(frames) != len(want) {
				c.Violate("%d messages were logged, %d frames written", len(want), len(frames))
				return
			}
			for k, fr := range frames {
				m, err := refRead([]byte(fr))
				if err != nil || m.TS != refStamp(want[k]) {
					c.Violate("the channel clock was %s, emitted %q (%v)", want[k].Format(time.RFC3339Nano), m.TS, err)
				}
				c.Eval(true, m.TS)
			}
			c.Stat("channel_clock_reads", int64(calls))
		}
	})
}

// inBubble runs fn in virtual time.
func (c *C) inBubble(t *testing.T, fn func()) {
	c.inBubbleNamed(t, "b", fn)
}

func (c *C) inBubbleNamed(t *testing.T, name string, fn func()) {
	synctest.Test(t, func(*testing.T) { c.Guard(fn) })
}
