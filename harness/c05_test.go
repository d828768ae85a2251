package vharness

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// bareSink has no synchronisation of its own: whatever orders its calls is in the library.
type bareSink struct {
	conns    int
	writes   int
	bytes    int
	closes   int
	failNext int
}

func (b *bareSink) Connect() (syslog.WriteCloser, error) {
	b.conns++
	if b.failNext > 0 && b.conns%3 == 1 {
		b.failNext--
		return nil, errSink
	}
	return &bareConn{s: b}, nil
}

type bareConn struct {
	s    *bareSink
	last []byte
}

func (b *bareConn) Write(p []byte) (int, error) {
	b.s.writes++
	b.s.bytes += len(p)
	b.last = append(b.last[:0], p...)
	if b.s.failNext > 0 {
		b.s.failNext--
		return len(p) / 2, errSink
	}
	return len(p), nil
}

func (b *bareConn) Close() error { b.s.closes++; b.last = nil; return nil }

// together runs functions at once, all released by one gate.
func (c *C) together(fns ...func()) {
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for _, fn := range fns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			c.Guard(fn)
		}()
	}
	close(gate)
	wg.Wait()
}

// world is a set of library objects shared by the operations of a pair.
type world struct {
	c     *C
	seed  uint64
	sink  *bareSink
	tick  chan time.Time
	snd   *syslog.Sender
	sys   *syslog.Syslog
	sub   *syslog.Syslog
	msg   syslog.Message
	list  sdata.List
	sd    sdata.StructuredData
	dmap  dynSD
	dec   syslog.MessageImmutable
	noDec bool
	raw   []byte
	shard []byte // an encoding with spare capacity
	recv  *syslog.Receiver
	rerr  <-chan error
	errs  *errLog
	end1  sync.Once
	end2  sync.Once
	bg    sync.WaitGroup
	stop  chan struct{}
}

func newWorld(c *C, i int) *world {
	g := rand.New(rand.NewPCG(uint64(i), 5))
	w := &world{c: c, seed: uint64(i), sink: &bareSink{failNext: i % 4}, tick: make(chan time.Time, 3), stop: make(chan struct{})}
	var ch <-chan error
	w.snd, ch = syslog.NewSender(w.sink, framings()[i%3].T, w.tick)
	w.errs = drainErrs(ch)
	var err error
	w.sys, err = syslog.New(w.snd, syslog.LogLOCAL0|syslog.Priority(5), "app")
	if err != nil {
		panic(err)
	}
	w.sub = w.sys.SubSyslog("sub")
	w.dmap = dynSD{"a": "b", "c]": "d\""}
	w.sd = syslog.GenericSD(w.dmap)
	acc := 5
	w.msg = syslog.CreateWholeMessage(syslog.LogINFO, time.Unix(1, 0), "h", "a", "p", "m", "text").
		StructuredData(w.sd, timequality.TimeQuality{TzKnown: true, IsSynced: true, SyncAccuracy: &acc}, sdata.GenericSD(idSD{id: "x", A: "y"}))
	w.list = sdata.EmptyList().Add(w.sd, rawSD("[r a=\"b\"]"))
	w.raw = []byte(randMsg(g, framings()[0], fmt.Sprint("w", i), 300).Want)
	if w.dec, _, err = syslog.Parse(w.raw, nil, true); err != nil {
		// decoding is judged by other properties
		w.raw = []byte("<13>1 2020-01-01T00:00:00Z h a p m - text")
		if w.dec, _, err = syslog.Parse(w.raw, nil, true); err != nil {
			c.Inconclusive("nothing can be decoded: %v", err)
			w.noDec = true
		}
	}
	b, _ := w.msg.Marshal5424()
	w.shard = append(make([]byte, 0, len(b)+50), b...)
	l := newListener()
	for k := 0; k < 2; k++ {
		s := randStream(g, framings()[i%3], fmt.Sprint("p", i, k), 6, 100)
		sc := newScript(endEOF, cut(s.data, len(s.data)/3, len(s.data)/2)...)
		sc.pause = func(int) { runtime.Gosched() }
		l.add(sc)
	}
	l.add(errAcceptFailure)
	w.recv, w.rerr = syslog.NewReceiver(l, i%4, framings()[i%3].T)
	return w
}

// close ends what the operations have not ended. The consumer of the receiver waits for it.
func (w *world) close() {
	w.end1.Do(w.snd.End)
	<-w.errs.done
	w.end2.Do(w.recv.End)
	for {
		if _, _, ok := w.recv.Receive(); !ok {
			break
		}
	}
	close(w.stop)
	w.bg.Wait()
}

type op05 struct {
	name string
	run  func(w *world, g *rand.Rand)
}

func ops05() []op05 {
	use := func(ch syslog.Channel, g *rand.Rand) {
		switch g.IntN(4) {
		case 0:
			ch.Log("text", rawSD("[a]"))
		case 1:
			io.WriteString(ch, "text")
		case 2:
			ch.Logger("p").Print("text")
		default:
			ch.IsDevNull()
		}
	}
	return []op05{
		{"Syslog.Channel", func(w *world, g *rand.Rand) { use(w.sys.Channel(syslog.Priority(g.IntN(8))), g) }},
		{"Syslog.SubSyslog", func(w *world, g *rand.Rand) { use(w.sys.SubSyslog("s").Channel(syslog.Priority(g.IntN(8))), g) }},
		{"sub Syslog.Channel", func(w *world, g *rand.Rand) { use(w.sub.Channel(syslog.Priority(g.IntN(8))), g) }},
		{"sub Syslog.SubSyslog", func(w *world, g *rand.Rand) {
			use(w.sub.SubSyslog("t").SubSyslog("u").Channel(syslog.LogEMERG), g)
		}},
		{"Channel.AppName", func(w *world, g *rand.Rand) { use(w.sys.Channel(syslog.LogERR).AppName("x").AppName("y"), g) }},
		{"Channel.Msgid", func(w *world, g *rand.Rand) { use(w.sys.Channel(syslog.LogERR).Msgid("x").AppName("y").Msgid("z"), g) }},
		{"Channel.Log", func(w *world, g *rand.Rand) { w.sys.Channel(syslog.LogERR).Log("text", w.sd, w.list[0]) }},
		{"Channel.Write", func(w *world, g *rand.Rand) { io.WriteString(w.sub.Channel(syslog.LogERR), "text\n") }},
		{"Channel.Logger", func(w *world, g *rand.Rand) {
			l := w.sys.Channel(syslog.LogERR).Logger("p ")
			l.Println("a", 1)
			w.sys.Channel(syslog.LogDEBUG).Logger("d ").Print("nothing")
		}},
		{"New", func(w *world, g *rand.Rand) {
			if s, err := syslog.New(w.snd, syslog.LogUSER|syslog.LogDEBUG, "other"); err == nil {
				use(s.Channel(syslog.LogDEBUG), g)
			}
		}},
		{"Sender.Send", func(w *world, g *rand.Rand) { w.snd.Send(w.msg); w.snd.Send(w.msg.Msg("other")) }},
		{"Sender flush", func(w *world, g *rand.Rand) {
			select {
			case w.tick <- time.Time{}:
			default:
			}
		}},
		{"Sender.End", func(w *world, g *rand.Rand) { w.end1.Do(w.snd.End) }},
		{"Message setters", func(w *world, g *rand.Rand) {
			m, _, _ := refDerive(g, w.msg, refState{})
			m.Marshal5424()
		}},
		{"Message.StructuredData", func(w *world, g *rand.Rand) {
			w.msg.StructuredData(w.sd).Marshal5424()
			w.msg.StructuredData(w.list...).StructuredData(w.sd).Marshal5424()
		}},
		{"Message.Marshal5424", func(w *world, g *rand.Rand) {
			b, _ := w.msg.Marshal5424()
			for i := range b {
				b[i] = '#'
			}
		}},
		{"Message.LocalHost", func(w *world, g *rand.Rand) { _ = w.msg.LocalHost().Now().String() }},
		{"CreateMessage", func(w *world, g *rand.Rand) { _ = syslog.CreateMessage("app", syslog.LogINFO, "text").String() }},
		{"EmptyMessage", func(w *world, g *rand.Rand) { _ = syslog.EmptyMessage().StructuredData(w.sd).Now().String() }},
		{"List.Add", func(w *world, g *rand.Rand) { _ = w.list.Add(w.sd).Add(w.sd, w.sd).String() }},
		{"List.Marshal5424", func(w *world, g *rand.Rand) {
			b, _ := w.list.Marshal5424()
			for i := range b {
				b[i] = '#'
			}
		}},
		{"EmptyList.Add", func(w *world, g *rand.Rand) { _ = sdata.EmptyList().Add(w.sd).String(); _ = sdata.EmptyList().String() }},
		{"empty list encoded", func(w *world, g *rand.Rand) {
			b, _ := sdata.EmptyList().Marshal5424()
			for i := range b {
				b[i] = '#'
			}
		}},
		{"StructuredData.Marshal5424", func(w *world, g *rand.Rand) {
			b, _ := w.sd.Marshal5424()
			for i := range b {
				b[i] = '#'
			}
			w.sd.SDID().GetPEN()
		}},
		{"GenericSD", func(w *world, g *rand.Rand) {
			for _, x := range []sdata.SDIDLight{w.dmap, sdStruct{First: "a", List: []string{"b", "c"}}, sdMandatory{}, sdHostile{A: "x"}, sdIntMap{1: "x"}, sdMapOf[string, []int]{"a": {1, 2}}} {
				syslog.GenericSD(x).Marshal5424()
				sdata.MarshalSD(x)
			}
		}},
		{"Message times", func(w *world, g *rand.Rand) {
			for _, m := range []syslog.Message{w.msg.Epoch("1", fmt.Sprint(g.IntN(1000))), w.msg.Delta(time.Unix(5, 0), "7", "8"), w.msg.Timestamp("Jan  2 03:04:05"), w.msg.Time(time.Unix(int64(g.IntN(1000)), 0)), w.msg.Now()} {
				m.Marshal5424()
			}
		}},
		{"TimeQuality", func(w *world, g *rand.Rand) {
			acc := g.IntN(2000) - 1000
			tq := timequality.TimeQuality{TzKnown: true, IsSynced: true, SyncAccuracy: &acc}
			tq.Marshal5424()
			if sd, ok := timequality.TQ.Found([]byte(pick(g, `[timeQuality tzKnown="1"]`, `[timeQuality tzKnown="1" isSynced="1" syncAccuracy="77"]`, `[timeQuality tzKnown="1" isSynced="1" syncAccuracy="-5"]`, `[timeQuality x="1"]`))); ok {
				sd.Marshal5424()
			}
			timequality.TimeQuality{IsSynced: true}.Marshal5424()
			_ = timequality.TQ.String()
		}},
		{"sdata.Register", func(w *world, g *rand.Rand) {
			sdata.Register(regID{fmt.Sprintf("race%d@1", g.IntN(50)), 1})
		}},
		{"sdata.RegisterGroup", func(w *world, g *rand.Rand) {
			sdata.RegisterGroup(regID{fmt.Sprintf("race%d@1", g.IntN(50)), 1}, regID{fmt.Sprintf("race%d@1", g.IntN(50)), 1})
		}},
		{"sdata.Parse", func(w *world, g *rand.Rand) {
			for _, s := range []string{`[timeQuality tzKnown="1" isSynced="1"]`, `[timeQuality tzKnown="1" isSynced="1" syncAccuracy="` + fmt.Sprint(g.IntN(100)) + `"]`, `[x a="b"]`, `[y@1 a="\"" b="" a="1"]`, `[race1@1]`, `[`} {
				if sd, ok := sdata.Parse([]byte(s)); ok {
					sd.Marshal5424()
				}
			}
		}},
		{"Parse of a shared buffer", func(w *world, g *rand.Rand) {
			m, _, _ := syslog.Parse(w.raw, nil, true)
			_ = m.Writable().String()
			f := framings()[g.IntN(3)]
			syslog.Parse([]byte(f.enc(string(w.raw))+"x"), f.T, g.IntN(2) == 0)
			syslog.Parse(w.raw[:g.IntN(len(w.raw))], nil, true)
		}},
		{"Transport.Encode of a shared buffer", func(w *world, g *rand.Rand) {
			for _, f := range framings() {
				f.T.Encode(w.shard)
			}
		}},
		{"Transport strips", func(w *world, g *rand.Rand) {
			for _, f := range framings() {
				f.T.PrefixStrip(w.shard, true)
				f.T.SuffixStrip(w.shard, true)
				_ = f.T.String()
			}
		}},
		{"decoded fields", func(w *world, g *rand.Rand) {
			if !w.noDec {
				showDecoded(w.dec)()
			}
		}},
		{"decoded StructuredData", func(w *world, g *rand.Rand) {
			if !w.noDec {
				_ = w.dec.StructuredData().Add(w.sd).String()
			}
		}},
		{"decoded Writable", func(w *world, g *rand.Rand) {
			if w.noDec {
				return
			}
			m, _, _ := refDerive(g, w.dec.Writable(), refState{})
			w.snd.Send(m)
		}},
		{"decoded WriteTo", func(w *world, g *rand.Rand) { w.dec.WriteTo(io.Discard) }},
		{"Receiver.Receive", func(w *world, g *rand.Rand) {
			w.bg.Add(1)
			go func() { // the rest is received until the end of the receiver
				defer w.bg.Done()
				for {
					m, err, ok := w.recv.Receive()
					if !ok {
						return
					}
					if err == nil {
						showDecoded(m)()
					}
				}
			}()
		}},
		{"Receiver errors", func(w *world, g *rand.Rand) {
			select {
			case <-w.rerr:
			case <-time.After(50 * time.Microsecond):
			}
		}},
		{"Receiver.End", func(w *world, g *rand.Rand) { w.end2.Do(w.recv.End) }},
		{"Priority", func(w *world, g *rand.Rand) {
			var p syslog.Priority
			p.Set(pick(g, "local3.err", "user.debug", "kern.emerg", "mail.err", "nothing.err", "mail.nothing", "mail"))
			_ = p.String()
			p.Marshal5424()
			p.Unmarshal5424([]byte(pick(g, "<13>1", "<191>1", "<0>1", "<1>2", "x")))
			_ = (p.Facility() | p.Severity()).String()
		}},
		{"Now", func(w *world, g *rand.Rand) { _ = syslog.Now() }},
		{"Dial", func(w *world, g *rand.Rand) {
			if s, ch, err := (syslog.Dialer{}).Dial("local", "/nonexistent/verif", nil); err == nil {
				e := drainErrs(ch)
				s.End()
				<-e.done
			}
			syslog.Dial("bad network", "")
		}},
		{"GuessListener", func(w *world, g *rand.Rand) {
			if l, err := syslog.GuessListener("unix", "@vharness-race-"+fmt.Sprint(g.Uint64())); err == nil {
				l.Close()
			}
			syslog.GuessListener("bad network", "")
		}},
	}
}

func TestC05(t *testing.T) {
	r := newR(t, "C05", "one evaluation = one round of concurrent API calls on shared fresh objects, run to its end under the Go race detector; distinct = distinct (operations, round)")
	fs := framings()
	ops := ops05()

	// every pair of operations, also of one operation with itself
	r.Case("pairs", func(c *C) {
		type pr struct{ a, b int }
		var prs []pr
		for a := range ops {
			for b := a; b < len(ops); b++ {
				prs = append(prs, pr{a, b})
			}
		}
		reps := r.N(3, 60)
		c.Parallel(len(prs)*reps, func(i int) {
			p := prs[i%len(prs)]
			w := newWorld(c, i)
			run := func(o op05, k uint64) func() {
				g := rand.New(rand.NewPCG(uint64(i), k))
				return func() {
					for n := 0; n < 2; n++ {
						if g.IntN(2) == 0 {
							jitter(g)
						}
						o.run(w, g)
					}
				}
			}
			c.together(run(ops[p.a], 1), run(ops[p.b], 2))
			w.close()
			if w.sink.closes > w.sink.conns {
				c.Violate("more closes than connections")
			}
			c.Eval(true, ops[p.a].name, ops[p.b].name)
			c.Stat("pair_rounds", 1)
		})
		c.StatMax("pairs_of_operations", int64(len(prs)))
		c.Sample("pair", "%s with %s", ops[prs[7].a].name, ops[prs[7].b].name)
	})
	// many goroutines, random operations
	r.Case("mix", func(c *C) {
		c.Parallel(r.N(250, 10000), func(i int) {
			w := newWorld(c, i)
			var fns []func()
			for k := 0; k < 10; k++ {
				g := rand.New(rand.NewPCG(uint64(i), 100+uint64(k)))
				fns = append(fns, func() {
					for n := 0; n < 8; n++ {
						o := ops[g.IntN(len(ops))]
						if n < 4 && (o.name == "Sender.End" || o.name == "Receiver.End") {
							continue
						}
						o.run(w, g)
						jitter(g)
					}
				})
			}
			c.together(fns...)
			w.close()
			c.Eval(true, "mix", i)
			c.Stat("mixed_operations", 80)
		})
	})
	// the very first uses of a syslog, all at once
	r.Case("first-use", func(c *C) {
		c.Parallel(r.N(1500, 50000), func(i int) {
			rg := newRig()
			s, err := syslog.New(rg.snd, syslog.LogUSER|syslog.Priority(i%8), "first")
			if err != nil {
				c.Violate("New: %v", err)
				return
			}
			var fns []func()
			for k := 0; k < 4; k++ {
				g := rand.New(rand.NewPCG(uint64(i), uint64(k)))
				fns = append(fns, func() {
					for n := 0; n < 3; n++ {
						var ch syslog.Channel
						switch g.IntN(3) {
						case 0:
							ch = s.Channel(syslog.Priority(g.IntN(8)))
						case 1:
							ch = s.SubSyslog("a").Channel(syslog.Priority(g.IntN(8)))
						default:
							ch = s.Channel(syslog.Priority(g.IntN(8))).AppName("b").Msgid("c")
						}
						ch.Log("text")
						ch.Logger("x").Print("y")
					}
				})
			}
			c.together(fns...)
			rg.end(c)
			c.Eval(true, "first", i)
		})
	})
	// senders under load with failing outputs
	r.Case("senders", func(c *C) {
		c.Parallel(r.N(150, 6000), func(i int) {
			b := &bareSink{failNext: i % 40}
			tick := time.NewTicker(time.Duration(20+i%300) * time.Microsecond)
			defer tick.Stop()
			snd, ch := syslog.NewSender(b, fs[i%3].T, tick.C)
			errs := drainErrs(ch)
			var fns []func()
			for k := 0; k < 6; k++ {
				g := rand.New(rand.NewPCG(uint64(i), uint64(k)))
				fns = append(fns, func() {
					for n := 0; n < 60; n++ {
						snd.Send(randMsg(g, fs[i%3], fmt.Sprint("s", k, n), 300).M)
						jitter(g)
					}
				})
			}
			if i%2 == 0 {
				fns = append(fns, func() { time.Sleep(time.Duration(i%1000) * time.Microsecond); snd.End() })
			}
			c.together(fns...)
			if i%2 != 0 {
				snd.End()
			}
			<-errs.done
			if b.bytes == 0 && i%2 != 0 {
				c.Violate("nothing was written")
			}
			c.Eval(true, "senders", i)
			c.Stat("racing_sends", 360)
		})
	})
	// receivers with several consumers, ended at any moment
	r.Case("receivers", func(c *C) {
		c.Parallel(r.N(200, 6000), func(i int) { c.c05Receiver(c.Sub(i), fs[i%3], i) })
	})
	r.Case("sockets", func(c *C) {
		c.Parallel(r.N(32, 600), func(i int) { c.c05Sockets(c.Sub(i), fs[i/4%3], i) })
	})

	// the workloads of other properties, judged by the race detector only
	r.quiet = true
	defer func() { r.quiet = false }()
	r.Case("reuse-sending", func(c *C) {
		c.Parallel(r.N(60, 2000), func(i int) { c02Concurrent(c, i, c.Sub(i), fs[i%3], i%2 == 0) })
		c.Parallel(r.N(8, 200), func(i int) { c.c04Contention(c.Sub(i), fs[i%3], i) })
	})
	r.Case("reuse-end-to-end", func(c *C) {
		c.Parallel(r.N(18, 400), func(i int) {
			c.c01Socket(c.Sub(i), []string{"unix", "tcp", "unixgram"}[i%3], fs[i/3%3], i, "")
		})
	})
	r.Case("reuse-receiving", func(c *C) {
		for i := 0; i < r.N(120, 4000); i++ {
			c.c14State(t, c.Sub(i), fs[i%3], i)
			c.c13Many(t, c.Sub(i), fs[i%3], i)
		}
		c.c14Racing(c.Sub(1), fs, 1)
		c.c14Sockets(c.Sub(2), fs, 2)
	})
	r.Case("reuse-values", func(c *C) {
		for i := 0; i < r.N(30, 1000); i++ {
			c.c19Concurrent(c.Sub(i), i)
		}
		c.Parallel(r.N(8, 200), func(i int) { c.c19Watched(c.Sub(i), fs[i%3], i) })
	})
}

func (c *C) c05Receiver(g *rand.Rand, f framing, i int) {
	l := newListener()
	total := 0
	for k := 1 + g.IntN(4); k > 0; k-- {
		s := randStream(g, f, fmt.Sprint("r", i, k), 10+g.IntN(30), 200)
		var at []int
		for j := 10; j > 0; j-- {
			at = append(at, g.IntN(len(s.data)+1))
		}
		sort.Ints(at)
		sc := newScript(pick(g, endEOF, endErr, endEOFData), cut(s.data, at...)...)
		pg := rand.New(rand.NewPCG(uint64(i), uint64(k)))
		sc.pause = func(int) { jitter(pg) }
		l.add(sc)
		total += len(s.msgs)
		if g.IntN(3) == 0 {
			l.add(errAcceptFailure)
		}
	}
	rc, ch := syslog.NewReceiver(l, g.IntN(10), f.T)
	var mu sync.Mutex
	var kept []syslog.MessageImmutable
	var n atomic.Int64
	ended := make(chan struct{})
	var fns []func()
	for k := 0; k < 3; k++ {
		fns = append(fns, func() {
			for {
				m, err, ok := rc.Receive()
				if !ok {
					return
				}
				n.Add(1)
				if err == nil {
					showDecoded(m)()
					mu.Lock()
					kept = append(kept, m)
					mu.Unlock()
				}
			}
		})
	}
	fns = append(fns, func() { // reads the messages kept by the others
		kg := rand.New(rand.NewPCG(uint64(i), 9))
		for {
			select {
			case <-ended:
				return
			case <-ch:
			default:
			}
			mu.Lock()
			if len(kept) == 0 {
				mu.Unlock()
				runtime.Gosched()
				continue
			}
			m := kept[kg.IntN(len(kept))]
			mu.Unlock()
			_ = m.Writable().StructuredData(rawSD("[x]")).String()
		}
	})
	early := g.IntN(2) == 0
	at := int64(g.IntN(total + 1))
	fns = append(fns, func() {
		waitFor(10*time.Second, func() bool { return n.Load() >= at && (early || n.Load() >= int64(total)) })
		rc.End()
		close(ended)
	})
	c.together(fns...)
	c.Eval(true, "receiver", i)
	c.Stat("received_under_race_detector", n.Load())
}

func (c *C) c05Sockets(g *rand.Rand, f framing, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	network := []string{"unix", "tcp", "unixgram", "local"}[i%4]
	ln := network
	if network == "local" {
		ln = pick(g, "unix", "unixgram")
	}
	l, addr, err := listen(ln, dir, i)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	rc, _ := syslog.NewReceiver(l, g.IntN(20), f.T)
	var fns []func()
	var n atomic.Int64
	for k := 0; k < 2; k++ {
		fns = append(fns, func() {
			for {
				m, err, ok := rc.Receive()
				if !ok {
					return
				}
				n.Add(1)
				if err == nil {
					showDecoded(m)()
				}
			}
		})
	}
	var left atomic.Int64
	for k := 0; k < 3; k++ {
		left.Add(1)
		sg := rand.New(rand.NewPCG(uint64(i), uint64(k)))
		fns = append(fns, func() {
			defer left.Add(-1)
			snd, ch, err := (syslog.Dialer{FlushDelay: 2 * time.Millisecond}).Dial(network, addr, f.T)
			if err != nil {
				return
			}
			errs := drainErrs(ch)
			sys, err := syslog.New(snd, syslog.LogUSER|syslog.LogDEBUG, "app")
			if err != nil {
				return
			}
			c.together(func() {
				for j := 0; j < 40; j++ {
					sys.Channel(syslog.LogINFO).Log("from one")
					jitter(sg)
				}
			}, func() {
				for j := 0; j < 40; j++ {
					snd.Send(mkMsg(fmt.Sprint(k, j), 1, time.Unix(1, 0), "from two").M)
				}
			})
			// delivered before the receiver ends, or the sender would wait for it forever
			snd.End()
			<-errs.done
		})
	}
	fns = append(fns, func() {
		waitFor(20*time.Second, func() bool { return left.Load() == 0 })
		if i%2 == 0 {
			waitFor(5*time.Second, func() bool { return n.Load() >= 240 })
		}
		rc.End()
	})
	c.together(fns...)
	// somebody else on the address afterwards
	if ln != "tcp" {
		if conn, err := net.Dial(ln, filepath.Join(dir, "nothing")); err == nil {
			conn.Close()
		}
	}
	c.Eval(true, "sockets", network, i)
	c.Stat("socket_messages", n.Load())
}
