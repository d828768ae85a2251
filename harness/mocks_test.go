package vharness

// Monitors that implement the library's own interfaces.

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

var errSink = errors.New("sink: injected failure")

func opErr(op string, errno error) error {
	return &net.OpError{Op: op, Net: "unix", Err: os.NewSyscallError(op, errno)}
}

var errNoBufs = opErr("write", syscall.ENOBUFS)
var errMsgSize = opErr("write", syscall.EMSGSIZE)

// sink is a monitoring Connector: it records every Connect, Write and Close.
type sink struct {
	mu       sync.Mutex
	attempts int
	conns    []*sinkConn
	// onConnect decides whether the k-th attempt fails.
	onConnect func(k int) error
	// onWrite decides how many bytes of p the connection takes, and the error returned.
	onWrite func(c *sinkConn, p []byte) (int, error)
	onClose func(c *sinkConn) error
}

type sinkConn struct {
	s      *sink
	idx    int
	data   []byte
	writes [][]byte
	when   []time.Time
	closed int
	// calls after Close
	late   int
	reused int // writes after a failure
	failed bool
}

func (s *sink) Connect() (syslog.WriteCloser, error) {
	s.mu.Lock()
	k := s.attempts
	s.attempts++
	f := s.onConnect
	s.mu.Unlock()
	if f != nil {
		if err := f(k); err != nil {
			if k%2 == 0 {
				// like a function that returns both results of net.DialTCP
				return (*sinkConn)(nil), err
			}
			return nil, err
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	c := &sinkConn{s: s, idx: len(s.conns)}
	s.conns = append(s.conns, c)
	return c, nil
}

func (c *sinkConn) Write(p []byte) (int, error) {
	f := c.s.onWrite
	n, err := len(p), error(nil)
	if f != nil {
		n, err = f(c, p)
	}
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if c.closed > 0 {
		c.late++
		return 0, os.ErrClosed
	}
	if c.failed {
		c.reused++
	}
	c.data = append(c.data, p[:n]...)
	c.writes = append(c.writes, append([]byte(nil), p[:n]...))
	c.when = append(c.when, time.Now())
	if err != nil && !errors.Is(err, syscall.ENOBUFS) && !(errors.Is(err, syscall.EMSGSIZE) && n == 0) {
		c.failed = true
	}
	return n, err
}

func (c *sinkConn) Close() error {
	c.s.mu.Lock()
	c.closed++
	c.s.mu.Unlock()
	if c.s.onClose != nil {
		return c.s.onClose(c)
	}
	return nil
}

// snapshot returns all bytes of all connections, concatenated.
func (s *sink) bytes() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	var b []byte
	for _, c := range s.conns {
		b = append(b, c.data...)
	}
	return b
}

func (s *sink) writeCount() (n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		n += len(c.writes)
	}
	return
}

// independent framing -------------------------------------------------------

type framing struct {
	Name string
	T    syslog.Transport
	Term int // terminator octet, -1 for octet counting
	X    *customFraming
}

// customFraming replaces the above for a transport which is not of the library.
type customFraming struct {
	enc   func(m string) string
	next  func(b []byte) (frame string, n int, ok bool) // the first frame of b, when it is complete
	clean func(m string) string                         // nil: all octets are carried
}

func framings() []framing {
	return []framing{
		{Name: "rfc5425", T: syslog.TransportRFC5425, Term: -1},
		{Name: "lf", T: syslog.TransportLFEnded, Term: '\n'},
		{Name: "zero", T: syslog.TransportZeroEnded, Term: 0},
	}
}

func (f framing) enc(m string) string {
	if f.X != nil {
		return f.X.enc(m)
	}
	if f.Term < 0 {
		return strconv.Itoa(len(m)) + " " + m
	}
	return m + string([]byte{byte(f.Term)})
}

// ok tells whether the message can be framed without its terminator inside.
func (f framing) ok(m string) bool {
	if f.X != nil {
		return f.X.clean == nil || f.X.clean(m) == m
	}
	if f.Term < 0 {
		return true
	}
	for i := 0; i < len(m); i++ {
		if m[i] == byte(f.Term) {
			return false
		}
	}
	return true
}

// split cuts a stream into frames; rest is the incomplete tail.
func (f framing) split(b []byte) (frames []string, rest []byte, err error) {
	if f.X != nil {
		for len(b) > 0 {
			fr, n, ok := f.X.next(b)
			if !ok {
				return frames, b, nil
			}
			frames, b = append(frames, fr), b[n:]
		}
		return frames, nil, nil
	}
	for len(b) > 0 {
		if f.Term >= 0 {
			i := -1
			for j, c := range b {
				if c == byte(f.Term) {
					i = j
					break
				}
			}
			if i < 0 {
				return frames, b, nil
			}
			frames = append(frames, string(b[:i]))
			b = b[i+1:]
			continue
		}
		i := 0
		for i < len(b) && b[i] >= '0' && b[i] <= '9' {
			i++
		}
		if i == len(b) {
			return frames, b, nil
		}
		if i == 0 || b[i] != ' ' || i > 9 || (b[0] == '0' && i > 1) {
			return frames, b, fmt.Errorf("no frame at %s", q(b))
		}
		n, _ := strconv.Atoi(string(b[:i]))
		if len(b) < i+1+n {
			return frames, b, nil
		}
		frames = append(frames, string(b[i+1:i+1+n]))
		b = b[i+1+n:]
	}
	return frames, nil, nil
}

// without terminator octets
func (f framing) clean(s string) string {
	if f.X != nil {
		if f.X.clean != nil {
			return f.X.clean(s)
		}
		return s
	}
	if f.Term < 0 {
		return s
	}
	b := []byte(s)
	for i := range b {
		if b[i] == byte(f.Term) {
			b[i] = '.'
		}
	}
	return string(b)
}

// messages --------------------------------------------------------------------

// sm is a message to send together with the bytes its encoding must have.
type sm struct {
	M    syslog.Message
	Want string
}

// mkMsg makes a message with a unique id, given text and raw SD elements.
func mkMsg(id string, prio int, ts time.Time, text string, sdraw ...string) sm {
	m := syslog.CreateWholeMessage(syslog.Priority(prio), ts, "host", "app", "p1", "m", text).ProcID(id)
	sd := "-"
	if len(sdraw) > 0 {
		sd = ""
		for _, raw := range sdraw {
			m = m.StructuredData(rawSD(raw))
			sd += raw
		}
	}
	return sm{m, refEncode(prio, refStamp(ts), "host", "app", refField(id, 128), "m", sd, refTrim(text))}
}

// randMsg makes a message with a unique id and random content for a framing.
func randMsg(g *rand.Rand, f framing, id string, maxText int) sm {
	text := ""
	switch g.IntN(6) {
	case 0:
	case 1:
		text = f.clean(randText(g, min(maxText, 200)))
	case 2:
		text = f.clean(randText(g, maxText))
	default:
		text = "text " + strconv.Itoa(g.IntN(1000000)) + pick(g, "", " [x]", "]", "\"]", "[a b=\"c\"]", " - -", "\\")
	}
	var sds []string
	switch g.IntN(5) {
	case 0:
		i := 1 + g.IntN(3)
		if g.IntN(60) == 0 {
			i = pick(g, 5, 8, 9, 20)
		}
		for ; i > 0; i-- {
			sds = append(sds, f.clean(sdElementRaw(g)))
		}
	case 1:
		sds = append(sds, `[x@1 a="b"]`)
	}
	return mkMsg(id, g.IntN(192), randTime(g), text, sds...)
}

// ticks ---------------------------------------------------------------------

// manualTicker is the flush ticker of a sender, driven by the workload. The library's
// goroutine takes a tick only when it is idle, so two accepted ticks enclose one whole flush.
type manualTicker chan time.Time

func (m manualTicker) tick(stop <-chan struct{}) bool {
	select {
	case m <- time.Time{}:
		return true
	case <-stop:
		return false
	}
}

var jitterSink atomic.Int64

// jitter perturbs the schedule.
func jitter(g *rand.Rand) {
	switch g.IntN(8) {
	case 0:
		time.Sleep(time.Duration(g.IntN(200)) * time.Microsecond)
	case 1, 2, 3:
		runtime.Gosched()
	case 4:
		for i := g.IntN(2000); i > 0; i-- {
			jitterSink.Add(1)
		}
	}
}

// collectErrs drains an error channel until it is closed.
type errLog struct {
	mu   sync.Mutex
	errs []error
	done chan struct{}
}

func drainErrs(ch <-chan error) *errLog {
	l := &errLog{done: make(chan struct{})}
	go func() {
		defer close(l.done)
		for e := range ch {
			l.mu.Lock()
			l.errs = append(l.errs, e)
			l.mu.Unlock()
		}
	}()
	return l
}

func (l *errLog) count() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.errs)
}

func (l *errLog) all() []error {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]error(nil), l.errs...)
}
