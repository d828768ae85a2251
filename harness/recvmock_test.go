package vharness

// Monitors on the receiving side: a scripted Listener and scripted DataReaders.

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

var errListenerClosed = errors.New("mock: listener closed")
var errReadFailure = errors.New("mock: injected read failure")
var errAcceptFailure = errors.New("mock: injected accept failure")

// how the script of a connection ends
const (
	endEOF     = iota // EOF by its own
	endEOFData        // EOF with the last bytes
	endErr            // read error by its own
	endErrData        // read error with the last bytes
	endIdle           // blocks until closed
)

var endNames = []string{"EOF", "EOF with data", "error", "error with data", "idle"}

// scriptConn is a DataReader which plays a script.
type scriptConn struct {
	mu       sync.Mutex
	chunks   [][]byte
	end      int
	gates    map[int]chan struct{} // the k-th chunk waits for its gate
	pause    func(k int)           // called before the k-th chunk
	next     int
	offset   int
	reads    int
	after    int // reads after the end was told
	ended    bool
	closed   int
	closedCh chan struct{}
	lateRead int // reads after Close
	closedAt time.Time
	err      error
	zero     bool // gives some (0, nil) reads
	zeros    int
}

func newScript(end int, chunks ...[]byte) *scriptConn {
	return &scriptConn{chunks: chunks, end: end, closedCh: make(chan struct{}), err: errReadFailure}
}

func (s *scriptConn) RemoteAddr() net.Addr { return &net.UnixAddr{Name: "mock", Net: "unix"} }

func (s *scriptConn) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closed++
	if s.closed == 1 {
		s.closedAt = time.Now()
		close(s.closedCh)
	}
	return nil
}

func (s *scriptConn) Read(p []byte) (int, error) {
	s.mu.Lock()
	s.reads++
	if s.closed > 0 {
		s.lateRead++
		s.mu.Unlock()
		return 0, os.ErrClosed
	}
	k := s.next
	s.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	if s.zero && s.zeros < 40 && (s.reads%3 == 1) {
		s.zeros++
		return 0, nil
	}
	if k < len(s.chunks) && s.offset == 0 {
		if g := s.gates[k]; g != nil {
			select {
			case <-g:
			case <-s.closedCh:
				return 0, os.ErrClosed
			}
		}
		if s.pause != nil {
			s.pause(k)
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if k < len(s.chunks) {
		n := copy(p, s.chunks[k][s.offset:])
		s.offset += n
		if s.offset == len(s.chunks[k]) {
			s.next, s.offset = k+1, 0
			if s.next == len(s.chunks) {
				switch s.end {
				case endEOFData:
					s.ended = true
					return n, io.EOF
				case endErrData:
					s.ended = true
					return n, s.err
				}
			}
		}
		return n, nil
	}
	if s.ended {
		s.after++
	}
	switch s.end {
	case endEOF, endEOFData:
		s.ended = true
		return 0, io.EOF
	case endErr, endErrData:
		s.ended = true
		return 0, s.err
	}
	s.mu.Unlock()
	<-s.closedCh
	s.mu.Lock()
	return 0, os.ErrClosed
}

// fullConn fills every read completely, as far as its data reach. With one of the reads it gives the end.
type fullConn struct {
	scriptConn
	data  []byte
	endAt int // the read which gives the end together with a full buffer; the data behind it do not exist
	sent  int
	sizes []int
}

func newFull(data []byte, endAt, end int, err error) *fullConn {
	f := &fullConn{data: data, endAt: endAt}
	f.end, f.closedCh, f.err = end, make(chan struct{}), err
	return f
}

func (f *fullConn) Read(p []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.reads++
	if f.closed > 0 {
		f.lateRead++
		return 0, os.ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	told := io.EOF
	if f.end == endErr || f.end == endErrData {
		told = f.err
	}
	if f.ended {
		f.after++
		return 0, told
	}
	n := copy(p, f.data[f.sent:])
	f.sent += n
	if len(f.sizes) < 50 {
		f.sizes = append(f.sizes, n)
	}
	if n == 0 {
		f.ended = true
		return 0, told
	}
	if f.reads >= f.endAt && (f.end == endEOFData || f.end == endErrData) {
		f.ended = true
		return n, told
	}
	if f.reads >= f.endAt {
		f.data = f.data[:f.sent]
	}
	return n, nil
}

type connFacts struct{ reads, after, closed, late int }

func (s *scriptConn) facts() connFacts {
	s.mu.Lock()
	defer s.mu.Unlock()
	return connFacts{s.reads, s.after, s.closed, s.lateRead}
}

// scriptListener hands out connections and failures.
type scriptListener struct {
	mu       sync.Mutex
	items    chan any // DataReader or error
	closed   int
	closedCh chan struct{}
	accepts  int
	late     int // accepts after Close
	given    []*scriptConn
}

func newListener(items ...any) *scriptListener {
	l := &scriptListener{items: make(chan any, 4096), closedCh: make(chan struct{})}
	for _, i := range items {
		l.add(i)
	}
	return l
}

func (l *scriptListener) add(i any) { l.items <- i }

func (l *scriptListener) Accept() (syslog.DataReader, error) {
	l.mu.Lock()
	l.accepts++
	if l.closed > 0 {
		l.late++
		l.mu.Unlock()
		return nil, errListenerClosed
	}
	l.mu.Unlock()
	select {
	case i := <-l.items:
		switch v := i.(type) {
		case error:
			return nil, v
		case *scriptConn:
			l.mu.Lock()
			l.given = append(l.given, v)
			l.mu.Unlock()
			return v, nil
		}
		return i.(syslog.DataReader), nil
	case <-l.closedCh:
		return nil, errListenerClosed
	}
}

func (l *scriptListener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.closed++
	if l.closed == 1 {
		close(l.closedCh)
	}
	return nil
}

// result is one outcome of Receive.
type result struct {
	Text string // the message
	Err  error
	M    syslog.MessageImmutable
}

// receiver runs a library receiver with a consumer that records every result.
type receiver struct {
	R    *syslog.Receiver
	mu   sync.Mutex
	res  []result
	done chan struct{} // Receive told that the receiver is finished
	errs *errLog
	ch   <-chan error
}

func newReceiver(c *C, l syslog.Listener, queue int, t syslog.Transport, readErrs bool) *receiver {
	r, ch := syslog.NewReceiver(l, queue, t)
	x := &receiver{R: r, done: make(chan struct{}), ch: ch}
	if readErrs {
		// the channel is never closed by the library: collect what it has until the end of the case
		x.errs = &errLog{done: make(chan struct{})}
		go func() {
			for {
				select {
				case e, ok := <-ch:
					if !ok {
						return
					}
					x.errs.mu.Lock()
					x.errs.errs = append(x.errs.errs, e)
					x.errs.mu.Unlock()
				case <-x.errs.done:
					return
				}
			}
		}()
	}
	return x
}

// consume records results until the receiver is finished.
func (x *receiver) consume(c *C) {
	go func() {
		defer close(x.done)
		c.Guard(func() {
			for {
				m, err, ok := x.R.Receive()
				if !ok {
					return
				}
				x.record(m, err)
			}
		})
	}()
}

func (x *receiver) record(m syslog.MessageImmutable, err error) {
	x.mu.Lock()
	x.res = append(x.res, result{m.String(), err, m})
	x.mu.Unlock()
}

func (x *receiver) results() []result {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]result(nil), x.res...)
}

func (x *receiver) count() int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.res)
}

// stop ends the receiver and waits for it.
func (x *receiver) stop() {
	x.R.End()
	<-x.done
	if x.errs != nil {
		close(x.errs.done)
	}
}

// cut cuts a stream at the given positions.
func cut(b []byte, at ...int) [][]byte {
	var out [][]byte
	p := 0
	for _, a := range at {
		if a > p && a < len(b) {
			out = append(out, append([]byte(nil), b[p:a]...))
			p = a
		}
	}
	if p < len(b) {
		out = append(out, append([]byte(nil), b[p:]...))
	}
	return out
}
