package vharness

// C25: transports, connectors and listeners supplied by the user work like those of the library.

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math/big"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

var errXBad = errors.New("custom transport: bad frame")
var errXShort = errors.New("custom transport: short frame")

// xTransport is a transport made of a framing. All frames are found by PrefixStrip.
type xTransport struct {
	name string
	f    *customFraming
	bad  func(b []byte) bool
	// in what SuffixStrip has to find the frame
	start func(b []byte) ([]byte, error)
	calls atomic.Int64
}

func (t *xTransport) String() string { return t.name }
func (t *xTransport) Encode(b []byte) []byte {
	t.calls.Add(1)
	return []byte(t.f.enc(string(b)))
}
func (t *xTransport) strip(b []byte, atEOF bool) ([]byte, []byte, error) {
	if len(b) == 0 {
		return nil, nil, nil
	}
	if t.bad != nil && t.bad(b) {
		return nil, nil, errXBad
	}
	fr, n, ok := t.f.next(b)
	if !ok {
		if atEOF {
			return nil, nil, errXShort
		}
		return nil, nil, nil
	}
	return []byte(fr), b[n:], nil
}
func (t *xTransport) PrefixStrip(b []byte, atEOF bool) ([]byte, []byte, error) {
	if t.start != nil {
		if len(b) == 0 {
			return nil, nil, nil
		}
		r, err := t.start(b)
		return r, nil, err
	}
	return t.strip(b, atEOF)
}
func (t *xTransport) SuffixStrip(b []byte, atEOF bool) ([]byte, []byte, error) {
	if t.start == nil {
		return b, nil, nil
	}
	fr, rest, err := t.suffix(b)
	if rest == nil && err == nil && atEOF {
		return fr, nil, errXShort
	}
	return fr, rest, err
}

// suffix works on the octets behind the start.
func (t *xTransport) suffix(b []byte) ([]byte, []byte, error) {
	if i := bytes.IndexByte(b, 3); i >= 0 {
		return b[:i], b[i+1:], nil
	}
	return b, nil, nil
}

// xZero shares the octets of the message: the terminator is appended in place.
type xZero struct{ syslog.Transport }

func (t xZero) Encode(b []byte) []byte { return append(b, 0) }

func xReplace(s string, cut ...string) string {
	for _, c := range cut {
		s = strings.ReplaceAll(s, c, strings.Repeat(".", len(c)))
	}
	return s
}

func customFramings() []framing {
	mk := func(name string, f *customFraming, bad func([]byte) bool) framing {
		return framing{Name: name, T: &xTransport{name: name, f: f, bad: bad}, X: f}
	}
	counted := func(b []byte, trailer int) (string, int, bool) {
		if len(b) < 4 {
			return "", 0, false
		}
		n := int(binary.BigEndian.Uint32(b)) + 4
		if len(b) < n+trailer {
			return "", 0, false
		}
		return string(b[4:n]), n + trailer, true
	}
	count := func(m string) string {
		return string(binary.BigEndian.AppendUint32(nil, uint32(len(m)))) + m
	}
	fs := []framing{
		mk("binary count", &customFraming{enc: count, next: func(b []byte) (string, int, bool) { return counted(b, 0) }}, nil),
		mk("checksum", &customFraming{
			enc: func(m string) string {
				return count(m) + string(binary.LittleEndian.AppendUint32(nil, crc32.ChecksumIEEE([]byte(m))))
			},
			next: func(b []byte) (string, int, bool) { return counted(b, 4) },
		}, func(b []byte) bool {
			m, n, ok := counted(b, 4)
			return ok && crc32.ChecksumIEEE([]byte(m)) != binary.LittleEndian.Uint32(b[n-4:])
		}),
		mk("long terminator", &customFraming{
			enc: func(m string) string { return m + "\r\n\r\n" },
			next: func(b []byte) (string, int, bool) {
				i := bytes.Index(b, []byte("\r\n\r\n"))
				if i < 0 {
					return "", 0, false
				}
				return string(b[:i]), i + 4, true
			},
			clean: func(s string) string { return xReplace(s, "\r") },
		}, nil),
		mk("base64 lines", &customFraming{
			enc: func(m string) string { return base64.StdEncoding.EncodeToString([]byte(m)) + "\n" },
			next: func(b []byte) (string, int, bool) {
				i := bytes.IndexByte(b, '\n')
				if i < 0 {
					return "", 0, false
				}
				m, err := base64.StdEncoding.DecodeString(string(b[:i]))
				return string(m), i + 1, err == nil
			},
		}, func(b []byte) bool {
			i := bytes.IndexByte(b, '\n')
			if i < 0 {
				return false
			}
			_, err := base64.StdEncoding.DecodeString(string(b[:i]))
			return err != nil
		}),
		mk("slip", &customFraming{
			enc: func(m string) string {
				return strings.NewReplacer("\xc0", "\xdb\xdc", "\xdb", "\xdb\xdd").Replace(m) + "\xc0"
			},
			next: func(b []byte) (string, int, bool) {
				i := bytes.IndexByte(b, 0xc0)
				if i < 0 {
					return "", 0, false
				}
				return strings.NewReplacer("\xdb\xdc", "\xc0", "\xdb\xdd", "\xdb").Replace(string(b[:i])), i + 1, true
			},
		}, nil),
		mk("compressed", &customFraming{
			enc: func(m string) string {
				var z bytes.Buffer
				w, _ := flate.NewWriter(&z, 6)
				io.WriteString(w, m)
				w.Close()
				return count(z.String())
			},
			next: func(b []byte) (string, int, bool) {
				z, n, ok := counted(b, 0)
				if !ok {
					return "", 0, false
				}
				m, err := io.ReadAll(flate.NewReader(strings.NewReader(z)))
				return string(m), n, err == nil
			},
		}, nil),
	}
	preamble := strings.Repeat("#", 99) + " "
	wide := &customFraming{
		enc: func(m string) string { return preamble + strings.ToUpper(hex.EncodeToString([]byte(m))) + "\r\n" },
		next: func(b []byte) (string, int, bool) {
			i := bytes.IndexByte(b, '\n')
			if i < len(preamble)+1 {
				return "", 0, false
			}
			m, err := hex.DecodeString(string(b[len(preamble) : i-1]))
			return string(m), i + 1, err == nil
		},
	}
	fs = append(fs, mk("wide", wide, nil))
	stx := &customFraming{
		enc: func(m string) string { return "\x02" + m + "\x03" },
		next: func(b []byte) (string, int, bool) {
			i := bytes.IndexByte(b, 3)
			if i < 1 || b[0] != 2 {
				return "", 0, false
			}
			return string(b[1:i]), i + 1, true
		},
		clean: func(s string) string { return xReplace(s, "\x02", "\x03") },
	}
	fs = append(fs, framing{Name: "start and end", X: stx, T: &xTransport{name: "start and end", f: stx, start: func(b []byte) ([]byte, error) {
		if b[0] != 2 {
			return nil, errXBad
		}
		return b[1:], nil
	}}})
	return append(fs, framing{Name: "in place", T: xZero{syslog.TransportZeroEnded}, Term: 0})
}

func (f framing) shortErr() error {
	if f.X != nil {
		return errXShort
	}
	return nil
}

func TestC25(t *testing.T) {
	r := newR(t, "C25", "one evaluation = one run with a transport, connector or listener which is not of the library, whose results or written streams are compared with the messages sent, or one decoding of a stream at some cut; distinct by configuration and content")
	fs := customFramings()

	// the receiver, at every cut of short streams and random cuts of long ones
	r.Case("cuts", func(c *C) {
		for fi, f := range fs {
			for v := 0; v < r.N(4, 40); v++ {
				g := c.Sub(v*50 + fi)
				var conns []*scriptConn
				var streams []*stream
				flush := func() {
					if len(conns) > 0 && !r.full() {
						c.c11Run(t, pick(g, 0, 1, 50), conns, streams, true)
					}
					conns, streams = nil, nil
				}
				for at := 1; ; at++ {
					s := randStream(g, f, fmt.Sprintf("c%d-%d", v, at), 2+at%2, 40)
					if at >= len(s.data) || at > 400 {
						break
					}
					conns = append(conns, newScript(pick(g, endEOF, endEOFData, endIdle), cut(s.data, at)...))
					streams = append(streams, s)
					if len(conns) == 40 {
						flush()
					}
				}
				flush()
				for k := 0; k < 6; k++ {
					s := randStream(g, f, fmt.Sprintf("l%d-%d", v, k), 1+g.IntN(60), pick(g, 300, 3000, 90000))
					var at []int
					for i := g.IntN(30); i > 0; i-- {
						at = append(at, 1+g.IntN(len(s.data)-1))
					}
					conns = append(conns, newScript(pick(g, endEOF, endEOFData, endIdle), cut(s.data, sorted(at)...)...))
					streams = append(streams, s)
				}
				flush()
			}
		}
	})
	// the receiver, with streams which end inside a frame or are wrong: what was whole before is delivered
	// and the error of the transport is told, to the others nothing happens
	r.Case("broken-streams", func(c *C) {
		for fi, f := range fs {
			c.Parallel(r.N(60, 1000), func(i int) { c.c25Broken(c.Sub(i*20+fi), f, i) })
		}
	})
	// the sender, with failing connections
	r.Case("faults", func(c *C) {
		for fi, f := range fs {
			msgs := c03Msgs(c.Sub(fi), f, 3, 30)
			total := 0
			for _, m := range msgs {
				total += len(f.enc(m.Want))
			}
			c.Parallel(total+1, func(off int) {
				for _, k := range []string{"plain", "epipe", "nobufs", "full"} {
					c03Run(c, f, msgs, []fault{{k, off}}, off%3, "custom transport "+f.Name)
				}
			})
			c.Parallel(r.N(60, 1000), func(i int) {
				g := c.Sub(1000 + i*20 + fi)
				ms := c03Msgs(g, f, 1+g.IntN(30), 300)
				var plan []fault
				for j := g.IntN(6); j >= 0; j-- {
					plan = append(plan, fault{pick(g, "connect", "plain", "reset", "nobufs", "full", "short"), g.IntN(600)})
				}
				c03Run(c, f, ms, plan, g.IntN(3), "custom transport "+f.Name)
			})
		}
	})
	r.Case("parse", func(c *C) {
		for fi, f := range fs {
			c.Parallel(r.N(400, 6000), func(i int) { c.c25Parse(c.Sub(i*20+fi), f) })
		}
	})
	r.Case("networks", func(c *C) {
		c.Parallel(len(fs)*3*r.N(1, 12), func(i int) {
			g := c.Sub(i)
			f := fs[i%len(fs)]
			network := []string{"tcp", "unix", "unixgram"}[i/len(fs)%3]
			c.c01Socket(g, network, f, i, pick(g, "", "", "big"))
		})
	})
	r.Case("tls", func(c *C) {
		cert, err := selfSigned()
		if err != nil {
			c.Inconclusive("certificate: %v", err)
			return
		}
		all := append(framings(), fs...)
		c.Parallel(len(all)*r.N(2, 20), func(i int) { c.c25TLS(c.Sub(i), all[i%len(all)], i, cert) })
	})
	r.Case("streams", func(c *C) {
		all := append(framings(), fs...)
		kinds := []string{"net.Pipe", "io.Pipe", "os.Pipe", "file", "gzip", "buffered", "fifo", "embedded", "socketpair"}
		c.Parallel(len(kinds)*r.N(6, 60), func(i int) {
			g := c.Sub(i)
			c.c25Stream(g, pick(g, all...), kinds[i%len(kinds)], i)
		})
	})
	r.Case("datagrams", func(c *C) {
		all := append(framings(), fs...)
		c.Parallel(len(all)*3*r.N(1, 8), func(i int) {
			c.c25Datagrams(c.Sub(i), all[i%len(all)], []string{"unixgram", "unixpacket", "udp"}[i/len(all)%3], i)
		})
	})
	r.Case("one-message-per-connection", func(c *C) {
		c.Parallel(r.N(20, 300), func(i int) { c.c25Whole(c.Sub(i), i) })
	})
}

func sorted(a []int) []int {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
	var out []int
	for i, v := range a {
		if i == 0 || v != a[i-1] {
			out = append(out, v)
		}
	}
	return out
}

func (c *C) c25Broken(g *rand.Rand, f framing, i int) {
	if c.full() {
		return
	}
	l := newListener()
	x := newReceiver(c, l, pick(g, 0, 1, 20), f.T, true)
	x.consume(c)
	bad := randStream(g, f, fmt.Sprintf("bad%d", i), 1+g.IntN(5), 200)
	good := randStream(g, f, fmt.Sprintf("good%d", i), 1+g.IntN(5), 200)
	data, complete, wantErr := append([]byte(nil), bad.data...), len(bad.msgs), error(nil)
	what := "cut"
	at := 1 + g.IntN(len(data)-1)
	switch {
	case g.IntN(2) == 0 && (f.Name == "checksum" || f.Name == "base64 lines" || f.Name == "start and end"):
		// one frame is wrong
		what = "wrong frame"
		k := g.IntN(len(bad.ends))
		begin := 0
		if k > 0 {
			begin = bad.ends[k-1]
		}
		switch f.Name {
		case "checksum":
			data[bad.ends[k]-1] ^= 0x55
		case "base64 lines":
			data[begin+g.IntN(bad.ends[k]-begin-1)] = '!'
		default:
			data[begin] = 'x'
		}
		complete, wantErr = k, errXBad
	default:
		data = data[:at]
		complete = bad.complete(at)
		begin := 0
		if complete > 0 {
			begin = bad.ends[complete-1]
		}
		if begin < at {
			wantErr = f.shortErr()
			if f.X == nil { // an end without terminator is a whole message here
				complete++
				bad.msgs[complete-1] = string(data[begin:])
				if _, err := refRead([]byte(bad.msgs[complete-1])); err != nil {
					return
				}
			}
		}
	}
	var at2 []int
	for k := g.IntN(6); k > 0 && len(data) > 1; k-- {
		at2 = append(at2, 1+g.IntN(len(data)-1))
	}
	l.add(newScript(pick(g, endEOF, endEOFData), cut(data, sorted(at2)...)...))
	l.add(newScript(pick(g, endEOF, endEOFData, endEOF, endEOFData, endIdle), cut(good.data, 1+g.IntN(len(good.data)-1))...))
	want := complete + len(good.msgs)
	if wantErr != nil {
		want++
	}
	for k := 0; k < 20000 && x.count() < want; k++ {
		time.Sleep(500 * time.Microsecond)
		c.Progress()
	}
	time.Sleep(300 * time.Microsecond)
	x.R.End()
	<-x.done
	close(x.errs.done)
	nb, ng, ne := 0, 0, 0
	for k, rs := range x.results() {
		switch {
		case rs.Err != nil:
			ne++
			if !errors.Is(rs.Err, wantErr) || wantErr == nil {
				c.Violate("%s, %s: result %d is the error %v, expected %v", f.Name, what, k, rs.Err, wantErr)
				return
			}
			if nb != complete {
				c.Violate("%s, %s: the error comes behind %d messages of its connection, not %d", f.Name, what, nb, complete)
			}
		case ng < len(good.msgs) && rs.Text == good.msgs[ng]:
			ng++
		case nb < complete && rs.Text == bad.msgs[nb]:
			nb++
		default:
			c.Violate("%s, %s: result %d is %s, %d and %d messages came before", f.Name, what, k, q(rs.Text), ng, nb)
			return
		}
	}
	if ng != len(good.msgs) || nb != complete || (ne == 1) != (wantErr != nil) {
		c.Violate("%s, %s: %d of %d messages, %d errors (expected %v), and %d of %d messages of the other connection", f.Name, what, nb, complete, ne, wantErr, ng, len(good.msgs))
	}
	c.Eval(true, f.Name, what, data)
}

func (c *C) c25Parse(g *rand.Rand, f framing) {
	s := randStream(g, f, "p", 1+g.IntN(4), 200)
	b := append([]byte(nil), s.data...)
	for k := range s.msgs {
		m, rest, err := syslog.Parse(b, f.T, g.IntN(2) == 0)
		end := s.ends[len(s.ends)-1] - s.ends[k]
		if err != nil || m.String() != s.msgs[k] || rest == nil || len(rest) != end || !bytes.Equal(rest, b[len(b)-end:]) {
			c.Violate("%s: Parse gives %s, %d octets of rest, %v for message %s and %d octets of rest", f.Name, q(m.String()), len(rest), err, q(s.msgs[k]), end)
			return
		}
		b = rest
	}
	c.Eval(true, f.Name, s.data)
	// incomplete: no message
	end := s.ends[0]
	at := g.IntN(end)
	m, rest, err := syslog.Parse(s.data[:at:at], f.T, false)
	if f.X != nil && f.Name != "start and end" && (err != nil || rest != nil || m.String() != "") {
		c.Violate("%s: Parse gives %s, %s, %v for %d of %d octets of a frame", f.Name, q(m.String()), q(rest), err, at, end)
	}
	if f.X != nil && at > 0 {
		if _, _, err := syslog.Parse(s.data[:at:at], f.T, true); !errors.Is(err, errXShort) {
			c.Violate("%s: Parse gives the error %v for %d of %d octets of the last frame", f.Name, err, at, end)
		}
	}
	if _, _, err := syslog.Parse([]byte("!"+string(s.data)), f.T, false); f.Name == "base64 lines" && !errors.Is(err, errXBad) {
		c.Violate("%s: Parse gives the error %v for a bad frame", f.Name, err)
	}
}

func selfSigned() (tls.Certificate, error) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return tls.Certificate{}, err
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Unix(0, 0), NotAfter: time.Now().Add(1e6 * time.Second), IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &key.PublicKey, key)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, err
}

// xListener makes any Accept a listener of the library.
type xListener struct {
	accept func() (syslog.DataReader, error)
	close  func() error
}

func (l xListener) Accept() (syslog.DataReader, error) { return l.accept() }
func (l xListener) Close() error                       { return l.close() }

// c25TLS sends over TLS to a receiver with a TLS listener.
func (c *C) c25TLS(g *rand.Rand, f framing, i int, cert tls.Certificate) {
	if c.full() {
		return
	}
	tl, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{cert}})
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	e := &e2e{f: f, x: newReceiver(c, xListener{func() (syslog.DataReader, error) { return tl.Accept() }, tl.Close}, pick(g, 0, 1, 100), f.T, true)}
	e.x.consume(c)
	defer e.x.stop()
	senders := 1 + g.IntN(3)
	for s := 0; s < senders; s++ {
		var tick <-chan time.Time
		var stop func()
		if g.IntN(4) > 0 {
			tk := time.NewTicker(2 * time.Millisecond)
			tick, stop = tk.C, tk.Stop
			defer stop()
		}
		snd, ch := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) {
			// both results as they are: the connection is a typed nil when it fails
			return tls.Dial("tcp", tl.Addr().String(), &tls.Config{InsecureSkipVerify: true})
		}), f.T, tick)
		e.snd, e.errs = append(e.snd, snd), append(e.errs, drainErrs(ch))
		var ps []traffic
		for p := 1 + g.IntN(3); p > 0; p-- {
			ps = append(ps, mkTraffic(g, f, fmt.Sprintf("tls%d.%d.%d", i, s, p), 1+g.IntN(80), pick(g, 3000, 60000), true))
		}
		e.producers = append(e.producers, ps)
	}
	e.desc = fmt.Sprintf("tls, %s framing, %d senders", f.Name, senders)
	c.e2eRun(e, g, 30*time.Second)
}

// chanListener gives the connections it is given, until it is closed.
func chanListener() (xListener, chan syslog.DataReader) {
	ch := make(chan syslog.DataReader, 8)
	end := make(chan struct{})
	var once sync.Once
	return xListener{func() (syslog.DataReader, error) {
		select {
		case r := <-ch:
			return r, nil
		case <-end:
			return nil, io.EOF
		}
	}, func() error { once.Do(func() { close(end) }); return nil }}, ch
}

type namedReader struct {
	io.Reader
	close func() error
}

func (namedReader) RemoteAddr() net.Addr { return nil }
func (r namedReader) Close() error       { return r.close() }

type funcWriter struct {
	io.Writer
	close func() error
}

func (w funcWriter) Close() error { return w.close() }

// stacked is a connection of package net inside a type of the user.
type stacked struct {
	*net.TCPConn
	n atomic.Int64
}

func (s *stacked) Write(b []byte) (int, error) {
	n, err := s.TCPConn.Write(b)
	s.n.Add(int64(n))
	return n, err
}

// c25Stream sends through a pipe, a file or a filter.
func (c *C) c25Stream(g *rand.Rand, f framing, kind string, i int) {
	if c.full() {
		return
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	l, ch := chanListener()
	e := &e2e{f: f, x: newReceiver(c, l, pick(g, 0, 1, 100), f.T, true)}
	e.x.consume(c)
	defer e.x.stop()
	var w syslog.WriteCloser
	connects := 0
	after := func() {} // when the sender is ended
	switch kind {
	case "net.Pipe":
		a, b := net.Pipe()
		w = a
		ch <- b
	case "io.Pipe":
		pr, pw := io.Pipe()
		w = pw
		ch <- namedReader{pr, pr.Close}
	case "os.Pipe", "fifo":
		var pr, pw *os.File
		var err error
		if kind == "fifo" {
			path := filepath.Join(dir, "fifo")
			if err = syscall.Mkfifo(path, 0o600); err == nil {
				if pr, err = os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
					pw, err = os.OpenFile(path, os.O_WRONLY, 0)
				}
			}
		} else {
			pr, pw, err = os.Pipe()
		}
		if err != nil {
			c.Inconclusive("%s: %v", kind, err)
			return
		}
		w = pw
		ch <- namedReader{pr, pr.Close}
	case "file":
		path := filepath.Join(dir, "log")
		fw, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o600)
		if err != nil {
			c.Inconclusive("%s: %v", kind, err)
			return
		}
		w = fw
		after = func() {
			if fr, err := os.Open(path); err == nil {
				ch <- namedReader{fr, fr.Close}
			}
		}
	case "gzip", "buffered":
		a, b := net.Pipe()
		if kind == "gzip" {
			z := gzip.NewWriter(a)
			w = funcWriter{z, func() error { z.Close(); return a.Close() }}
			ch <- namedReader{&lazyGzip{r: b}, b.Close}
			break
		}
		var mu sync.Mutex
		var buf bytes.Buffer
		w = funcWriter{lockedWriter{&mu, &buf}, func() error {
			mu.Lock()
			defer mu.Unlock()
			a.Write(buf.Bytes())
			return a.Close()
		}}
		ch <- b
	case "embedded":
		tl, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Inconclusive("listen: %v", err)
			return
		}
		defer tl.Close()
		go func() {
			if conn, err := tl.Accept(); err == nil {
				ch <- conn
			}
		}()
		conn, err := net.Dial("tcp", tl.Addr().String())
		if err != nil {
			c.Inconclusive("dial: %v", err)
			return
		}
		st := &stacked{TCPConn: conn.(*net.TCPConn)}
		w = st
		defer func() {
			want := 0
			for _, tr := range e.producers[0] {
				for _, m := range tr.msgs {
					want += len(f.enc(m.Want))
				}
			}
			if n := st.n.Load(); n != int64(want) && !c.full() {
				c.Violate("%s: %d octets of %d are given to the Write of the connection of the user", e.desc, n, want)
			}
		}()
	case "socketpair":
		fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			c.Inconclusive("socketpair: %v", err)
			return
		}
		var cs [2]net.Conn
		for k := range cs {
			fl := os.NewFile(uintptr(fds[k]), "pair")
			if cs[k], err = net.FileConn(fl); err != nil {
				c.Inconclusive("socketpair: %v", err)
				return
			}
			fl.Close()
		}
		w = cs[0]
		ch <- cs[1]
	}
	tk := time.NewTicker(time.Duration(pick(g, 1, 3, 20)) * time.Millisecond)
	defer tk.Stop()
	snd, ech := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) {
		if connects++; connects > 1 {
			return nil, errors.New("a second connection is asked for")
		}
		return w, nil
	}), f.T, tk.C)
	e.snd, e.errs = []*syslog.Sender{snd}, []*errLog{drainErrs(ech)}
	var ps []traffic
	for p := 1 + g.IntN(3); p > 0; p-- {
		ps = append(ps, mkTraffic(g, f, fmt.Sprintf("s%d.%d", i, p), 1+g.IntN(80), pick(g, 3000, 100000), true))
	}
	e.producers = [][]traffic{ps}
	if kind == "file" {
		go func() { <-e.errs[0].done; after() }()
	}
	e.desc = fmt.Sprintf("%s, %s framing", kind, f.Name)
	c.e2eRun(e, g, 30*time.Second)
}

type lockedWriter struct {
	mu *sync.Mutex
	w  io.Writer
}

func (w lockedWriter) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.w.Write(b)
}

// lazyGzip reads its header when it is first read.
type lazyGzip struct {
	r io.Reader
	z *gzip.Reader
}

func (l *lazyGzip) Read(b []byte) (int, error) {
	if l.z == nil {
		z, err := gzip.NewReader(l.r)
		if err != nil {
			return 0, err
		}
		l.z = z
	}
	return l.z.Read(b)
}

// c25Datagrams sends through a datagram socket of the user: each datagram is one frame, and none is lost
// although all together are far above the limit of a datagram.
func (c *C) c25Datagrams(g *rand.Rand, f framing, network string, i int) {
	if c.full() {
		return
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	addr := filepath.Join(dir, "s")
	var got [][]byte
	var conn net.Conn
	done := make(chan struct{})
	read := func(r io.Reader) {
		defer close(done)
		b := make([]byte, 1<<18)
		for {
			n, err := r.Read(b)
			if err != nil || n == 0 {
				return
			}
			got = append(got, append([]byte(nil), b[:n]...))
		}
	}
	var closeServer func() error
	n := 5 + g.IntN(60)
	size := pick(g, 100, 3000, 30000)
	switch network {
	case "unixgram":
		s, err := net.ListenUnixgram(network, &net.UnixAddr{Name: addr, Net: network})
		if err == nil {
			conn, err = net.Dial(network, addr)
			closeServer = s.Close
			go read(s)
		}
		if err != nil {
			c.Inconclusive("%s: %v", network, err)
			return
		}
	case "unixpacket":
		s, err := net.Listen(network, addr)
		if err == nil {
			conn, err = net.Dial(network, addr)
		}
		if err != nil {
			c.Inconclusive("%s: %v", network, err)
			return
		}
		p, err := s.Accept()
		if err != nil {
			c.Inconclusive("%s: %v", network, err)
			return
		}
		closeServer = func() error { p.Close(); return s.Close() }
		go read(p)
	case "udp":
		n, size = 5+g.IntN(10), 1000 // far below what a socket keeps: none is dropped by the kernel
		s, err := net.ListenPacket(network, "127.0.0.1:0")
		if err == nil {
			conn, err = net.Dial(network, s.LocalAddr().String())
			closeServer = s.Close
			s.(*net.UDPConn).SetReadBuffer(1 << 20)
			go read(s.(*net.UDPConn))
		}
		if err != nil {
			c.Inconclusive("%s: %v", network, err)
			return
		}
	}
	var w syslog.WriteCloser = conn
	if g.IntN(3) == 0 {
		w = struct{ net.Conn }{conn}
	}
	var end []byte = []byte("end")
	tk := make(manualTicker)
	snd, ech := syslog.NewSender(syslog.ConnectorFunc(func() (syslog.WriteCloser, error) { return keepOpen{w}.as(), nil }), f.T, (<-chan time.Time)(tk))
	l := drainErrs(ech)
	var want []string
	for k := 0; k < n; k++ {
		m := sizedMsg(g, f, fmt.Sprintf("d%d", k), 100+g.IntN(size))
		if err := snd.Send(m.M); err != nil {
			c.Violate("%s: send refused: %v", network, err)
		}
		want = append(want, f.enc(m.Want))
		if g.IntN(20) == 0 {
			tk.tick(nil)
		}
	}
	if g.IntN(2) == 0 {
		tk.tick(nil)
		tk.tick(nil)
	}
	snd.End()
	<-l.done
	// the sender has closed its socket: the end is told by another one
	if network != "unixpacket" {
		a := addr
		if network == "udp" {
			a = conn.RemoteAddr().String()
		}
		if last, err := net.Dial(network, a); err == nil {
			last.Write(end)
			last.Close()
		}
		for k := 0; k < 200; k++ {
			time.Sleep(time.Millisecond)
			c.Progress()
		}
		closeServer()
		<-done
		if len(got) > 0 && string(got[len(got)-1]) == "end" {
			got = got[:len(got)-1]
		}
	} else {
		<-done
		closeServer()
	}
	what := fmt.Sprintf("%s socket of the user, %s framing, %d messages up to %d octets", network, f.Name, n, size)
	if l.count() > 0 {
		c.Violate("%s: errors %v", what, l.all())
	}
	for k := range want {
		if k >= len(got) || string(got[k]) != want[k] {
			x := "nothing"
			if k < len(got) {
				x = fmt.Sprintf("%d octets %s", len(got[k]), q(got[k][:min(len(got[k]), 60)]))
			}
			c.Violate("%s: %d datagrams; datagram %d is %s, expected %d octets %s", what, len(got), k, x, len(want[k]), q(want[k][:min(len(want[k]), 60)]))
			break
		}
	}
	if len(got) > len(want) {
		c.Violate("%s: %d datagrams", what, len(got))
	}
	c.Stat("datagrams", int64(len(got)))
	c.Eval(true, what, strings.Join(want, ""))
}

// keepOpen is a place for a connection handed over as it is.
type keepOpen struct{ w syslog.WriteCloser }

func (k keepOpen) as() syslog.WriteCloser { return k.w }

// wholeT: a connection carries one message, without any mark.
type wholeT struct{}

func (wholeT) String() string         { return "one message per connection" }
func (wholeT) Encode(b []byte) []byte { return b }
func (wholeT) PrefixStrip(b []byte, atEOF bool) ([]byte, []byte, error) {
	if len(b) == 0 || !atEOF {
		return nil, nil, nil
	}
	return b, b[len(b):], nil
}
func (wholeT) SuffixStrip(b []byte, atEOF bool) ([]byte, []byte, error) { return b, nil, nil }

func (c *C) c25Whole(g *rand.Rand, i int) {
	if c.full() {
		return
	}
	l := newListener()
	x := newReceiver(c, l, pick(g, 0, 5), wholeT{}, true)
	x.consume(c)
	want := map[string]int{}
	n := 1 + g.IntN(20)
	for k := 0; k < n; k++ {
		f := framing{Term: -1}
		m := sizedMsg(g, f, fmt.Sprintf("w%d-%d", i, k), pick(g, 0, 100, 5000, 200000)+g.IntN(100)).Want
		want[m]++
		var at []int
		for j := g.IntN(10); j > 0; j-- {
			at = append(at, 1+g.IntN(len(m)-1))
		}
		l.add(newScript(pick(g, endEOF, endEOFData), cut([]byte(m), sorted(at)...)...))
	}
	for k := 0; k < 20000 && x.count() < n; k++ {
		time.Sleep(500 * time.Microsecond)
		c.Progress()
	}
	x.stop()
	for _, rs := range x.results() {
		if rs.Err != nil || want[rs.Text] == 0 {
			c.Violate("one message per connection: result %s, %v", q(rs.Text), rs.Err)
			return
		}
		want[rs.Text]--
	}
	if len(x.results()) != n {
		c.Violate("one message per connection: %d results for %d connections", len(x.results()), n)
	}
	c.Eval(true, i, n)
}
