package vharness

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// plain is an independent server which records what arrives.
type plain struct {
	mu     sync.Mutex
	conns  [][]byte // streams, in order of arrival
	dgrams [][]byte
	addr   string
	close  func()
	open   []net.Conn
}

func (p *plain) streams() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	var out []string
	for _, b := range p.conns {
		out = append(out, string(b))
	}
	return out
}

func (p *plain) datagrams() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	var out []string
	for _, b := range p.dgrams {
		out = append(out, string(b))
	}
	return out
}

func (p *plain) size() (n int) {
	for _, s := range p.streams() {
		n += len(s)
	}
	for _, s := range p.datagrams() {
		n += len(s)
	}
	return
}

// stop closes the server and all its connections.
func (p *plain) stop() {
	p.close()
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, c := range p.open {
		c.Close()
	}
}

func (p *plain) accept(l net.Listener) {
	for {
		conn, err := l.Accept()
		if err != nil {
			return
		}
		p.mu.Lock()
		k := len(p.conns)
		p.conns = append(p.conns, nil)
		p.open = append(p.open, conn)
		p.mu.Unlock()
		go func() {
			defer conn.Close()
			buf := make([]byte, 1<<16)
			for {
				n, err := conn.Read(buf)
				p.mu.Lock()
				p.conns[k] = append(p.conns[k], buf[:n]...)
				p.mu.Unlock()
				if err != nil {
					return
				}
			}
		}()
	}
}

func plainServer(network, addr string) (*plain, error) {
	p := &plain{}
	if network == "unixgram" {
		c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: addr, Net: "unixgram"})
		if err != nil {
			return nil, err
		}
		c.SetReadBuffer(1 << 22)
		p.addr, p.close = addr, func() { c.Close(); os.Remove(addr) }
		go func() {
			buf := make([]byte, 1<<20)
			for {
				n, err := c.Read(buf)
				if err != nil {
					return
				}
				p.mu.Lock()
				p.dgrams = append(p.dgrams, append([]byte(nil), buf[:n]...))
				p.mu.Unlock()
			}
		}()
		return p, nil
	}
	l, err := net.Listen(network, addr)
	if err != nil {
		return nil, err
	}
	p.addr, p.close = l.Addr().String(), func() { l.Close() }
	go p.accept(l)
	return p, nil
}

// reserved is a TCP port held by a socket that does not listen: nobody can connect to it
// and nobody else gets it. arm makes it listen.
type reserved struct {
	fd   int
	addr string
	p    *plain
}

func reserve(ip string) (*reserved, error) {
	dom, sa := syscall.AF_INET, syscall.Sockaddr(nil)
	v4 := net.ParseIP(ip).To4()
	if v4 != nil {
		sa = &syscall.SockaddrInet4{Addr: [4]byte(v4)}
	} else {
		dom = syscall.AF_INET6
		sa = &syscall.SockaddrInet6{Addr: [16]byte(net.ParseIP(ip).To16())}
	}
	fd, err := syscall.Socket(dom, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	if err := syscall.Bind(fd, sa); err != nil {
		syscall.Close(fd)
		return nil, err
	}
	got, err := syscall.Getsockname(fd)
	if err != nil {
		syscall.Close(fd)
		return nil, err
	}
	port := 0
	switch s := got.(type) {
	case *syscall.SockaddrInet4:
		port = s.Port
	case *syscall.SockaddrInet6:
		port = s.Port
	}
	return &reserved{fd: fd, addr: net.JoinHostPort(ip, strconv.Itoa(port))}, nil
}

// reserveAt reserves the same port on several addresses.
func reserveAt(ips ...string) (rs []*reserved, port string, err error) {
	for try := 0; try < 30; try++ {
		rs = nil
		var first *reserved
		if first, err = reserve(ips[0]); err != nil {
			return nil, "", err
		}
		rs = append(rs, first)
		_, port, _ = net.SplitHostPort(first.addr)
		n, _ := strconv.Atoi(port)
		for _, ip := range ips[1:] {
			var fd int
			dom, sa := syscall.AF_INET, syscall.Sockaddr(nil)
			if v4 := net.ParseIP(ip).To4(); v4 != nil {
				sa = &syscall.SockaddrInet4{Port: n, Addr: [4]byte(v4)}
			} else {
				dom, sa = syscall.AF_INET6, &syscall.SockaddrInet6{Port: n, Addr: [16]byte(net.ParseIP(ip).To16())}
			}
			if fd, err = syscall.Socket(dom, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0); err != nil {
				break
			}
			if err = syscall.Bind(fd, sa); err != nil {
				syscall.Close(fd)
				break
			}
			rs = append(rs, &reserved{fd: fd, addr: net.JoinHostPort(ip, port)})
		}
		if err == nil {
			return rs, port, nil
		}
		for _, r := range rs {
			r.close()
		}
	}
	return nil, "", err
}

func (r *reserved) arm() error {
	if err := syscall.Listen(r.fd, 128); err != nil {
		return err
	}
	f := os.NewFile(uintptr(r.fd), "reserved")
	l, err := net.FileListener(f)
	f.Close()
	r.fd = -1
	if err != nil {
		return err
	}
	r.p = &plain{addr: r.addr, close: func() { l.Close() }}
	go r.p.accept(l)
	return nil
}

func (r *reserved) close() {
	if r.fd >= 0 {
		syscall.Close(r.fd)
		r.fd = -1
	}
	if r.p != nil {
		r.p.close()
	}
}

// upper is a transport of the user.
type upper struct{ syslog.Transport }

func (upper) Encode(b []byte) []byte { return []byte("<<" + strings.ToUpper(string(b)) + ">>") }

// transports gives the transports a dialer may be given, with their framing.
func transports(dflt framing) []struct {
	name string
	t    syslog.Transport
	enc  func(string) string
} {
	type tr = struct {
		name string
		t    syslog.Transport
		enc  func(string) string
	}
	out := []tr{{"the default transport", nil, dflt.enc}}
	for _, f := range framings() {
		out = append(out, tr{f.Name, f.T, f.enc})
	}
	up := upper{syslog.TransportLFEnded}
	return append(out, tr{"a custom transport", up, func(s string) string { return string(up.Encode([]byte(s))) }})
}

func texts(tag string, n int) (ms []syslog.Message, want []string) {
	for k := 0; k < n; k++ {
		m := mkMsg(fmt.Sprintf("%s-%d", tag, k), 5, time.Unix(int64(k), 0), "dialed")
		ms = append(ms, m.M)
		want = append(want, m.Want)
	}
	return
}

func joined(enc func(string) string, want []string) (s string) {
	for _, w := range want {
		s += enc(w)
	}
	return
}

// endSoon ends a sender that may never be able to deliver.
func endSoon(c *C, snd *syslog.Sender, what string) bool {
	ok := patience(func() { c.Guard(snd.End) })
	if !ok {
		c.Violate("%s: End never returns", what)
	}
	return ok
}

func TestC21(t *testing.T) {
	r := newR(t, "C21", "one evaluation = one dialed sender (or connector) and what an independent server received from it, or the error given; distinct = distinct (network, address kind, transport, outcome)")
	fs := framings()
	rfc, lf, zero := fs[0], fs[1], fs[2]
	_ = rfc

	r.Case("days", func(c *C) { c.Days() })
	r.Case("unix", func(c *C) {
		c.Parallel(r.N(60, 1500), func(i int) { c.c21Unix(c.Sub(i), []string{"unix", "unixgram", "local", "local-gram"}[i%4], zero, i) })
	})
	r.Case("tcp", func(c *C) {
		six := haveIPv6()
		c.Parallel(r.N(60, 1500), func(i int) {
			network := []string{"tcp", "tcp4", "tcp6"}[i%3]
			if network == "tcp6" && !six {
				return
			}
			c.c21TCP(c.Sub(i), network, lf, i)
		})
	})
	r.Case("same-address", func(c *C) {
		c.Parallel(r.N(50, 1000), func(i int) {
			kind := []string{"unix", "tcp", "unixgram", "local", "local-gram"}[i%5]
			dflt := zero
			if kind == "tcp" {
				dflt = lf
			}
			c.c21Same(c.Sub(i), kind, dflt)
		})
	})
	r.Case("stdio", func(c *C) { c.c21Stdio(lf) })
	r.Case("stdio-shared", func(c *C) {
		for i := 0; i < r.N(40, 600) && !r.full(); i++ {
			c.c21StdioShared(c.Sub(i), i)
		}
	})
	r.Case("flush-delay", func(c *C) { c.c21Flush(t) })
	r.Case("families", func(c *C) { c.c21Families() })
	r.Case("names", func(c *C) { c.c21Names() })
	r.Case("default-port", func(c *C) { c.c21DefaultPort() })
	r.Case("server-comes-later", func(c *C) {
		c.Parallel(r.N(18, 200), func(i int) { c.c21Later(c.Sub(i), i) })
	})
	r.Case("server-replaced", func(c *C) {
		c.Parallel(r.N(48, 800), func(i int) { c.c21Replaced(c.Sub(i), i) })
	})
	r.Case("bad-networks", func(c *C) { c.c21BadNetworks() })
	r.Case("bad-addresses", func(c *C) { c.c21BadAddresses() })
	r.Case("connectors", func(c *C) { c.c21Connectors() })
	r.Case("system-log", func(c *C) { c.c21SystemLog() })
}

// logPaths are the sockets of the system log
var logPaths = []string{"/var/run/syslog", "/var/run/log", "/dev/log"}

type localLogReport struct {
	Errs    []string
	Streams map[string][]string
	Dgrams  map[string][]string
	Ended   bool
	Phases  []localLogPhase // what the successive servers got
}

type localLogPhase struct{ Streams, Dgrams map[string][]string }

// roleLocalLog runs in a child with its own user and mount namespaces, where /var/run and /dev are
// empty: makes the sockets asked for, then logs through Dial("local", "").
func roleLocalLog() {
	fail := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(7)
		}
	}
	fail(syscall.Mount("none", "/", "", syscall.MS_REC|syscall.MS_PRIVATE, ""))
	run, err := filepath.EvalSymlinks("/var/run")
	fail(err)
	fail(syscall.Mount("none", run, "tmpfs", 0, ""))
	fail(syscall.Mount("none", "/dev", "tmpfs", 0, ""))
	for _, p := range logPaths {
		if _, err := os.Lstat(p); err == nil {
			fail(fmt.Errorf("%s is still there", p))
		}
	}
	setup := os.Getenv("VH_SETUP")
	servers := map[string]*plain{}
	serve := func(setup string) {
		for i, p := range logPaths {
			var err error
			switch setup[i] {
			case 's':
				servers[p], err = plainServer("unix", p)
			case 'd':
				servers[p], err = plainServer("unixgram", p)
			case 'f':
				err = os.WriteFile(p, []byte("a file"), 0o600)
			case 'x', 'y': // left by a dead stream or datagram server
				typ := syscall.SOCK_STREAM
				if setup[i] == 'y' {
					typ = syscall.SOCK_DGRAM
				}
				var fd int
				if fd, err = syscall.Socket(syscall.AF_UNIX, typ, 0); err == nil {
					err = syscall.Bind(fd, &syscall.SockaddrUnix{Name: p})
					syscall.Close(fd)
				}
			}
			fail(err)
		}
	}
	var rep localLogReport
	received := func() (p localLogPhase) {
		p = localLogPhase{map[string][]string{}, map[string][]string{}}
		for path, s := range servers {
			if x := s.streams(); len(x) > 0 {
				p.Streams[path] = x
			}
			if x := s.datagrams(); len(x) > 0 {
				p.Dgrams[path] = x
			}
		}
		return
	}
	var later []string
	if p := strings.Split(setup, ">"); len(p) > 1 {
		setup, later = p[0], p[1:]
	}
	serve(setup[:3])
	snd, errs, err := (syslog.Dialer{FlushDelay: 20 * time.Millisecond}).Dial("local", "", nil)
	if err != nil {
		rep.Errs = append(rep.Errs, err.Error())
	} else {
		msgs, want := texts("sys", 3)
		size := len(strings.Join(want, "\x00")) + 1
		send := func() {
			for _, m := range msgs {
				if err := snd.Send(m); err != nil {
					rep.Errs = append(rep.Errs, "Send: "+err.Error())
				}
			}
		}
		wait := func() {
			for limit := time.Now().Add(20 * time.Second); time.Now().Before(limit); time.Sleep(2 * time.Millisecond) {
				n := 0
				for _, p := range servers {
					n += p.size()
				}
				if n >= size {
					break
				}
			}
		}
		send()
		if len(setup) > 3 { // the server comes when an error has been reported
			select {
			case err := <-errs:
				rep.Errs = append(rep.Errs, err.Error())
			case <-time.After(20 * time.Second):
			}
			serve(setup[3:])
		}
		for _, next := range later { // all the servers are replaced by others
			wait()
			time.Sleep(5 * time.Millisecond)
			rep.Phases = append(rep.Phases, received())
			for p, s := range servers {
				s.stop()
				delete(servers, p)
			}
			for _, p := range logPaths {
				os.Remove(p)
			}
			serve(next)
			send()
		}
		if len(servers) > 0 {
			wait()
			done := make(chan struct{})
			go func() { snd.End(); close(done) }()
			select {
			case <-done:
				rep.Ended = true
			case <-time.After(20 * time.Second):
			}
			time.Sleep(20 * time.Millisecond)
		} else {
			select {
			case err := <-errs:
				rep.Errs = append(rep.Errs, err.Error())
			case <-time.After(20 * time.Second):
			}
		}
	}
	last := received()
	rep.Streams, rep.Dgrams = last.Streams, last.Dgrams
	rep.Phases = append(rep.Phases, last)
	b, _ := json.Marshal(rep)
	os.Stdout.Write(b)
	os.Exit(0)
}

// c21SystemLog: without an address, "local" is the log of the system: the first of the known paths
// that takes a stream, else the first one that takes datagrams.
func (c *C) c21SystemLog() {
	var setups []string
	kinds := "-sdfxy"
	for _, a := range kinds {
		for _, b := range kinds {
			for _, d := range kinds {
				s := string([]rune{a, b, d})
				// all the combinations of live servers, and every other object on any path
				if !strings.ContainsAny(s, "fxy") || strings.Count(s, "-") == 1 {
					setups = append(setups, s)
				}
			}
		}
	}
	setups = append(setups, "---s--", "----d-", "-----d", "-----s", "---d-s", "---dd-", "xy---d", "ff---s")
	// the log daemon is replaced by another one, on another path or of another kind
	setups = append(setups, "--s>-s-", "--d>d--", "--s>d-->--d", "--s>s-s", "s-->--s", "d-->--d>-d-", "-s->-d-", "-d->-s->-d-", "--d>sdd", "s-->s--", "--s>f-s>s-x", "ddd>--d", "sss>--s>-ss>sss", "--d>y-s>dyx")
	_, want := texts("sys", 3)
	c.Parallel(len(setups), func(i int) {
		setup := setups[i]
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, "/proc/self/exe")
		cmd.Env = append(os.Environ(), "VH_ROLE=locallog", "VH_SETUP="+setup)
		cmd.SysProcAttr = &syscall.SysProcAttr{
			Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNS,
			UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
			GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
		}
		var out, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &stderr
		if err := cmd.Run(); err != nil {
			if s := stderr.String(); strings.Contains(s, "panic:") && strings.Contains(s, "syslog5424/v2") {
				c.Violate("Dial(\"local\", \"\") with %q: %s", setup, q([]byte(s)))
			} else {
				c.Inconclusive("system log %q not possible here: %v %s", setup, err, s)
			}
			return
		}
		var rep localLogReport
		if err := json.Unmarshal(out.Bytes(), &rep); err != nil {
			c.Inconclusive("system log %q: %v", setup, err)
			return
		}
		live := setup
		if strings.Contains(setup, ">") {
			phases := strings.Split(setup, ">")
			if !rep.Ended || len(rep.Phases) != len(phases) {
				c.Violate("Dial(\"local\", \"\") with %v being %q one after the other: End returns: %v, errors %q", logPaths, setup, rep.Ended, rep.Errs)
				return
			}
			for k, p := range phases {
				path, w := strings.IndexByte(p, 's'), localLogPhase{map[string][]string{}, map[string][]string{}}
				if path >= 0 {
					w.Streams[logPaths[path]] = []string{strings.Join(want, "\x00") + "\x00"}
				} else if path = strings.IndexByte(p, 'd'); path >= 0 {
					for _, m := range want {
						w.Dgrams[logPaths[path]] = append(w.Dgrams[logPaths[path]], m+"\x00")
					}
				}
				if !reflect.DeepEqual(rep.Phases[k], w) {
					c.Violate("Dial(\"local\", \"\") with %v being %q one after the other: in state %d (%s) streams %q and datagrams %q received", logPaths, setup, k, p, rep.Phases[k].Streams, rep.Phases[k].Dgrams)
					return
				}
			}
			c.Eval(true, "system-log", setup)
			c.Stat("system_logs_replaced", int64(len(phases)-1))
			return
		}
		if len(setup) > 3 {
			live = setup[3:]
		}
		path := -1
		if path = strings.IndexByte(live, 's'); path < 0 {
			path = strings.IndexByte(live, 'd')
		}
		what := fmt.Sprintf("Dial(\"local\", \"\") with %v being %q", logPaths, setup)
		switch {
		case path < 0:
			if len(rep.Errs) == 0 {
				c.Violate("%s: no error reported", what)
			}
		case !rep.Ended:
			c.Violate("%s: End does not return", what)
		case live[path] == 's':
			wantS := map[string][]string{logPaths[path]: {strings.Join(want, "\x00") + "\x00"}}
			if !reflect.DeepEqual(rep.Streams, wantS) || len(rep.Dgrams) > 0 {
				c.Violate("%s: streams %q and datagrams %q received", what, rep.Streams, rep.Dgrams)
			}
		default:
			var wantD []string
			for _, w := range want {
				wantD = append(wantD, w+"\x00")
			}
			if !reflect.DeepEqual(rep.Dgrams, map[string][]string{logPaths[path]: wantD}) || len(rep.Streams) > 0 {
				c.Violate("%s: streams %q and datagrams %q received", what, rep.Streams, rep.Dgrams)
			}
		}
		if len(setup) > 3 && len(rep.Errs) == 0 {
			c.Violate("%s: no error reported while there was no server", what)
		}
		c.Eval(true, "system-log", setup)
		c.Stat("system_logs", 1)
	})
}

func (c *C) c21Unix(g *rand.Rand, kind string, dflt framing, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	network, served := kind, kind
	switch kind {
	case "local":
		served = "unix"
	case "local-gram":
		network, served = "local", "unixgram"
	}
	// several servers; only the one dialed gets anything
	var ps []*plain
	for k := 0; k < 3; k++ {
		name := []string{"log", "log2", "lo"}[k]
		s := served
		if k > 0 {
			s = pick(g, "unix", "unixgram")
		}
		p, err := plainServer(s, filepath.Join(dir, name))
		if err != nil {
			c.Inconclusive("server: %v", err)
			return
		}
		defer p.close()
		ps = append(ps, p)
	}
	trs := transports(dflt)
	tr := trs[(i/4)%len(trs)]
	what := fmt.Sprintf("Dial(%q) to a %s server with %s", network, served, tr.name)
	address := filepath.Join(dir, "log")
	what += " at " + spelling(g, dir, &address)
	snd, ch, err := (syslog.Dialer{FlushDelay: 2 * time.Millisecond}).Dial(network, address, tr.t)
	if err != nil || snd == nil || ch == nil {
		c.Violate("%s: %v, %v, %v", what, snd, ch, err)
		return
	}
	errs := drainErrs(ch)
	ms, want := texts(fmt.Sprint("u", i), 1+g.IntN(60))
	if tr.name == "a custom transport" {
		// nothing: any message fits
	}
	for _, m := range ms {
		snd.Send(m)
		if g.IntN(10) == 0 {
			time.Sleep(3 * time.Millisecond)
		}
	}
	if !endSoon(c, snd, what) {
		return
	}
	all := joined(tr.enc, want)
	waitFor(10*time.Second, func() bool { return ps[0].size() >= len(all) })
	if served == "unixgram" {
		got := ps[0].datagrams()
		for k := range want {
			if k >= len(got) {
				c.Violate("%s: %d datagrams for %d messages", what, len(got), len(want))
				break
			}
			if got[k] != tr.enc(want[k]) {
				c.Violate("%s: datagram %d is %s, want %s", what, k, q(got[k]), q(tr.enc(want[k])))
				break
			}
		}
		if len(got) > len(want) {
			c.Violate("%s: %d datagrams for %d messages; one more: %s", what, len(got), len(want), q(got[len(want)]))
		}
	} else {
		got := ps[0].streams()
		if len(got) != 1 || got[0] != all {
			c.Violate("%s: %d connections, received %s, want %s", what, len(got), q(strings.Join(got, "|")), q(all))
		}
	}
	for _, p := range ps[1:] {
		if len(p.streams()) > 0 || len(p.datagrams()) > 0 {
			c.Violate("%s: something arrives at another address", what)
		}
	}
	if n := errs.count(); n > 0 {
		c.Violate("%s: errors %v", what, errs.all())
	}
	c.Eval(true, what)
	c.Sample("unix", "%s: %d messages", what, len(want))
	c.Stat("messages_observed", int64(len(want)))
}

// spelling gives another name for the socket which is at address in dir. Other servers may be at what
// a careless reader takes the name for.
func spelling(g *rand.Rand, dir string, address *string) string {
	base := filepath.Base(*address)
	other := func(name string) {
		if l, err := net.ListenUnix("unix", &net.UnixAddr{Name: name, Net: "unix"}); err == nil {
			l.SetUnlinkOnClose(false)
			l.Close()
		}
	}
	move := func(name string) string {
		to := filepath.Join(dir, name)
		if os.Rename(*address, to) == nil {
			*address = to
		}
		return strconv.Quote(name)
	}
	switch g.IntN(12) {
	case 0:
		return move(" " + base)
	case 1:
		return move(base + " ")
	case 2:
		return move(base + "\n")
	case 3:
		return move("LOG")
	case 4:
		return move("l\u00f6g:514")
	case 5: // through a link to a directory, and up again: not the same directory
		os.MkdirAll(filepath.Join(dir, "a", "b"), 0o755)
		os.Symlink(filepath.Join(dir, "a", "b"), filepath.Join(dir, "ln"))
		to := filepath.Join(dir, "a", base)
		if os.Rename(*address, to) == nil {
			other(filepath.Join(dir, base))
			*address = dir + "/ln/../" + base
		}
		return "link/../socket"
	case 6:
		*address = dir + "//./" + base
		return "//./socket"
	case 7:
		to := filepath.Join(dir, "sym")
		if os.Symlink(*address, to) == nil {
			*address = to
		}
		return "a symbolic link"
	case 8:
		if wd, err := os.Getwd(); err == nil {
			if rel, err := filepath.Rel(wd, *address); err == nil {
				*address = rel
			}
		}
		return "a relative path"
	}
	return "an absolute path"
}

func (c *C) c21TCP(g *rand.Rand, network string, dflt framing, i int) {
	ips := []string{"127.0.0.1", "127.0.0.2", "127.0.0.3"}
	host := ips[g.IntN(3)]
	pos := 0
	for k := range ips {
		if ips[k] == host {
			pos = k
		}
	}
	if network == "tcp6" || (network == "tcp" && g.IntN(3) == 0 && haveIPv6()) {
		ips, host, pos = []string{"::1"}, "::1", 0
	}
	rs, port, err := reserveAt(ips...)
	if err != nil {
		c.Inconclusive("reserve: %v", err)
		return
	}
	for _, r := range rs {
		defer r.close()
		if err := r.arm(); err != nil {
			c.Inconclusive("listen: %v", err)
			return
		}
	}
	trs := transports(dflt)
	tr := trs[(i/3)%len(trs)]
	what := fmt.Sprintf("Dial(%q, %q) with %s", network, net.JoinHostPort(host, "port"), tr.name)
	snd, ch, err := (syslog.Dialer{FlushDelay: 2 * time.Millisecond}).Dial(network, net.JoinHostPort(host, port), tr.t)
	if err != nil || snd == nil || ch == nil {
		c.Violate("%s: %v, %v, %v", what, snd, ch, err)
		return
	}
	errs := drainErrs(ch)
	ms, want := texts(fmt.Sprint("t", i), 1+g.IntN(60))
	for _, m := range ms {
		snd.Send(m)
		if g.IntN(10) == 0 {
			time.Sleep(3 * time.Millisecond)
		}
	}
	if !endSoon(c, snd, what) {
		return
	}
	all := joined(tr.enc, want)
	waitFor(10*time.Second, func() bool { return rs[pos].p.size() >= len(all) })
	if got := rs[pos].p.streams(); len(got) != 1 || got[0] != all {
		c.Violate("%s: %d connections, received %s, want %s", what, len(got), q(strings.Join(got, "|")), q(all))
	}
	for k, r := range rs {
		if k != pos && len(r.p.streams()) > 0 {
			c.Violate("%s: a connection to %s", what, ips[k])
		}
	}
	if n := errs.count(); n > 0 {
		c.Violate("%s: errors %v", what, errs.all())
	}
	c.Eval(true, what)
	c.Sample("tcp", "%s: %d messages", what, len(want))
	c.Stat("messages_observed", int64(len(want)))
}

// c21Same has several senders to one address, with transports of their own, dialed or made with
// one Connector, each ended at its time: each has its own connection.
func (c *C) c21Same(g *rand.Rand, kind string, dflt framing) {
	network, served := kind, kind
	switch kind {
	case "local":
		served = "unix"
	case "local-gram":
		network, served = "local", "unixgram"
	}
	var p *plain
	var address string
	if kind == "tcp" {
		rs, port, err := reserveAt("127.0.0.1")
		if err != nil {
			c.Inconclusive("reserve: %v", err)
			return
		}
		defer rs[0].close()
		if err := rs[0].arm(); err != nil {
			c.Inconclusive("listen: %v", err)
			return
		}
		p, address = rs[0].p, net.JoinHostPort("127.0.0.1", port)
	} else {
		dir := scratchDir()
		defer os.RemoveAll(dir)
		address = filepath.Join(dir, "log")
		var err error
		if p, err = plainServer(served, address); err != nil {
			c.Inconclusive("server: %v", err)
			return
		}
		defer p.close()
	}
	trs := transports(dflt)
	n := 2 + g.IntN(4)
	what := fmt.Sprintf("%d senders to one %s server", n, kind)
	var shared syslog.Connector
	switch kind {
	case "tcp":
		shared = syslog.TCPConnector("tcp", address)
	case "local", "local-gram":
		shared = syslog.LocalConnector("", address)
	default:
		shared = syslog.LocalConnector(network, address)
	}
	owner := map[string]int{}
	wants := make([][]string, n)
	errs := make([]*errLog, n)
	var wg sync.WaitGroup
	size := 0
	ok := true
	for k := 0; k < n; k++ {
		tr := trs[g.IntN(len(trs))]
		var snd *syslog.Sender
		var ch <-chan error
		var err error
		if g.IntN(2) == 0 {
			snd, ch, err = (syslog.Dialer{FlushDelay: 2 * time.Millisecond}).Dial(network, address, tr.t)
		} else {
			t := tr.t
			if t == nil {
				t = dflt.T
			}
			tick := time.NewTicker(2 * time.Millisecond)
			defer tick.Stop()
			snd, ch = syslog.NewSender(shared, t, tick.C)
		}
		if err != nil || snd == nil || ch == nil {
			c.Violate("%s: %v, %v, %v", what, snd, ch, err)
			ok = false
			break
		}
		errs[k] = drainErrs(ch)
		ms, want := texts(fmt.Sprint("same", k, "x", g.IntN(1000)), 1+g.IntN(pick(g, 5, 60)))
		for _, w := range want {
			wants[k] = append(wants[k], tr.enc(w))
			owner[tr.enc(w)] = k
			size += len(tr.enc(w))
		}
		wr := rand.New(rand.NewPCG(g.Uint64(), uint64(k)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, m := range ms {
				snd.Send(m)
				if wr.IntN(4) == 0 {
					time.Sleep(time.Duration(wr.IntN(5)) * time.Millisecond)
				}
			}
			endSoon(c, snd, what)
		}()
	}
	wg.Wait()
	if !ok {
		return
	}
	waitFor(10*time.Second, func() bool { return p.size() >= size })
	if served == "unixgram" {
		pos := make([]int, n)
		for _, d := range p.datagrams() {
			k, ok := owner[d]
			if !ok || pos[k] >= len(wants[k]) || wants[k][pos[k]] != d {
				c.Violate("%s: datagram %s is not the next one of a sender", what, q(d))
				return
			}
			pos[k]++
		}
		for k := range pos {
			if pos[k] != len(wants[k]) {
				c.Violate("%s: %d of %d datagrams of sender %d arrive", what, pos[k], len(wants[k]), k)
			}
		}
	} else {
		left := map[string]int{}
		for k := range wants {
			left[strings.Join(wants[k], "")]++
		}
		for _, s := range p.streams() {
			if left[s] == 0 {
				c.Violate("%s: one connection gets %s, which is not what one of them sent", what, q(s))
				return
			}
			left[s]--
		}
		for s, k := range left {
			if k > 0 {
				c.Violate("%s: no connection gets %s", what, q(s))
			}
		}
	}
	for k, e := range errs {
		if e.count() > 0 {
			c.Violate("%s: errors of sender %d: %v", what, k, e.all())
		}
	}
	c.Eval(true, what, size)
	c.Stat("senders_to_one_address", int64(n))
}

// withStdio replaces the standard output and error by files. End closes them.
func withStdio(fn func(out, err func() string)) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	so, se := os.Stdout, os.Stderr
	defer func() { os.Stdout, os.Stderr = so, se }()
	read := func(name string) func() string {
		return func() string {
			b, _ := os.ReadFile(filepath.Join(dir, name))
			return string(b)
		}
	}
	o, err := os.Create(filepath.Join(dir, "out"))
	if err != nil {
		panic(err)
	}
	e, err := os.Create(filepath.Join(dir, "err"))
	if err != nil {
		panic(err)
	}
	defer o.Close()
	defer e.Close()
	os.Stdout, os.Stderr = o, e
	fn(read("out"), read("err"))
}

func (c *C) c21Stdio(dflt framing) {
	for _, addr := range []string{"stdout:", "stderr:"} {
		for k, tr := range transports(dflt) {
			what := fmt.Sprintf("Dial(\"stdio\", %q) with %s", addr, tr.name)
			withStdio(func(out, err func() string) {
				snd, ch, e := (syslog.Dialer{FlushDelay: 2 * time.Millisecond}).Dial("stdio", addr, tr.t)
				if e != nil || snd == nil || ch == nil {
					c.Violate("%s: %v, %v, %v", what, snd, ch, e)
					return
				}
				errs := drainErrs(ch)
				ms, want := texts(fmt.Sprint("s", addr[3:4], k), 30)
				for _, m := range ms {
					snd.Send(m)
				}
				if !endSoon(c, snd, what) {
					return
				}
				got, other := out(), err()
				if addr == "stderr:" {
					got, other = other, got
				}
				if got != joined(tr.enc, want) || other != "" {
					c.Violate("%s: written %s (and %s to the other), want %s", what, q(got), q(other), q(joined(tr.enc, want)))
				}
				if errs.count() > 0 {
					c.Violate("%s: errors %v", what, errs.all())
				}
				c.Eval(true, what)
			})
		}
	}
	for _, addr := range []string{"", "stdout", "stderr", "STDOUT:", "stdin:", "stdout: ", "/dev/null", "file:", "stdout:x", "stdoutx:"} {
		what := fmt.Sprintf("Dial(\"stdio\", %q)", addr)
		withStdio(func(out, err func() string) {
			c.mustError(what, "stdio", addr)
			if out() != "" || err() != "" {
				c.Violate("%s: writes %s and %s", what, q(out()), q(err()))
			}
		})
	}
}

// c21StdioShared has several senders and the program itself on one standard stream, one after
// another and together; the stream fails for a while.
func (c *C) c21StdioShared(g *rand.Rand, i int) {
	addr := pick(g, "stdout:", "stderr:")
	what := fmt.Sprintf("senders on %q", addr)
	so, se := os.Stdout, os.Stderr
	defer func() { os.Stdout, os.Stderr = so, se }()
	r, w, err := os.Pipe()
	if err != nil {
		c.Inconclusive("pipe: %v", err)
		return
	}
	defer r.Close()
	defer w.Close()
	os.Stdout, os.Stderr = w, w
	var mu sync.Mutex
	var got []byte
	rd := make(chan struct{})
	go func() {
		defer close(rd)
		b := make([]byte, 4096)
		for {
			n, err := r.Read(b)
			mu.Lock()
			got = append(got, b[:n]...)
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	want := map[string]int{}
	own := func() {
		l := fmt.Sprintf("own line %d", len(want))
		if _, err := fmt.Fprintln(w, l); err != nil {
			c.Violate("%s: the program can no longer write on its stream: %v", what, err)
		}
		want[l]++
	}
	rounds := 2 + g.IntN(3)
	for k := 0; k < rounds; k++ {
		n := 1 + g.IntN(3)
		snds := make([]*syslog.Sender, n)
		for j := range snds {
			snd, ch, e := (syslog.Dialer{FlushDelay: 2 * time.Millisecond}).Dial("stdio", addr, syslog.TransportLFEnded)
			if e != nil || snd == nil {
				c.Violate("%s: Dial: %v", what, e)
				return
			}
			drainErrs(ch)
			snds[j] = snd
		}
		send := func(j int, part string) {
			ms, lines := texts(fmt.Sprintf("ss%d-%d-%d%s", i, k, j, part), 1+g.IntN(5))
			for x, m := range ms {
				if e := snds[j].Send(m); e != nil {
					c.Violate("%s: send refused: %v", what, e)
				}
				want[lines[x]]++
			}
		}
		for j := range snds {
			send(j, "a")
		}
		if g.IntN(2) == 0 { // nothing can be written for a while
			w.SetWriteDeadline(time.Unix(1, 0))
			for j := range snds {
				send(j, "b")
			}
			time.Sleep(time.Duration(g.IntN(20)) * time.Millisecond)
			w.SetWriteDeadline(time.Time{})
			c.Stat("stdio_failures", 1)
		}
		for j := range snds {
			if g.IntN(2) == 0 {
				own()
			}
			send(j, "c")
			if !endSoon(c, snds[j], what+", one of them ended before") {
				return
			}
			own()
		}
	}
	w.Close()
	<-rd
	mu.Lock()
	defer mu.Unlock()
	have := map[string]int{}
	for _, l := range strings.Split(strings.TrimSuffix(string(got), "\n"), "\n") {
		have[l]++
	}
	for l, n := range want {
		if have[l] != n {
			c.Violate("%s: %s written %d times, want %d", what, q(l), have[l], n)
			break
		}
	}
	for l := range have {
		if want[l] == 0 {
			c.Violate("%s: %s written", what, q(l))
			break
		}
	}
	c.Eval(true, fmt.Sprint(i, len(got)))
	c.Stat("messages_observed", int64(len(want)))
}

// mustError dials something that cannot work: an error comes from Dial or from the error channel.
func (c *C) mustError(what, network, addr string) {
	var snd *syslog.Sender
	var ch <-chan error
	var err error
	if !patience(func() {
		c.Guard(func() { snd, ch, err = (syslog.Dialer{FlushDelay: 2 * time.Millisecond}).Dial(network, addr, nil) })
	}) {
		c.Violate("%s: Dial never returns", what)
		return
	}
	c.Eval(true, what)
	if err != nil {
		if snd != nil || ch != nil {
			c.Violate("%s: gives an error %v and a sender", what, err)
		}
		return
	}
	if snd == nil || ch == nil {
		c.Violate("%s: no error and no sender: %v, %v", what, snd, ch)
		return
	}
	c.Guard(func() {
		m := mkMsg("never", 1, time.Unix(1, 0), "never").M
		snd.Send(m)
		select {
		case e := <-ch:
			if e == nil {
				c.Violate("%s: a nil error on the error channel", what)
			}
		case <-time.After(20 * time.Second):
			c.Violate("%s: no error is told", what)
		}
	})
	// the sender keeps its message: it is not ended, see the property on End
}

func (c *C) c21Flush(t *testing.T) {
	one := func(what string, dial func() (*syslog.Sender, <-chan error, error), delay time.Duration) {
		synctest.Test(t, func(*testing.T) {
			withStdio(func(out, _ func() string) {
				c.Guard(func() {
					snd, ch, err := dial()
					if err != nil {
						c.Violate("%s: %v", what, err)
						return
					}
					go func() {
						for range ch {
						}
					}()
					ms, want := texts("f", 4)
					seen := ""
					expect := func(when, w string) {
						synctest.Wait()
						seen = out()
						if seen != w {
							c.Violate("%s: %s there is %s, want %s", what, when, q(seen), q(w))
						}
						c.Eval(true, what, when)
					}
					enc := framings()[1].enc
					snd.Send(ms[0])
					if delay > 0 {
						time.Sleep(delay - delay/4)
						expect("before the first delay", "")
						time.Sleep(delay / 2)
						expect("after the first delay", joined(enc, want[:1]))
						snd.Send(ms[1])
						snd.Send(ms[2])
						time.Sleep(delay / 2)
						expect("before the second delay", joined(enc, want[:1]))
						time.Sleep(delay / 2)
						expect("after the second delay", joined(enc, want[:3]))
						time.Sleep(7 * delay)
						snd.Send(ms[3])
						time.Sleep(delay)
						expect("one delay after a pause", joined(enc, want[:4]))
					} else {
						time.Sleep(time.Hour)
						expect("after one hour without automatic flush", "")
						snd.Send(ms[1])
						snd.Send(ms[2])
						snd.Send(ms[3])
						time.Sleep(time.Hour)
						expect("after two hours without automatic flush", "")
					}
					snd.End()
					expect("after End", joined(enc, want[:4]))
				})
			})
		})
	}
	one("Dial", func() (*syslog.Sender, <-chan error, error) { return syslog.Dial("stdio", "stdout:") }, 500*time.Millisecond)
	for _, d := range []time.Duration{2 * time.Millisecond, 10 * time.Millisecond, 500 * time.Millisecond, 700 * time.Millisecond, time.Second, 13 * time.Second, time.Hour, 30 * 24 * time.Hour} {
		one(fmt.Sprintf("Dialer{%v}.Dial", d), func() (*syslog.Sender, <-chan error, error) {
			return (syslog.Dialer{FlushDelay: d}).Dial("stdio", "stdout:", nil)
		}, d)
	}
	for _, d := range []time.Duration{0, 1, time.Millisecond, time.Microsecond, -1, -time.Hour} {
		one(fmt.Sprintf("Dialer{%v}.Dial", d), func() (*syslog.Sender, <-chan error, error) {
			return (syslog.Dialer{FlushDelay: d}).Dial("stdio", "stdout:", nil)
		}, 0)
	}
}

// reaches dials with the connector and gives which of the servers gets the connection.
func (c *C) reaches(what, network, addr string, ps map[string]*plain, want string) {
	c.reachesBy(what, syslog.TCPConnector(network, addr), ps, want)
}

// reachesBy does so with a connector, which may have connected before.
func (c *C) reachesBy(what string, by syslog.Connector, ps map[string]*plain, want string) {
	var conn syslog.WriteCloser
	var err error
	if !patience(func() { c.Guard(func() { conn, err = by.Connect() }) }) {
		c.Violate("%s: Connect never returns", what)
		return
	}
	c.Eval(true, what, want)
	if want == "" {
		if err == nil {
			c.Violate("%s: a connection where none is possible", what)
			if conn != nil {
				c.Guard(func() { conn.Close() })
			}
		}
		return
	}
	if err != nil || conn == nil {
		c.Violate("%s: %v, %v instead of a connection to %s", what, conn, err, want)
		return
	}
	tag := fmt.Sprintf("tag-%d", abstractSeq.Add(1))
	if n, err := conn.Write([]byte(tag)); n != len(tag) || err != nil {
		c.Violate("%s: write on the new connection: %d, %v", what, n, err)
	}
	if err := conn.Close(); err != nil {
		c.Violate("%s: close: %v", what, err)
	}
	where := ""
	waitFor(10*time.Second, func() bool {
		for k, p := range ps {
			for _, s := range p.streams() {
				if s == tag {
					where = k
				}
			}
		}
		return where != ""
	})
	if where != want {
		c.Violate("%s: connected to %q, want %s", what, where, want)
	}
}

func (c *C) c21Families() {
	ips := []string{"127.0.0.1"}
	if haveIPv6() {
		ips = append(ips, "::1")
	}
	// which of the servers of localhost are up
	for up := 0; up < 1<<len(ips); up++ {
		rs, port, err := reserveAt(ips...)
		if err != nil {
			c.Inconclusive("reserve: %v", err)
			return
		}
		ps := map[string]*plain{}
		for k, ip := range ips {
			if up&(1<<k) != 0 {
				if err := rs[k].arm(); err != nil {
					c.Inconclusive("listen: %v", err)
					continue
				}
				ps[ip] = rs[k].p
			}
		}
		for _, network := range []string{"tcp", "tcp4", "tcp6"} {
			for _, ip := range ips {
				four := !strings.Contains(ip, ":")
				want := ip
				if ps[ip] == nil || (network == "tcp4" && !four) || (network == "tcp6" && four) {
					want = ""
				}
				c.reaches(fmt.Sprintf("%s to %s, servers on %v", network, ip, keysOf(ps)), network, net.JoinHostPort(ip, port), ps, want)
			}
			// a name
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			addrs, err := (&net.Resolver{PreferGo: true}).LookupIPAddr(ctx, "localhost")
			cancel()
			if err != nil {
				continue
			}
			want := ""
			for _, a := range addrs {
				four := a.IP.To4() != nil
				if ps[a.IP.String()] != nil && want == "" && !(network == "tcp4" && !four) && !(network == "tcp6" && four) {
					want = a.IP.String()
				}
			}
			c.reaches(fmt.Sprintf("%s to localhost, servers on %v", network, keysOf(ps)), network, "localhost:"+port, ps, want)
		}
		for _, r := range rs {
			r.close()
		}
	}
}

func keysOf(ps map[string]*plain) (out []string) {
	for _, ip := range []string{"127.0.0.1", "127.0.0.2", "127.0.0.3", "127.0.0.4", "::1"} {
		if ps[ip] != nil {
			out = append(out, ip)
		}
	}
	return
}

// c21Names resolves names with several addresses through a DNS server of its own.
func (c *C) c21Names() {
	d := startDNS()
	if d == nil {
		c.Inconclusive("no DNS server can be run here: names with several addresses are not exercised")
		return
	}
	defer d.close()
	all := []string{"127.0.0.2", "127.0.0.3", "127.0.0.4", "127.0.0.5", "127.0.0.6", "127.0.0.7", "127.0.0.8"}
	if haveIPv6() {
		all = append(all, "::1")
	}
	g := c.Sub(0)
	for i := 0; i < c.N(40, 1000) && !c.full(); i++ {
		name := fmt.Sprintf("n%d.verif.test", i/2) // used before with other addresses and another port
		rs, port, err := reserveAt(all...)
		if err != nil {
			c.Inconclusive("reserve: %v", err)
			return
		}
		ps := map[string]*plain{}
		up := g.IntN(1 << len(all))
		if g.IntN(2) == 0 {
			up = 1 << g.IntN(len(all))
		}
		for k, ip := range all {
			if up&(1<<k) != 0 {
				if rs[k].arm() == nil {
					ps[ip] = rs[k].p
				}
			}
		}
		network := pick(g, "tcp", "tcp4", "tcp6")
		by := syslog.TCPConnector(network, name+":"+port)
		for round := 0; round < 4; round++ { // the name changes its addresses between the connections
			perm := g.Perm(len(all))
			var ips []string
			for _, k := range perm[:1+g.IntN(len(all))] {
				ips = append(ips, all[k])
			}
			d.set(name, ips...)
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			addrs, err := (&net.Resolver{PreferGo: true}).LookupIPAddr(ctx, name)
			cancel()
			if err != nil || len(addrs) != len(ips) {
				c.Inconclusive("the names cannot be resolved here: %v, %v", addrs, err)
				for _, r := range rs {
					r.close()
				}
				return
			}
			want := ""
			for _, a := range addrs {
				four := a.IP.To4() != nil
				if ps[a.IP.String()] != nil && want == "" && !(network == "tcp4" && !four) && !(network == "tcp6" && four) {
					want = a.IP.String()
				}
			}
			what := fmt.Sprintf("%s to a name with addresses %v, servers on %v, connection %d", network, addrs, keysOf(ps), round)
			if round%2 == 0 {
				c.reachesBy(what, by, ps, want)
			} else {
				c.reaches(what, network, name+":"+port, ps, want)
			}
			c.Sample("name", "%s: %s", what, want)
		}
		for _, r := range rs {
			r.close()
		}
	}
	d.set("empty.verif.test")
	c.reaches("tcp to a name without addresses", "tcp", "empty.verif.test:5140", nil, "")
	c.reaches("tcp4 to a name without addresses", "tcp4", "empty.verif.test:5140", nil, "")
	c.reaches("tcp to a name that does not exist", "tcp", "absent.verif.test:5140", nil, "")
	c.mustError("Dial to a name that does not exist", "tcp", "absent.verif.test:5140")
	c.reaches("tcp to a name never resolved", "tcp", "silent.verif.test:5140", nil, "")
	c.Stat("dns_queries", d.queries.Load())
}

func (c *C) c21DefaultPort() {
	for _, ip := range []string{"127.0.0.77", "127.0.0.78"} {
		p, err := plainServer("tcp4", ip+":514")
		if err != nil {
			// judged by the address in the error
			_, err := syslog.TCPConnector("tcp4", ip+":").Connect()
			if err == nil || !strings.Contains(err.Error(), ip+":514") {
				c.Violate("tcp4 to %q: error %v is not about port 514", ip+":", err)
			}
			c.Eval(true, ip, "error")
			continue
		}
		for _, network := range []string{"tcp", "tcp4"} {
			c.reaches(fmt.Sprintf("%s to %q", network, ip+":"), network, ip+":", map[string]*plain{ip: p}, ip)
			for _, port := range []string{"0", "513", "51", "66050", "-514"} { // no other port is port 514
				c.reaches(fmt.Sprintf("%s to %q", network, ip+":"+port), network, ip+":"+port, map[string]*plain{ip: p}, "")
			}
		}
		snd, ch, err := (syslog.Dialer{FlushDelay: 2 * time.Millisecond}).Dial("tcp4", ip+":", nil)
		if err != nil {
			c.Violate("Dial without a port: %v", err)
			continue
		}
		errs := drainErrs(ch)
		ms, want := texts("port", 3)
		for _, m := range ms {
			snd.Send(m)
		}
		endSoon(c, snd, "Dial without a port")
		w := joined(framings()[1].enc, want)
		if !waitFor(10*time.Second, func() bool {
			s := p.streams()
			return len(s) > 0 && s[len(s)-1] == w
		}) {
			c.Violate("Dial without a port: received %s, want %s", q(strings.Join(p.streams(), "|")), q(w))
		}
		if errs.count() > 0 {
			c.Violate("Dial without a port: errors %v", errs.all())
		}
		p.close()
	}
}

// c21Later: nothing listens when the first connection is tried; errors are told, and once the
// server is there everything arrives.
func (c *C) c21Later(g *rand.Rand, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	network := []string{"unix", "unixgram", "local", "local", "tcp", "tcp4"}[i%6]
	served := []string{"unix", "unixgram", "unix", "unixgram", "tcp", "tcp4"}[i%6]
	addr := filepath.Join(dir, "log")
	var rs *reserved
	enc := framings()[2].enc
	if strings.HasPrefix(network, "tcp") {
		var err error
		if rs, err = reserve("127.0.0.1"); err != nil {
			c.Inconclusive("reserve: %v", err)
			return
		}
		defer rs.close()
		addr = rs.addr
		enc = framings()[1].enc
	}
	what := fmt.Sprintf("Dial(%q) before its %s server listens", network, served)
	snd, ch, err := (syslog.Dialer{FlushDelay: 3 * time.Millisecond}).Dial(network, addr, nil)
	if err != nil {
		c.Violate("%s: %v", what, err)
		return
	}
	errs := drainErrs(ch)
	ms, want := texts(fmt.Sprint("l", i), 10)
	for _, m := range ms[:5] {
		snd.Send(m)
	}
	if !waitFor(10*time.Second, func() bool { return errs.count() > 0 }) {
		c.Violate("%s: no error is told", what)
	}
	var p *plain
	if rs != nil {
		err = rs.arm()
		p = rs.p
	} else {
		p, err = plainServer(served, addr)
	}
	if err != nil {
		c.Inconclusive("server: %v", err)
		return
	}
	defer p.close()
	for _, m := range ms[5:] {
		snd.Send(m)
	}
	all := joined(enc, want)
	waitFor(10*time.Second, func() bool { return p.size() >= len(all) })
	endSoon(c, snd, what)
	waitFor(10*time.Second, func() bool { return p.size() >= len(all) })
	got := strings.Join(p.streams(), "")
	if served == "unixgram" {
		got = strings.Join(p.datagrams(), "")
		if len(p.datagrams()) != len(want) {
			c.Violate("%s: %d datagrams for %d messages", what, len(p.datagrams()), len(want))
		}
	}
	if got != all {
		c.Violate("%s: received %s, want %s", what, q(got), q(all))
	}
	c.Eval(true, what)
	c.Stat("late_servers", 1)
}

// c21Replaced: the server goes away and another one comes, for "local" perhaps of the other type:
// each connection is made to what is there then.
func (c *C) c21Replaced(g *rand.Rand, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	network := []string{"local", "local", "unix", "unixgram"}[i%4]
	addr := filepath.Join(dir, "log")
	snd, ch, err := (syslog.Dialer{FlushDelay: 3 * time.Millisecond}).Dial(network, addr, nil)
	what := fmt.Sprintf("Dial(%q) to successive servers", network)
	if err != nil {
		c.Violate("%s: %v", what, err)
		return
	}
	drainErrs(ch)
	by := syslog.LocalConnector(network, addr)
	if network == "local" {
		by = syslog.LocalConnector("", addr)
	}
	nth := 0
	var pending []string
	send := func(n int) {
		ms, want := texts(fmt.Sprintf("rep%d.%d", i, nth), n)
		nth++
		for _, m := range ms {
			if err := snd.Send(m); err != nil {
				c.Violate("%s: Send: %v", what, err)
			}
		}
		pending = append(pending, want...)
	}
	rounds := 2 + g.IntN(4)
	for r := 0; r < rounds; r++ {
		served := network
		if network == "local" {
			served = pick(g, "unix", "unixgram")
		}
		what += " " + served
		p, err := plainServer(served, addr)
		if err != nil {
			c.Inconclusive("server: %v", err)
			break
		}
		send(1 + g.IntN(5))
		all := joined(framings()[2].enc, pending)
		waitFor(10*time.Second, func() bool { return p.size() >= len(all) })
		time.Sleep(time.Millisecond)
		got := strings.Join(p.streams(), "")
		if served == "unixgram" {
			got = strings.Join(p.datagrams(), "")
			if n := len(p.datagrams()); n != len(pending) {
				c.Violate("%s: %d datagrams for %d messages", what, n, len(pending))
			}
		}
		if got != all {
			c.Violate("%s: server %d received %s, want %s", what, r, q(got), q(all))
			p.stop()
			break
		}
		pending = nil
		// a connector by itself
		conn, err := by.Connect()
		if err != nil || conn == nil {
			c.Violate("%s: Connect of a connector used before: %v, %v", what, conn, err)
		} else {
			for k := 0; k < 2; k++ {
				if n, err := conn.Write([]byte("tag")); n != 3 || err != nil {
					c.Violate("%s: write on the new connection: %d, %v", what, n, err)
				}
			}
			conn.Close()
			if !waitFor(10*time.Second, func() bool {
				if served == "unixgram" {
					d := p.datagrams()
					return len(d) > 1 && d[len(d)-1] == "tag" && d[len(d)-2] == "tag"
				}
				x := p.streams()
				return len(x) > 0 && x[len(x)-1] == "tagtag"
			}) {
				c.Violate("%s: what a connection of a connector used before was given has not arrived: streams %q datagrams %q", what, p.streams(), p.datagrams())
			}
		}
		p.stop()
		os.Remove(addr)
		if g.IntN(2) == 0 {
			send(g.IntN(4))
			time.Sleep(time.Duration(g.IntN(8)) * time.Millisecond)
		}
		c.Eval(true, what)
	}
	if len(pending) > 0 { // End waits for a server
		if p, err := plainServer(map[string]string{"local": "unix"}[network]+strings.TrimPrefix(network, "local"), addr); err == nil {
			defer p.stop()
		}
	}
	endSoon(c, snd, what)
	c.Stat("servers_replaced", int64(rounds))
}

func (c *C) c21BadNetworks() {
	g := c.Sub(0)
	names := []string{"", "udp", "udp4", "TCP", "Tcp4", "tcp5", "tcp ", " tcp", "unixpacket", "UNIX", "unixdgram", "unixgramm", "stdout", "stderr", "STDIO", "Local", "tls", "ip", "tcp\x00"}
	valid := map[string]bool{"stdio": true, "local": true, "unix": true, "unixgram": true, "tcp": true, "tcp4": true, "tcp6": true}
	for k := 0; k < c.N(200, 3000); k++ {
		s := string(randBytes(g, g.IntN(10)))
		if !valid[s] {
			names = append(names, s)
		}
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	p, err := plainServer("unix", filepath.Join(dir, "log"))
	if err != nil {
		c.Inconclusive("server: %v", err)
		return
	}
	defer p.close()
	for _, n := range names {
		for _, a := range []string{filepath.Join(dir, "log"), "stdout:", "127.0.0.1:1", ""} {
			for d := 0; d < 2; d++ {
				var snd *syslog.Sender
				var ch <-chan error
				var err error
				what := fmt.Sprintf("Dial(%q, %q)", n, filepath.Base(a))
				if !patience(func() {
					c.Guard(func() {
						if d == 0 {
							snd, ch, err = syslog.Dial(n, a)
						} else {
							snd, ch, err = (syslog.Dialer{FlushDelay: time.Second}).Dial(n, a, syslog.TransportRFC5425)
						}
					})
				}) {
					c.Violate("%s: never returns", what)
					continue
				}
				if err == nil || snd != nil || ch != nil {
					c.Violate("%s: gives %v, %v, %v instead of an error", what, snd, ch, err)
				}
				c.Eval(true, what)
			}
		}
		if n != "tcp" && n != "tcp4" && n != "tcp6" {
			conn, err := syslog.TCPConnector(n, "127.0.0.1:1").Connect()
			if err == nil || conn != nil {
				c.Violate("TCPConnector(%q).Connect() gives %v, %v instead of an error", n, conn, err)
			}
		}
	}
	if len(p.streams()) > 0 {
		c.Violate("a Dial with an unknown network connected to a server")
	}
}

func (c *C) c21BadAddresses() {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "file"), []byte("x"), 0o644)
	os.Mkdir(filepath.Join(dir, "dir"), 0o755)
	staleSocket("unix", filepath.Join(dir, "stale"))
	ps, err := plainServer("unix", filepath.Join(dir, "stream"))
	if err != nil {
		c.Inconclusive("server: %v", err)
		return
	}
	defer ps.close()
	pd, err := plainServer("unixgram", filepath.Join(dir, "dgram"))
	if err != nil {
		c.Inconclusive("server: %v", err)
		return
	}
	defer pd.close()
	type bad struct{ network, addr string }
	var list []bad
	for _, a := range []string{"absent", "file", "dir", "stale", "no/such/dir", strings.Repeat("long", 100)} {
		for _, n := range []string{"unix", "unixgram", "local"} {
			list = append(list, bad{n, filepath.Join(dir, a)})
		}
	}
	for _, n := range []string{"unix", "unixgram", "local"} { // a directory of that name there is not
		for _, a := range []string{"stream/", "dgram/", "stream/.", "stream/x", "dgram/../dgram", "Stream", "stream ", " dgram", "dgram\n"} {
			list = append(list, bad{n, dir + "/" + a})
		}
	}
	list = append(list, bad{"unix", filepath.Join(dir, "dgram")}, bad{"unixgram", filepath.Join(dir, "stream")})
	for _, n := range []string{"tcp", "tcp4", "tcp6"} {
		for _, a := range []string{"", "127.0.0.1", "127.0.0.1:99999", "127.0.0.1:65536", "127.0.0.1:-1", "127.0.0.1:66050", "127.0.0.1:4295032832", "127.0.0.1:http!", "127.0.0.1:5140:1", "[::1", "[::1]", "::1:99999x", "127.0.0.1:0x202", "127.0.0.1: 514", "127.0.0.1:99999999999999999999"} {
			list = append(list, bad{n, a})
		}
	}
	busy, err := reserve("127.0.0.1")
	if err == nil {
		defer busy.close()
		list = append(list, bad{"tcp", busy.addr}, bad{"tcp4", busy.addr}, bad{"tcp6", busy.addr})
	}
	if haveIPv6() {
		if p6, err := plainServer("tcp6", "[::1]:0"); err == nil {
			defer p6.close()
			list = append(list, bad{"tcp4", p6.addr})
		}
	}
	if p4, err := plainServer("tcp4", "127.0.0.1:0"); err == nil {
		defer p4.close()
		list = append(list, bad{"tcp6", p4.addr})
	}
	c.Parallel(len(list), func(i int) {
		b := list[i]
		c.mustError(fmt.Sprintf("Dial(%q, %q)", b.network, strings.TrimPrefix(b.addr, dir)), b.network, b.addr)
	})
	if len(ps.streams()) > 0 || len(pd.datagrams()) > 0 {
		c.Violate("a message arrives through the wrong kind of socket")
	}
}

// c21Connectors: Connect gives a working connection or an error, never neither.
func (c *C) c21Connectors() {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	for k, network := range []string{"unix", "unixgram"} {
		path := filepath.Join(dir, network)
		for _, n := range []string{network, ""} {
			what := fmt.Sprintf("LocalConnector(%q) to a %s server", n, network)
			cn := syslog.LocalConnector(n, path)
			for try := 0; try < 2; try++ {
				conn, err := cn.Connect()
				if err == nil || (conn != nil && !isNil(conn)) {
					c.Violate("%s: gives %v, %v when nothing is there", what, conn, err)
				}
			}
			p, err := plainServer(network, path)
			if err != nil {
				c.Inconclusive("server: %v", err)
				continue
			}
			// the same connector, several connections at once and later
			var conns []io.WriteCloser
			total := 0
			for try := 0; try < 3; try++ {
				conn, err := cn.Connect()
				if err != nil || conn == nil {
					c.Violate("%s: gives %v, %v", what, conn, err)
					continue
				}
				conns = append(conns, conn)
			}
			for j, conn := range conns {
				for part := 0; part < 2; part++ {
					s := fmt.Sprintf("c%d.%d", j, part)
					if n, err := conn.Write([]byte(s)); n != len(s) || err != nil {
						c.Violate("%s: write gives %d, %v", what, n, err)
					}
					total += len(s)
				}
			}
			for _, conn := range conns {
				if err := conn.Close(); err != nil {
					c.Violate("%s: close gives %v", what, err)
				}
				if _, err := conn.Write([]byte("late")); err == nil {
					c.Violate("%s: a write after Close succeeds", what)
				}
			}
			waitFor(10*time.Second, func() bool { return p.size() >= total })
			if p.size() != total {
				c.Violate("%s: %d bytes arrive, %d were written", what, p.size(), total)
			}
			if network == "unixgram" && len(p.datagrams()) != 2*len(conns) {
				c.Violate("%s: %d datagrams for %d writes", what, len(p.datagrams()), 2*len(conns))
			}
			p.close()
			// the server is gone, and back
			if conn, err := cn.Connect(); err == nil {
				c.Violate("%s: a connection (%v) to a server which is gone", what, conn)
			}
			if p, err = plainServer(network, path); err == nil {
				conn, err := cn.Connect()
				if err != nil || conn == nil {
					c.Violate("%s: gives %v, %v after the server came back", what, conn, err)
				} else {
					conn.Write([]byte("again"))
					conn.Close()
					if !waitFor(10*time.Second, func() bool { return p.size() == 5 }) {
						c.Violate("%s: nothing arrives after the server came back", what)
					}
				}
				p.close()
			}
			c.Eval(true, what, k)
		}
	}
	for _, a := range []string{"", "stdin:", "out"} {
		conn, err := syslog.StdioConnector(a).Connect()
		if err == nil || conn != nil {
			c.Violate("StdioConnector(%q).Connect() gives %v, %v", a, conn, err)
		}
		c.Eval(true, "stdio", a)
	}
	for _, a := range [][2]string{{"", ""}, {"tcp", ""}, {"", "127.0.0.1:514"}, {"udp", "127.0.0.1:514"}} {
		conn, err := syslog.TCPConnector(a[0], a[1]).Connect()
		if err == nil || conn != nil {
			c.Violate("TCPConnector(%q, %q).Connect() gives %v, %v", a[0], a[1], conn, err)
		}
		c.Eval(true, "tcp", a[0], a[1])
	}
	if conn, err := (syslog.InvalidConnector{}).Connect(); conn != nil {
		c.Violate("InvalidConnector gives a connection: %v, %v", conn, err)
	}
	// without an address, only the sockets of the system
	var present []string
	for _, p := range []string{"/var/run/syslog", "/var/run/log", "/dev/log"} {
		if _, err := os.Lstat(p); err == nil {
			present = append(present, p)
		}
	}
	if len(present) == 0 {
		c.mustError("Dial(\"local\", \"\") without a system log", "local", "")
	}
}

func isNil(v any) bool { return fmt.Sprintf("%v", v) == "<nil>" }
