package vharness

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// object is something put at the address of a listener. All live in a scratch directory.
type object struct {
	name  string
	stale bool // a socket nobody uses: to be replaced
	free  bool // nothing there
	// put makes the object at path and gives what undoes it, and a test that its owner still has it
	put func(dir, path string) (undo func(), alive func() error, err error)
}

func nothing() {}

func staleSocket(network, path string) error {
	switch network {
	case "unixgram":
		c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: path, Net: network})
		if err != nil {
			return err
		}
		return c.Close() // leaves the socket
	default:
		l, err := net.ListenUnix(network, &net.UnixAddr{Name: path, Net: network})
		if err != nil {
			return err
		}
		l.SetUnlinkOnClose(false)
		return l.Close()
	}
}

// liveStream is a listening socket with an owner which answers.
func liveStream(network, path string) (undo func(), alive func() error, err error) {
	l, err := net.ListenUnix(network, &net.UnixAddr{Name: path, Net: network})
	if err != nil {
		return nil, nil, err
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b := make([]byte, 10)
				n, _ := c.Read(b)
				c.Write(b[:n])
				c.Close()
			}()
		}
	}()
	alive = func() error {
		c, err := net.Dial(network, path)
		if err != nil {
			return err
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(10 * time.Second))
		if _, err := c.Write([]byte("ping")); err != nil {
			return err
		}
		b := make([]byte, 10)
		n, err := c.Read(b)
		if err != nil || string(b[:n]) != "ping" {
			return fmt.Errorf("answer %q, %v", b[:n], err)
		}
		return nil
	}
	return func() { l.Close() }, alive, nil
}

func liveDgram(path string) (undo func(), alive func() error, err error) {
	c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: path, Net: "unixgram"})
	if err != nil {
		return nil, nil, err
	}
	alive = func() error {
		d, err := net.Dial("unixgram", path)
		if err != nil {
			return err
		}
		defer d.Close()
		if _, err := d.Write([]byte("ping")); err != nil {
			return err
		}
		b := make([]byte, 10)
		c.SetReadDeadline(time.Now().Add(10 * time.Second))
		n, err := c.Read(b)
		if err != nil || string(b[:n]) != "ping" {
			return fmt.Errorf("got %q, %v", b[:n], err)
		}
		return nil
	}
	return func() { c.Close(); os.Remove(path) }, alive, nil
}

func objects() []object {
	none := func(fn func(dir, path string) error) func(string, string) (func(), func() error, error) {
		return func(dir, path string) (func(), func() error, error) {
			return nothing, func() error { return nil }, fn(dir, path)
		}
	}
	link := func(fn func(dir, target string) (func(), func() error, error)) func(string, string) (func(), func() error, error) {
		return func(dir, path string) (func(), func() error, error) {
			target := filepath.Join(dir, "target")
			undo, alive, err := fn(dir, target)
			if err == nil {
				err = os.Symlink(target, path)
			}
			return undo, alive, err
		}
	}
	objs := []object{
		{name: "nothing", free: true, put: none(func(_, p string) error { return nil })},
		{name: "stale stream socket", stale: true, put: none(func(_, p string) error { return staleSocket("unix", p) })},
		{name: "stale datagram socket", stale: true, put: none(func(_, p string) error { return staleSocket("unixgram", p) })},
		{name: "live stream socket", put: func(_, p string) (func(), func() error, error) { return liveStream("unix", p) }},
		{name: "live datagram socket", put: func(_, p string) (func(), func() error, error) { return liveDgram(p) }},
		{name: "live packet socket", put: func(_, p string) (func(), func() error, error) { return liveStream("unixpacket", p) }},
		{name: "stream socket with a full backlog", put: fullBacklog},
		{name: "datagram socket with a peer", put: pairedDgram},
		{name: "regular file", put: none(func(_, p string) error { return os.WriteFile(p, []byte("precious\n"), 0o640) })},
		{name: "empty file", put: none(func(_, p string) error { return os.WriteFile(p, nil, 0o400) })},
		{name: "empty directory", put: none(func(_, p string) error { return os.Mkdir(p, 0o755) })},
		{name: "directory", put: none(func(_, p string) error {
			if err := os.Mkdir(p, 0o755); err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(p, "f"), []byte("x"), 0o644)
		})},
		{name: "fifo", put: none(func(_, p string) error { return syscall.Mkfifo(p, 0o600) })},
		{name: "dangling symbolic link", put: none(func(d, p string) error { return os.Symlink(filepath.Join(d, "absent"), p) })},
		{name: "symbolic link to itself", put: none(func(_, p string) error { return os.Symlink(filepath.Base(p), p) })},
		{name: "symbolic link to a file", put: link(none(func(_, p string) error { return os.WriteFile(p, []byte("precious"), 0o644) }))},
		{name: "symbolic link to a directory", put: link(none(func(_, p string) error { return os.Mkdir(p, 0o755) }))},
		{name: "symbolic link to a stale socket", put: link(none(func(_, p string) error { return staleSocket("unix", p) }))},
		{name: "symbolic link to a stale datagram socket", put: link(none(func(_, p string) error { return staleSocket("unixgram", p) }))},
		{name: "symbolic link to a live socket", put: link(func(_, p string) (func(), func() error, error) { return liveStream("unix", p) })},
		{name: "symbolic link to a live datagram socket", put: link(func(_, p string) (func(), func() error, error) { return liveDgram(p) })},
	}
	return objs
}

// fullBacklog is a listening socket whose owner is slow to accept.
func fullBacklog(_, path string) (func(), func() error, error) {
	fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
	if err != nil {
		return nil, nil, err
	}
	if err := syscall.Bind(fd, &syscall.SockaddrUnix{Name: path}); err != nil {
		return nil, nil, err
	}
	if err := syscall.Listen(fd, 0); err != nil {
		return nil, nil, err
	}
	var fds []int
	for k := 0; k < 5; k++ { // until it is full
		cl, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK, 0)
		if err != nil {
			return nil, nil, err
		}
		fds = append(fds, cl)
		if syscall.Connect(cl, &syscall.SockaddrUnix{Name: path}) == syscall.EAGAIN {
			break
		}
	}
	alive := func() error { // the first connection can still be accepted
		s, _, err := syscall.Accept(fd)
		if err == nil {
			syscall.Close(s)
		}
		return err
	}
	return func() {
		for _, f := range fds {
			syscall.Close(f)
		}
		syscall.Close(fd)
	}, alive, nil
}

// pairedDgram is a datagram socket which accepts datagrams from one peer only.
func pairedDgram(dir, path string) (func(), func() error, error) {
	peer := filepath.Join(dir, "peer")
	a, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return nil, nil, err
	}
	b, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return nil, nil, err
	}
	if err := errors.Join(syscall.Bind(a, &syscall.SockaddrUnix{Name: path}), syscall.Bind(b, &syscall.SockaddrUnix{Name: peer}),
		syscall.Connect(a, &syscall.SockaddrUnix{Name: peer})); err != nil {
		return nil, nil, err
	}
	alive := func() error {
		if err := syscall.Sendto(b, []byte("ping"), syscall.MSG_DONTWAIT, &syscall.SockaddrUnix{Name: path}); err != nil {
			return err
		}
		buf := make([]byte, 10)
		n, _, err := syscall.Recvfrom(a, buf, syscall.MSG_DONTWAIT)
		if err != nil || string(buf[:n]) != "ping" {
			return fmt.Errorf("got %q, %v", buf[:max(n, 0)], err)
		}
		return nil
	}
	return func() { syscall.Close(a); syscall.Close(b) }, alive, nil
}

// census20 describes everything in a directory: kinds, inodes, times, contents, link targets.
func census20(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			out = append(out, p+": "+err.Error())
			return nil
		}
		if p == dir {
			return nil
		}
		st := fi.Sys().(*syscall.Stat_t)
		s := fmt.Sprintf("%s %v ino=%d size=%d mtime=%d nlink=%d", p[len(dir):], fi.Mode(), st.Ino, fi.Size(), fi.ModTime().UnixNano(), st.Nlink)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += " -> " + t
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %q", b)
		}
		out = append(out, s)
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// in patience tells whether fn returned; fn may not return at all.
func patience(fn func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); fn() }()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

func makeListener(kind int, network, address string) (syslog.Listener, error) {
	if kind == 0 {
		return syslog.GuessListener(network, address)
	}
	switch network {
	case "unix":
		return syslog.UnixListener(address)
	case "unixgram":
		return syslog.UnixgramListener(address)
	}
	return syslog.TCPListener(network, address)
}

// works checks that messages sent to the address come out of the listener, and ends it.
func (c *C) works(what string, l syslog.Listener, dials [][2]string) {
	f := framings()[2]
	x := newReceiver(c, l, 10, f.T, true)
	x.consume(c)
	for k, d := range dials {
		m := mkMsg(fmt.Sprint("works", k), 1, time.Unix(1, 0), "works").Want
		conn, err := net.Dial(d[0], d[1])
		if err != nil {
			c.Violate("%s: the listener is not reachable at %s %s: %v", what, d[0], d[1], err)
			break
		}
		conn.Write([]byte(f.enc(m)))
		conn.Close()
		if !waitFor(15*time.Second, func() bool { return x.count() == k+1 }) {
			c.Violate("%s: the message sent to %s %s is not received (%d results, errors %v)", what, d[0], d[1], x.count(), x.errs.all())
			break
		}
		if r := x.results()[k]; r.Err != nil || r.Text != m {
			c.Violate("%s: received %s, %v instead of %s", what, q(r.Text), r.Err, q(m))
		}
	}
	x.stop()
}

var abstractSeq atomic.Int64

func TestC20(t *testing.T) {
	r := newR(t, "C20", "one evaluation = one listener constructor call, its result and the state of the directory before and after; distinct = distinct (network, object, outcome)")
	objs := objects()
	nets := []string{"unix", "unixgram"}

	r.Case("objects", func(c *C) {
		reps := r.N(1, 20)
		n := len(objs) * len(nets) * 2 * 3 * reps
		c.Parallel(n, func(i int) {
			o := objs[i%len(objs)]
			k := i / len(objs)
			c.c20Object(o, nets[k%2], k/2%2, k/4%3, i)
		})
	})
	r.Case("histories", func(c *C) {
		c.Parallel(r.N(40, 1500), func(i int) { c.c20History(c.Sub(i), i) })
	})
	r.Case("bad-addresses", func(c *C) {
		for _, network := range nets {
			for kind := 0; kind < 2; kind++ {
				c.c20Bad(network, kind)
			}
		}
	})
	r.Case("abstract", func(c *C) {
		for _, network := range nets {
			for _, owner := range []string{"unix", "unixgram"} {
				name := fmt.Sprintf("@vharness-%d-%d", os.Getpid(), abstractSeq.Add(1))
				undo, alive, err := liveStream("unix", name)
				if owner == "unixgram" {
					undo, alive, err = liveDgramAbstract(name)
				}
				if err != nil {
					continue // no abstract sockets here
				}
				what := fmt.Sprintf("%s listener on the abstract address of a live %s socket", network, owner)
				var l syslog.Listener
				if !patience(func() { c.Guard(func() { l, err = syslog.GuessListener(network, name) }) }) {
					c.Violate("%s: never returns", what)
				} else if owner == network && (err == nil || l != nil) {
					c.Violate("%s: gives %v, %v", what, l, err)
				} else if l != nil {
					l.Close()
				}
				if err := alive(); err != nil {
					c.Violate("%s: its owner lost it: %v", what, err)
				}
				undo()
				c.Eval(true, what)
			}
		}
	})
	r.Case("networks", func(c *C) { c.c20Networks() })
	r.Case("unknown-networks", func(c *C) { c.c20Unknown() })
	r.Case("busy-port", func(c *C) {
		for _, network := range []string{"tcp", "tcp4"} {
			l, addr, err := listen(network, "", 0)
			if err != nil {
				c.Inconclusive("%s: %v", network, err)
				continue
			}
			var l2 syslog.Listener
			var err2 error
			what := network + " listener on a port in use"
			if !patience(func() { c.Guard(func() { l2, err2 = syslog.GuessListener(network, addr) }) }) {
				c.Violate("%s: never returns", what)
			} else if err2 == nil || l2 != nil {
				c.Violate("%s: gives %v, %v", what, l2, err2)
			}
			c.works(what+", the owner", l, [][2]string{{"tcp", addr}})
			c.Eval(true, what)
		}
	})
}

func liveDgramAbstract(name string) (func(), func() error, error) { return liveDgram(name) }

func (c *C) c20Object(o object, network string, kind, form, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "log")
	undo, alive, err := o.put(dir, path)
	if err != nil {
		c.Inconclusive("%s: %v", o.name, err)
		return
	}
	defer undo()
	address := path
	if form == 1 { // relative to the working directory
		wd, err1 := os.Getwd()
		rel, err2 := filepath.Rel(wd, path)
		if err1 != nil || err2 != nil {
			c.Inconclusive("relative path: %v %v", err1, err2)
			return
		}
		address = rel
	}
	if form == 2 { // through a link to a directory and up again; the same is at the clean path
		sub := filepath.Join(dir, "sub")
		if err := os.MkdirAll(filepath.Join(sub, "deep"), 0o755); err != nil {
			c.Inconclusive("%v", err)
			return
		}
		os.Symlink(filepath.Join(sub, "deep"), filepath.Join(dir, "ln"))
		undo2, alive2, err := o.put(sub, filepath.Join(sub, "log"))
		if err != nil {
			c.Inconclusive("%s: %v", o.name, err)
			return
		}
		defer undo2()
		alive = alive2
		path = filepath.Join(sub, "log")
		address = dir + "/ln/../log"
	}
	what := fmt.Sprintf("%s listener on %s, form %d", network, o.name, form)
	before := census20(dir)
	var l syslog.Listener
	if !patience(func() { c.Guard(func() { l, err = makeListener(kind, network, address) }) }) {
		c.Violate("%s: the constructor never returns", what)
		return
	}
	after := census20(dir)
	switch {
	case o.free || o.stale:
		if err != nil || l == nil {
			c.Violate("%s: gives %v, %v instead of a listener", what, l, err)
			return
		}
		if o.stale && strings.Count(after, "\n") != strings.Count(before, "\n") {
			c.Violate("%s: leaves other objects behind: before\n%s\nafter\n%s", what, before, after)
		}
		fi, err := os.Lstat(path)
		if err != nil || fi.Mode()&os.ModeSocket == 0 {
			c.Violate("%s: no socket at the address: %v, %v", what, fi, err)
		}
		c.works(what, l, [][2]string{{network, path}, {network, path}})
	default:
		if err == nil || l != nil {
			c.Violate("%s: gives %v, %v instead of an error", what, l, err)
			if l != nil {
				l.Close()
			}
		}
		if after != before {
			c.Violate("%s: the object was touched: before\n%s\nafter\n%s", what, before, after)
		}
		if err := alive(); err != nil {
			c.Violate("%s: its owner lost the object: %v", what, err)
		}
		// a listener on another address still works after the failure
	}
	c.Eval(true, what, err == nil)
	c.Sample("object", "%s: %v", what, err)
	c.Stat("objects", 1)
}

// c20History makes and ends listeners of both networks on one address, again and again.
func (c *C) c20History(g *rand.Rand, i int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "log")
	log := ""
	for op := 2 + g.IntN(4); op > 0; op-- {
		network := pick(g, "unix", "unixgram")
		log += network + " "
		what := fmt.Sprintf("history on one address: %s", log)
		var l syslog.Listener
		var err error
		if !patience(func() { c.Guard(func() { l, err = makeListener(g.IntN(2), network, path) }) }) {
			c.Violate("%s: the constructor never returns", what)
			return
		}
		if err != nil || l == nil {
			c.Violate("%s: gives %v, %v instead of a listener", what, l, err)
			return
		}
		c.Eval(true, log)
		// a second one at the same time
		if g.IntN(2) == 0 {
			other := pick(g, "unix", "unixgram")
			before := census20(dir)
			l2, err := syslog.GuessListener(other, path)
			if err == nil || l2 != nil {
				c.Violate("%s: a second listener (%s) on the address gives %v, %v instead of an error", what, other, l2, err)
				return
			}
			if after := census20(dir); after != before {
				c.Violate("%s: a second listener (%s) changed the socket of the first: before\n%s\nafter\n%s", what, other, before, after)
			}
			c.Eval(true, log, other)
			log += "(+" + other + ") "
		}
		switch g.IntN(3) {
		case 0:
			l.Close() // never used
			log += "closed; "
		default:
			c.works(what, l, [][2]string{{network, path}})
			log += "used; "
		}
		switch g.IntN(4) {
		case 0:
			os.Remove(path)
		case 1: // a process died with its socket
			os.Remove(path)
			if err := staleSocket(pick(g, "unix", "unixgram"), path); err != nil {
				c.Inconclusive("stale socket: %v", err)
				return
			}
			log += "stale; "
		}
	}
	c.Stat("histories", 1)
}

func (c *C) c20Bad(network string, kind int) {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "file"), []byte("x"), 0o644)
	for _, a := range []string{
		filepath.Join(dir, "absent", "log"),
		filepath.Join(dir, "file", "log"),
		filepath.Join(dir, strings.Repeat("long", 60)),
		filepath.Join(dir, "nul\x00byte"),
	} {
		before := census20(dir)
		what := fmt.Sprintf("%s listener on %s", network, q(a[len(dir):]))
		var l syslog.Listener
		var err error
		if !patience(func() { c.Guard(func() { l, err = makeListener(kind, network, a) }) }) {
			c.Violate("%s: the constructor never returns", what)
			continue
		}
		// the kernel may cut the name at a NUL octet; everything else is refused
		if !strings.Contains(a, "\x00") {
			if err == nil || l != nil {
				c.Violate("%s: gives %v, %v instead of an error", what, l, err)
			}
			if after := census20(dir); after != before {
				c.Violate("%s: changed the directory: before\n%s\nafter\n%s", what, before, after)
			}
		}
		if l != nil {
			l.Close()
		}
		c.Eval(true, what)
	}
}

// haveIPv6 tells if the IPv6 loopback works here.
func haveIPv6() bool {
	l, err := net.Listen("tcp6", "[::1]:0")
	if err != nil {
		return false
	}
	l.Close()
	return true
}

// freePort gives a port free on both families.
func freePort() string {
	for k := 0; k < 50; k++ {
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			continue
		}
		_, p, _ := net.SplitHostPort(l.Addr().String())
		l.Close()
		return p
	}
	return "0"
}

func (c *C) c20Networks() {
	six := haveIPv6()
	type nw struct {
		network, host string
		four, six     bool
	}
	list := []nw{
		{"tcp", "127.0.0.1", true, false},
		{"tcp4", "127.0.0.1", true, false},
		{"tcp4", "", true, false},
		{"tcp4", "localhost", true, false},
	}
	if six {
		list = append(list, nw{"tcp", "", true, true}, nw{"tcp6", "[::1]", false, true}, nw{"tcp6", "", false, true}, nw{"tcp6", "[::]", false, true}, nw{"tcp", "[::1]", false, true})
	}
	for _, n := range list {
		for kind := 0; kind < 2; kind++ {
			var l syslog.Listener
			var err error
			var port string
			for try := 0; try < 20; try++ {
				port = freePort()
				if l, err = makeListener(kind, n.network, n.host+":"+port); err == nil {
					break
				}
			}
			what := fmt.Sprintf("%s listener on %q", n.network, n.host+":port")
			if err != nil || l == nil {
				c.Violate("%s: %v", what, err)
				continue
			}
			try := func(network, host string, want bool) {
				conn, err := net.Dial(network, host+":"+port)
				if err == nil {
					conn.Close()
				}
				if (err == nil) != want {
					c.Violate("%s: reachable over %s at %s: %v", what, network, host, err == nil)
				}
			}
			var dials [][2]string
			if n.four {
				dials = append(dials, [2]string{"tcp4", "127.0.0.1:" + port})
			} else {
				try("tcp4", "127.0.0.1", false)
			}
			if n.six {
				dials = append(dials, [2]string{"tcp6", "[::1]:" + port})
			} else if six {
				try("tcp6", "[::1]", false)
			}
			c.works(what, l, dials)
			c.Eval(true, what, kind)
		}
	}
	// the wrong family
	for _, a := range [][2]string{{"tcp4", "[::1]:0"}, {"tcp6", "127.0.0.1:0"}, {"tcp", "127.0.0.1:99999"}, {"tcp", "127.0.0.1:-1"}, {"tcp", "127.0.0.1"}, {"tcp", "nonsense:port:x"}, {"tcp", "127.0.0.1:nosuchport"}, {"tcp4", "999.1.1.1:0"}} {
		for kind := 0; kind < 2; kind++ {
			var l syslog.Listener
			var err error
			if !patience(func() { c.Guard(func() { l, err = makeListener(kind, a[0], a[1]) }) }) {
				c.Violate("%s listener on %s: never returns", a[0], a[1])
				continue
			}
			if err == nil || l != nil {
				c.Violate("%s listener on %s: gives %v, %v instead of an error", a[0], a[1], l, err)
				if l != nil {
					l.Close()
				}
			}
			c.Eval(true, a[0], a[1])
		}
	}
	// datagram or stream: the other kind of client is refused
	for k, network := range []string{"unix", "unixgram"} {
		dir := scratchDir()
		l, addr, err := listen(network, dir, k)
		if err != nil {
			c.Violate("%s listener: %v", network, err)
			os.RemoveAll(dir)
			continue
		}
		other := []string{"unixgram", "unix"}[k]
		if conn, err := net.Dial(other, addr); err == nil {
			conn.Close()
			c.Violate("the %s listener accepts %s clients", network, other)
		}
		c.works(network+" listener", l, [][2]string{{network, addr}})
		c.Eval(true, network, other)
		os.RemoveAll(dir)
	}
}

func (c *C) c20Unknown() {
	g := c.Sub(0)
	names := []string{"", "udp", "udp4", "udp6", "TCP", "Tcp", "tcp5", "tcp46", " tcp", "tcp ", "unixpacket", "UNIX", "unixdgram", "unix ", "ip", "ip4:icmp", "stdio", "local", "file", "tls", "\x00", "tcp\x00", "unixgra", "unixgramm", "uni", "tc"}
	for k := 0; k < c.N(100, 2000); k++ {
		s := string(randBytes(g, g.IntN(10)))
		switch s {
		case "tcp", "tcp4", "tcp6", "unix", "unixgram":
			continue
		}
		names = append(names, s)
	}
	for _, n := range names {
		dir := scratchDir()
		path := filepath.Join(dir, "log")
		if g.IntN(2) == 0 {
			staleSocket("unix", path)
		}
		before := census20(dir)
		for _, a := range []string{path, "127.0.0.1:0", ":0", ""} {
			var l syslog.Listener
			var err error
			if !patience(func() { c.Guard(func() { l, err = syslog.GuessListener(n, a) }) }) {
				c.Violate("GuessListener(%q, ...): never returns", n)
				continue
			}
			if err == nil || l != nil {
				c.Violate("GuessListener(%q, %q) gives %v, %v instead of an error", n, a, l, err)
				if l != nil {
					l.Close()
				}
			}
			if a != path {
				if l, err := syslog.TCPListener(n, a); err == nil || l != nil {
					c.Violate("TCPListener(%q, %q) gives %v, %v instead of an error", n, a, l, err)
					if l != nil {
						l.Close()
					}
				}
			}
			c.Eval(true, n, a[:min(len(a), 3)])
		}
		if after := census20(dir); after != before {
			c.Violate("GuessListener(%q, ...) changed the directory: before\n%s\nafter\n%s", n, before, after)
		}
		os.RemoveAll(dir)
	}
}
