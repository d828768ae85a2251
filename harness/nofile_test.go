package vharness

// A process which runs out of file descriptors for a while: accepting and connecting fail in
// the kernel itself. Receiver and sender live in a child with a small limit, the peers here.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	syslog "github.com/nathanaelle/syslog5424/v2"
)

// fewFiles leaves this process n descriptors and returns what takes all of them but those already there.
func fewFiles(n int) {
	top := 0
	ds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		os.Exit(7)
	}
	for _, d := range ds {
		if k, err := strconv.Atoi(d.Name()); err == nil && k > top {
			top = k
		}
	}
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) != nil {
		os.Exit(7)
	}
	lim.Cur = uint64(top + 1 + n)
	if syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim) != nil {
		os.Exit(7)
	}
}

func takeFiles() (fds []int) {
	for {
		fd, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return
		}
		fds = append(fds, fd)
	}
}

// roleNoFileReceive prints "A address", then "M message", "X error of Receive" and "E error" until
// its standard input ends.
func roleNoFileReceive() {
	f := framings()[int(os.Getenv("VH_FRAMING")[0]-'0')]
	l, addr, err := listen(os.Getenv("VH_NET"), os.Getenv("VH_DIR"), 0)
	if err != nil {
		os.Exit(7)
	}
	var mu sync.Mutex
	say := func(kind, s string) {
		mu.Lock()
		defer mu.Unlock()
		fmt.Println(kind, strconv.Quote(s))
	}
	n, _ := strconv.Atoi(os.Getenv("VH_FILES"))
	r, errs := syslog.NewReceiver(l, 10, f.T)
	go func() {
		told := 0
		for e := range errs {
			if told++; told < 50 {
				say("E", e.Error())
			}
		}
	}()
	fewFiles(n)
	say("A", addr)
	go func() {
		io.Copy(io.Discard, os.Stdin)
		r.End()
	}()
	for {
		m, err, ok := r.Receive()
		switch {
		case !ok:
			say("End", "")
			os.Exit(0)
		case err != nil:
			say("X", err.Error())
		default:
			say("M", m.String())
		}
	}
}

// roleNoFileSend sends while no descriptor is left, and more when there are some again.
func roleNoFileSend() {
	f := framings()[int(os.Getenv("VH_FRAMING")[0]-'0')]
	snd, errs, err := (syslog.Dialer{FlushDelay: 4 * time.Millisecond}).Dial(os.Getenv("VH_NET"), os.Getenv("VH_ADDR"), f.T)
	if err != nil {
		fmt.Println("X", strconv.Quote(err.Error()))
		os.Exit(0)
	}
	pid := os.Getenv("VH_TAG")
	send := func(tag string, n int) {
		for k := 0; k < n; k++ {
			if err := snd.Send(mkMsg(fmt.Sprintf("%s%s%d", pid, tag, k), k, time.Unix(int64(k), 0).UTC(), "text").M); err != nil {
				fmt.Println("X", strconv.Quote(err.Error()))
			}
		}
	}
	connected := os.Getenv("VH_CONNECTED") != ""
	if connected { // the server closes this connection meanwhile
		send("c", 3)
		fmt.Println("C", strconv.Quote(""))
		bufio.NewReader(os.Stdin).ReadString('\n')
	}
	// the poller of the runtime needs descriptors by itself, once
	if x, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Net: "unixgram"}); err == nil {
		x.Close()
	}
	fewFiles(3)
	fds := takeFiles()
	send("a", 5)
	select {
	case e := <-errs:
		fmt.Println("E", strconv.Quote(e.Error()))
	case <-time.After(20 * time.Second):
	}
	go func() {
		for range errs {
		}
	}()
	time.Sleep(30 * time.Millisecond)
	for _, fd := range fds {
		syscall.Close(fd)
	}
	send("b", 5)
	snd.End()
	fmt.Println("End", strconv.Quote(""))
	os.Exit(0)
}

// child is the other process with what it has said.
type child struct {
	mu   sync.Mutex
	said map[string][]string
	in   io.WriteCloser
	err  bytes.Buffer
	done chan error
}

func (c *child) get(kind string) []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.said[kind]...)
}

func startRole(ctx context.Context, role string, env ...string) (*child, error) {
	ch := &child{said: map[string][]string{}, done: make(chan error, 1)}
	cmd := exec.CommandContext(ctx, "/proc/self/exe")
	cmd.Env = append(append(os.Environ(), "VH_ROLE="+role), env...)
	cmd.Stderr = &ch.err
	var err error
	if ch.in, err = cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		sc := bufio.NewScanner(out)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			kind, rest, _ := strings.Cut(sc.Text(), " ")
			if s, err := strconv.Unquote(rest); err == nil {
				ch.mu.Lock()
				ch.said[kind] = append(ch.said[kind], s)
				ch.mu.Unlock()
			}
		}
		ch.done <- cmd.Wait()
	}()
	return ch, nil
}

// lost tells whether the child is not usable, and reports its crash.
func (c *C) lost(ch *child, what string) bool {
	select {
	case err := <-ch.done:
		ch.done <- err
		if err == nil {
			return false
		}
		if s := ch.err.String(); strings.Contains(s, "panic:") && strings.Contains(s, "syslog5424/v2") {
			c.Violate("%s: %s", what, q(s))
		} else {
			c.Inconclusive("%s: %v %s", what, err, s)
		}
		return true
	default:
		return false
	}
}

// noFileReceive: more connections than the receiving process can open. The failures to accept are
// reported, and as soon as connections end, those which wait are served.
func (c *C) noFileReceive(g *rand.Rand, fi int, network string, i int) {
	f := framings()[fi]
	dir := scratchDir()
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	files := 1 + g.IntN(12)
	what := fmt.Sprintf("%s receiver, %s framing, descriptors for %d connections", network, f.Name, files)
	ch, err := startRole(ctx, "nofilerecv", "VH_NET="+network, "VH_DIR="+dir, fmt.Sprint("VH_FRAMING=", fi), fmt.Sprint("VH_FILES=", files))
	if err != nil {
		c.Inconclusive("%s: %v", what, err)
		return
	}
	defer ch.in.Close()
	if !waitFor(30*time.Second, func() bool { return len(ch.get("A")) > 0 || len(ch.done) > 0 }) || c.lost(ch, what) {
		return
	}
	addr := ch.get("A")[0]
	var want []string
	var conns []net.Conn
	defer func() {
		for _, x := range conns {
			x.Close()
		}
	}()
	write := func(k int, tag string) {
		m := mkMsg(fmt.Sprintf("nf%d.%d%s", i, k, tag), k, time.Unix(int64(k), 0).UTC(), "text").Want
		if _, err := conns[k].Write([]byte(f.enc(m))); err != nil {
			c.Inconclusive("%s: write: %v", what, err)
			return
		}
		want = append(want, m)
	}
	n := files + 1 + g.IntN(20)
	for k := 0; k < n; k++ {
		conn, err := net.Dial(network, addr)
		if err != nil {
			c.Inconclusive("%s: dial: %v", what, err)
			return
		}
		conns = append(conns, conn)
		write(k, "first")
	}
	// connections which it can take are served meanwhile
	if !waitFor(20*time.Second, func() bool { return len(ch.get("M")) >= files && len(ch.get("E")) > 0 }) {
		if !c.lost(ch, what) {
			c.Violate("%s: with %d connections, %d messages are delivered and %d errors reported", what, n, len(ch.get("M")), len(ch.get("E")))
		}
		return
	}
	time.Sleep(time.Duration(g.IntN(30)) * time.Millisecond)
	for _, k := range g.Perm(n) {
		write(k, "last")
		conns[k].Close()
	}
	if !waitFor(20*time.Second, func() bool { return len(ch.get("M")) >= len(want) }) && c.lost(ch, what) {
		return
	}
	time.Sleep(2 * time.Millisecond)
	got := map[string]int{}
	for _, m := range ch.get("M") {
		got[m]++
	}
	for _, m := range want {
		if got[m] != 1 {
			c.Violate("%s: the message %s of %d connections is delivered %d times after the descriptors are free again (%d of %d)", what, q(m), n, got[m], len(ch.get("M")), len(want))
			break
		}
	}
	if x := ch.get("X"); len(x) > 0 {
		c.Violate("%s: Receive gives %s", what, q(x[0]))
	}
	ch.in.Close()
	if !waitFor(20*time.Second, func() bool { return len(ch.get("End")) > 0 }) && !c.lost(ch, what) {
		c.Violate("%s: not finished after End", what)
	}
	c.Stat("connections_beyond_the_limit", int64(n-files))
	c.Eval(true, what, n)
}

// noFileSend: no descriptor is left when the sender has to connect.
func (c *C) noFileSend(g *rand.Rand, fi int, network string, connected bool, i int) {
	f := framings()[fi]
	dir := scratchDir()
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	what := fmt.Sprintf("%s sender, %s framing, connected before: %v, without descriptors", network, f.Name, connected)
	server, addr := network, filepath.Join(dir, "s")
	switch network {
	case "tcp", "tcp4":
		addr = "127.0.0.1:0"
	case "local":
		server = pick(g, "unix", "unixgram")
	}
	p, err := plainServer(server, addr)
	if err != nil {
		c.Inconclusive("%s: %v", what, err)
		return
	}
	defer p.stop()
	tag := fmt.Sprintf("ns%d.", i)
	env := []string{"VH_NET=" + network, "VH_ADDR=" + p.addr, fmt.Sprint("VH_FRAMING=", fi), "VH_TAG=" + tag}
	if connected {
		env = append(env, "VH_CONNECTED=1")
	}
	ch, err := startRole(ctx, "nofilesend", env...)
	if err != nil {
		c.Inconclusive("%s: %v", what, err)
		return
	}
	defer ch.in.Close()
	framesOf := func(tag2 string, n int) (out []string) {
		for k := 0; k < n; k++ {
			out = append(out, f.enc(mkMsg(fmt.Sprintf("%s%s%d", tag, tag2, k), k, time.Unix(int64(k), 0).UTC(), "text").Want))
		}
		return
	}
	all := func() []string {
		if server == "unixgram" {
			return p.datagrams()
		}
		return p.streams()
	}
	if connected {
		w := strings.Join(framesOf("c", 3), "")
		if !waitFor(30*time.Second, func() bool { return strings.Join(all(), "") == w || len(ch.done) > 0 }) {
			c.Violate("%s: received %q before, want %s", what, all(), q(w))
			return
		}
		p.stop()
		os.Remove(filepath.Join(dir, "s"))
		if p, err = plainServer(server, p.addr); err != nil {
			c.Inconclusive("%s: %v", what, err)
			return
		}
		defer p.stop()
		ch.in.Write([]byte("\n"))
	}
	if !waitFor(60*time.Second, func() bool { return len(ch.get("End")) > 0 || len(ch.done) > 0 }) {
		c.Violate("%s: not ended long after there are descriptors again", what)
		return
	}
	waitFor(5*time.Second, func() bool { return len(ch.done) > 0 })
	if c.lost(ch, what) {
		return
	}
	if x := ch.get("X"); len(x) > 0 {
		c.Violate("%s: %s", what, q(x[0]))
	}
	if len(ch.get("E")) == 0 {
		c.Violate("%s: no error reported", what)
	}
	w := append(framesOf("a", 5), framesOf("b", 5)...)
	if server != "unixgram" {
		w = []string{strings.Join(w, "")}
	}
	waitFor(10*time.Second, func() bool { return strings.Join(all(), "") == strings.Join(w, "") })
	if got := all(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", w) {
		c.Violate("%s: received %q, want %q", what, got, w)
	}
	c.Stat("senders_without_descriptors", 1)
	c.Eval(true, what, i)
}
