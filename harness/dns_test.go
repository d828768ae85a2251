package vharness

// A minimal DNS server on the loopback, for names with several addresses.

import (
	"encoding/binary"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
)

type dnsServer struct {
	conns   []net.PacketConn
	mu      sync.Mutex
	names   map[string][]net.IP // absent: no such name; nil entry: no answer at all
	queries atomic.Int64
}

// startDNS serves port 53 of the nameserver this system uses, if that is the loopback.
func startDNS() *dnsServer {
	b, err := os.ReadFile("/etc/resolv.conf")
	if err != nil {
		return nil
	}
	ok := 0
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) == 2 && f[0] == "nameserver" {
			if f[1] != "127.0.0.1" {
				return nil
			}
			ok++
		}
	}
	if ok == 0 {
		return nil
	}
	pc, err := net.ListenPacket("udp4", "127.0.0.1:53")
	if err != nil {
		return nil
	}
	d := &dnsServer{conns: []net.PacketConn{pc}, names: map[string][]net.IP{}}
	go d.serve(pc)
	return d
}

func (d *dnsServer) set(name string, ips ...string) {
	var l []net.IP
	for _, s := range ips {
		l = append(l, net.ParseIP(s))
	}
	d.mu.Lock()
	d.names[name+"."] = l
	d.mu.Unlock()
}

func (d *dnsServer) close() {
	for _, c := range d.conns {
		c.Close()
	}
}

func (d *dnsServer) serve(pc net.PacketConn) {
	buf := make([]byte, 2000)
	for {
		n, from, err := pc.ReadFrom(buf)
		if err != nil {
			return
		}
		d.queries.Add(1)
		if r := d.answer(buf[:n]); r != nil {
			pc.WriteTo(r, from)
		}
	}
}

func (d *dnsServer) answer(b []byte) []byte {
	if len(b) < 12 {
		return nil
	}
	p, name := 12, ""
	for p < len(b) && b[p] != 0 {
		l := int(b[p])
		if l > 63 || p+1+l > len(b) {
			return nil
		}
		name += string(b[p+1:p+1+l]) + "."
		p += 1 + l
	}
	p++
	if p+4 > len(b) {
		return nil
	}
	qtype := binary.BigEndian.Uint16(b[p:])
	question := b[12 : p+4]
	d.mu.Lock()
	ips, known := d.names[strings.ToLower(name)]
	d.mu.Unlock()
	if strings.HasPrefix(name, "silent") {
		return nil
	}
	var rrs []byte
	count := 0
	for _, ip := range ips {
		data := []byte(ip.To4())
		if data == nil {
			data = ip.To16()
		}
		if (len(data) == 4) != (qtype == 1) || (len(data) == 16) != (qtype == 28) {
			continue
		}
		rrs = append(rrs, 0xc0, 12)
		rrs = binary.BigEndian.AppendUint16(rrs, qtype)
		rrs = append(rrs, 0, 1, 0, 0, 0, 1)
		rrs = binary.BigEndian.AppendUint16(rrs, uint16(len(data)))
		rrs = append(rrs, data...)
		count++
	}
	out := []byte{b[0], b[1], 0x85, 0x80, 0, 1, 0, byte(count), 0, 0, 0, 0}
	if !known {
		out[3] |= 3
	}
	out = append(out, question...)
	return append(out, rrs...)
}
