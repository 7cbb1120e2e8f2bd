package main

// A tiny DNS server, so that SRV and address lookups of the code under test
// are answered from a table and nothing leaves the process.

import (
	"context"
	"encoding/binary"
	"net"
	"strings"
	"sync"
)

type srvRec struct {
	target string
	port   int
	prio   int
	weight int
}

type dnsTable struct {
	sync.Mutex
	a   map[string]string
	srv map[string][]srvRec
}

var dns = dnsTable{a: map[string]string{}, srv: map[string][]srvRec{}}

func (t *dnsTable) setA(name, ip string) {
	t.Lock()
	t.a[strings.ToLower(name)] = ip
	t.Unlock()
}

func (t *dnsTable) setSRV(name string, recs []srvRec) {
	t.Lock()
	t.srv["_sip._udp."+strings.ToLower(name)] = recs
	t.Unlock()
}

func packName(name string) (b []byte) {
	for _, l := range strings.Split(strings.TrimSuffix(name, "."), ".") {
		b = append(b, byte(len(l)))
		b = append(b, l...)
	}
	return append(b, 0)
}

func (t *dnsTable) answer(q []byte) []byte {
	if len(q) < 17 {
		return nil
	}
	p := 12
	var labels []string
	for p < len(q) && q[p] != 0 {
		n := int(q[p])
		if p+1+n > len(q) {
			return nil
		}
		labels = append(labels, string(q[p+1:p+1+n]))
		p += 1 + n
	}
	p++
	if p+4 > len(q) {
		return nil
	}
	qtype := binary.BigEndian.Uint16(q[p:])
	question := q[12 : p+4]
	name := strings.ToLower(strings.Join(labels, "."))
	t.Lock()
	defer t.Unlock()
	var ans [][]byte
	rcode := byte(3)
	rr := func(typ uint16, data []byte) {
		b := []byte{0xc0, 12}
		b = append(b, byte(typ>>8), byte(typ), 0, 1, 0, 0, 0, 60, byte(len(data)>>8), byte(len(data)))
		ans = append(ans, append(b, data...))
	}
	if ip, ok := t.a[name]; ok {
		rcode = 0
		if qtype == 1 {
			if v4 := net.ParseIP(ip).To4(); v4 != nil {
				rr(1, v4)
			}
		} else if qtype == 28 {
			if v := net.ParseIP(ip); v.To4() == nil {
				rr(28, v)
			}
		}
	}
	if recs, ok := t.srv[name]; ok {
		rcode = 0
		if qtype == 33 {
			for _, r := range recs {
				d := []byte{byte(r.prio >> 8), byte(r.prio), byte(r.weight >> 8), byte(r.weight), byte(r.port >> 8), byte(r.port)}
				rr(33, append(d, packName(r.target)...))
			}
		}
	}
	res := []byte{q[0], q[1], 0x84 | (q[2] & 1), 0x80 | rcode, 0, 1, 0, byte(len(ans)), 0, 0, 0, 0}
	res = append(res, question...)
	for _, a := range ans {
		res = append(res, a...)
	}
	return res
}

// startDNS makes the Go resolver of this process ask us.
func startDNS() error {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		return err
	}
	go func() {
		buf := make([]byte, 4096)
		for {
			n, from, err := c.ReadFromUDP(buf)
			if err != nil {
				return
			}
			if r := dns.answer(buf[:n]); r != nil {
				c.WriteToUDP(r, from)
			}
		}
	}()
	addr := c.LocalAddr().String()
	net.DefaultResolver = &net.Resolver{
		PreferGo: true,
		Dial: func(ctx context.Context, network, address string) (net.Conn, error) {
			var d net.Dialer
			return d.DialContext(ctx, "udp4", addr)
		},
	}
	return nil
}
