// rtpdrv runs headers, audio and whole RTP sessions through gosip's rtp and
// dsp packages.  One JSON case per line in, one JSON record per line out.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"verifharness/together"

	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/rtp"
)

const glance = 8 * time.Millisecond

// How long to wait for what should happen; less once it has not happened a few
// times (what fails is repeated by another process).
var patience = 8 * time.Second
var late int

func overdue() {
	if late++; late == 2 {
		patience = time.Second
	} else if late == 10 {
		patience = 100 * time.Millisecond
	}
}

type Obj = map[string]interface{}

type Ints []int

func ints(b []byte) Ints {
	r := make(Ints, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

func (x Ints) bytes() []byte {
	b := make([]byte, len(x))
	for i, c := range x {
		b[i] = byte(c)
	}
	return b
}

type Word [2]int

func (w Word) u32() uint32 { return uint32(w[0])<<16 | uint32(w[1]) }
func word(u uint32) Word   { return Word{int(u / 65536), int(u % 65536)} }
func frame(x Ints) *rtp.Frame {
	f := new(rtp.Frame)
	for i, v := range x {
		f[i] = int16(v)
	}
	return f
}
func samples(f *rtp.Frame) Ints {
	r := make(Ints, len(f))
	for i, v := range f {
		r[i] = int(v)
	}
	return r
}

type Hdr struct {
	Pad  bool `json:"pad"`
	Mark bool `json:"mark"`
	PT   int  `json:"pt"`
	Seq  int  `json:"seq"`
	TS   Word `json:"ts"`
	Ssrc Word `json:"ssrc"`
}

func absHdr(h rtp.Header) Hdr {
	return Hdr{h.Pad, h.Mark, int(h.PT), int(h.Seq), word(h.TS), word(h.Ssrc)}
}

type Ev struct {
	Event int  `json:"event"`
	E     bool `json:"e"`
	R     bool `json:"r"`
	Vol   int  `json:"vol"`
	Dur   int  `json:"dur"`
}

func absEv(e rtp.EventHeader) Ev { return Ev{int(e.Event), e.E, e.R, int(e.Volume), int(e.Duration)} }

type Op struct {
	O     string `json:"o"`
	N     int    `json:"n"`
	X     Ints   `json:"x"`
	Samps Word   `json:"samps"`
	Late  int    `json:"late"`
	B     Ints   `json:"b"`
}

type Case struct {
	Op    string `json:"op"`
	H     Hdr    `json:"h"`
	Pre   Ints   `json:"pre"`
	Room  int    `json:"room"`
	B     Ints   `json:"b"`
	A     Ints   `json:"a"`
	Ev    Ev     `json:"ev"`
	N     int    `json:"n"`
	From  int    `json:"from"`
	At    int    `json:"at"`
	Bt    int    `json:"bt"`
	Same  bool   `json:"same"`
	Place int    `json:"place"`
	Start Hdr    `json:"start"`
	Ops   []Op   `json:"ops"`
	Pkts  []Ints `json:"pkts"`
	Takes int    `json:"takes"`
	Hold  int    `json:"hold"`
	Gap   int    `json:"gap"`
	Keep  bool   `json:"keep"`
	Wait  int    `json:"wait"`
	Taken int    `json:"taken"`
	Odd   bool   `json:"odd"`
	Seed  Word   `json:"seed"`
	Level int    `json:"level"`
	Ctor  string `json:"ctor"`
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "rtpdrv:", err)
		os.Exit(3)
	}
}

// ---------------------------------------------------------------- headers

func hdr(c *Case) Obj {
	h := rtp.Header{Pad: c.H.Pad, Mark: c.H.Mark, PT: uint8(c.H.PT), Seq: uint16(c.H.Seq), TS: c.H.TS.u32(), Ssrc: c.H.Ssrc.u32()}
	buf := make([]byte, len(c.Pre), len(c.Pre)+c.Room)
	copy(buf, c.Pre.bytes())
	all := buf[:cap(buf)]
	for i := len(buf); i < len(all); i++ {
		all[i] = 0xA5
	}
	out := h.Write(buf)
	kept := true
	// Only twelve octets behind the end may have been written, if they were.
	for i := range all {
		if i < len(c.Pre) && all[i] != byte(c.Pre[i]) || i >= len(c.Pre)+rtp.HeaderSize && all[i] != 0xA5 {
			kept = false
		}
	}
	var back rtp.Header
	back.Pad, back.Mark, back.PT, back.Seq = !h.Pad, !h.Mark, ^h.PT, ^h.Seq
	ok := len(out) >= len(c.Pre) && back.Read(out[len(c.Pre):]) == nil
	return Obj{"out": ints(out), "kept": kept, "ok": ok, "h": absHdr(back)}
}

func read(c *Case) Obj {
	var h rtp.Header
	b := make([]byte, len(c.B))
	copy(b, c.B.bytes())
	err := h.Read(b[:len(b):len(b)])
	return Obj{"ok": err == nil, "h": absHdr(h)}
}

func event(c *Case) Obj {
	e := rtp.EventHeader{Event: uint8(c.Ev.Event), E: c.Ev.E, R: c.Ev.R, Volume: uint8(c.Ev.Vol), Duration: uint16(c.Ev.Dur)}
	b := c.B.bytes()
	e.Write(b)
	one := rtp.EventHeader{Event: ^e.Event, E: !e.E, R: !e.R}
	one.Read(b)
	var two rtp.EventHeader
	two.Read(c.B.bytes())
	return Obj{"out": ints(b), "ev": absEv(one), "ev2": absEv(two)}
}

func char(c *Case) Obj {
	e, err := rtp.CharToDtmf(byte(c.N))
	ei := int(e)
	if err != nil {
		ei = -1
	}
	ch, err := rtp.DtmfToChar(uint8(c.N))
	ci := int(ch)
	if err != nil {
		ci = -1
	}
	return Obj{"event": ei, "char": ci}
}

// ---------------------------------------------------------------- dsp

func ulaw(c *Case) Obj {
	r := make(Ints, c.N)
	for i := range r {
		r[i] = int(dsp.LinearToUlaw(int64(c.From + i)))
	}
	return Obj{"codes": r}
}

func linear(c *Case) Obj {
	r := make(Ints, c.N)
	for i := range r {
		r[i] = int(dsp.UlawToLinear(int64(c.From + i)))
	}
	return Obj{"codes": r}
}

// Three pages, of which only the middle one may be touched.
var pages = sync.Pool{New: func() interface{} {
	p, err := syscall.Mmap(-1, 0, 4*4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	must(err)
	must(syscall.Mprotect(p[:4096], syscall.PROT_NONE))
	must(syscall.Mprotect(p[3*4096:], syscall.PROT_NONE))
	return p
}}

func mix(c *Case) Obj {
	const size = 320
	mem := pages.Get().([]byte)
	defer pages.Put(mem)
	arena := mem[4096 : 3*4096]
	for i := range arena {
		arena[i] = byte(i*7 + 3)
	}
	at, bt := 64+c.At/2*2, 1024+c.Bt/2*2
	switch c.Place {
	case 1: // the frames end and begin the memory
		at, bt = len(arena)-size, 0
	case 2:
		at, bt = 0, len(arena)-size
	case 3: // next to one another
		bt = at + size
	}
	if c.Same {
		bt = at
	}
	put := func(o int, x Ints) {
		for i, v := range x {
			*(*int16)(unsafe.Pointer(&arena[o+2*i])) = int16(v)
		}
	}
	get := func(o int) Ints {
		r := make(Ints, 160)
		for i := range r {
			r[i] = int(*(*int16)(unsafe.Pointer(&arena[o+2*i])))
		}
		return r
	}
	if !c.Same {
		put(bt, c.B)
	}
	put(at, c.A)
	was := append([]byte{}, arena...)
	dsp.L16MixSat160((*int16)(unsafe.Pointer(&arena[at])), (*int16)(unsafe.Pointer(&arena[bt])))
	dst, src := get(at), get(bt)
	now := append([]byte{}, arena...)
	copy(was[at:at+size], now[at:at+size])
	copy(was[bt:bt+size], now[bt:bt+size])
	return Obj{"dst": dst, "src": src, "kept": bytes.Equal(was, now)}
}

func noise(c *Case) Obj {
	seed, level := int64(c.Seed.u32()), float64(c.Level)/100
	mk := func() *dsp.AWGN {
		switch c.Ctor {
		case "dbov":
			return dsp.NewAWGN_DBOV(seed, level)
		case "dbm0":
			return dsp.NewAWGN_DBM0(seed, level)
		}
		return dsp.NewAWGN(level)
	}
	a, b := mk(), mk()
	x := make(Ints, c.N)
	same := true
	for i := range x {
		x[i] = int(a.Get())
		if int(b.Get()) != x[i] {
			same = false
		}
	}
	return Obj{"x": x, "same": same}
}

// ---------------------------------------------------------------- sending

func listen() *net.UDPConn {
	for i := 0; ; i++ {
		s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err == nil {
			return s
		}
		if i > 20 {
			must(err)
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func open() *rtp.Session {
	for i := 0; ; i++ {
		rs, err := rtp.NewSession("127.0.0.1")
		if err == nil {
			return rs
		}
		if i > 5 {
			must(err)
		}
	}
}

var helper *net.UDPConn

// What has come in from the session; the helper's packet comes after it.
func drain(s *net.UDPConn, from *net.UDPAddr) (got []Ints) {
	if helper == nil {
		helper = listen()
	}
	buf := make([]byte, 65536)
	for try := 0; ; try++ {
		_, err := helper.WriteTo([]byte("end"), s.LocalAddr())
		must(err)
		s.SetReadDeadline(time.Now().Add(patience))
		for {
			n, a, err := s.ReadFromUDP(buf)
			if err != nil {
				if try > 2 {
					must(err)
				}
				break
			}
			if a.Port == helper.LocalAddr().(*net.UDPAddr).Port {
				return
			}
			if a.Port == from.Port && a.IP.Equal(from.IP) {
				got = append(got, ints(buf[:n]))
			}
		}
	}
}

func send(c *Case) Obj {
	rs := open()
	defer rs.Close()
	one, two := listen(), listen()
	defer one.Close()
	defer two.Close()
	me := rs.Sock.LocalAddr().(*net.UDPAddr)
	rs.Header.Seq, rs.Header.TS, rs.Header.Ssrc = uint16(c.Start.Seq), c.Start.TS.u32(), c.Start.Ssrc.u32()
	var denied time.Time
	res := []Obj{}
	for _, op := range c.Ops {
		var err error
		kept := true
		was := rs.Header
		switch op.O {
		case "peer":
			switch op.N {
			case 0:
				rs.Peer = nil
			case 1:
				rs.Peer = one.LocalAddr().(*net.UDPAddr)
			case 2:
				rs.Peer = two.LocalAddr().(*net.UDPAddr)
			default:
				rs.Peer = &net.UDPAddr{IP: net.ParseIP("2001:db8::1"), Port: 9}
			}
		case "deny":
			denied = time.Time{}
			if op.N == 1 {
				denied = time.Unix(1, 0)
			}
			must(rs.Sock.SetWriteDeadline(denied))
		case "frame":
			f, g := frame(op.X), frame(op.X)
			err = rs.Send(f)
			kept = *f == *g
		case "raw":
			d := op.X.bytes()
			err = rs.SendRaw(uint8(op.N), d, op.Samps.u32())
			kept = bytes.Equal(d, op.X.bytes())
		case "digit":
			if op.Late > 0 && denied.IsZero() {
				must(rs.Sock.SetWriteDeadline(time.Now().Add(time.Duration(op.Late) * time.Microsecond)))
			}
			err = rs.SendDTMF(byte(op.N))
			if op.Late > 0 && denied.IsZero() {
				must(rs.Sock.SetWriteDeadline(denied))
			}
		}
		moved := was.Seq != rs.Header.Seq || was.TS != rs.Header.TS || was.Ssrc != rs.Header.Ssrc || was.Mark != rs.Header.Mark
		pkts := []Obj{}
		if op.O != "peer" && op.O != "deny" {
			for i, s := range []*net.UDPConn{one, two} {
				for _, b := range drain(s, me) {
					pkts = append(pkts, Obj{"to": i + 1, "b": b})
				}
			}
		}
		res = append(res, Obj{"err": err != nil, "kept": kept, "moved": moved, "pkts": pkts})
	}
	return Obj{"ops": res}
}

// ---------------------------------------------------------------- receiving

func within(d time.Duration, f func()) bool {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		overdue()
		return false
	}
}

// Did everything end that should?
func ended(rs *rtp.Session, port int, r Obj) {
	c, e := false, false
	select {
	case _, ok := <-rs.C:
		c = !ok
	case <-time.After(patience):
		overdue()
	}
	select {
	case _, ok := <-rs.E:
		e = !ok
	case <-time.After(patience):
		overdue()
	}
	s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	if err == nil {
		s.Close()
	}
	r["cdone"], r["edone"], r["free"] = c, e, err == nil
}

func recv(c *Case) Obj {
	rs := open()
	src := listen()
	defer src.Close()
	me := rs.Sock.LocalAddr().(*net.UDPAddr)
	var held, snap *rtp.Frame
	same := func() bool { return held == nil || *held == *snap }
	r := Obj{"closed": "ok", "held": true, "cdone": true, "edone": true, "free": true}
	res := []Obj{}
	for _, op := range c.Ops {
		got, f, kept := "ok", Ints{}, true
		switch op.O {
		case "good", "bad":
			_, err := src.WriteTo(op.B.bytes(), me)
			must(err)
		case "take", "peek":
			d := patience
			if op.O == "peek" {
				d = glance
			}
			select {
			case x, ok := <-rs.C:
				if !ok {
					got = "closed"
				} else {
					got, held = "frame", x
					cp := *x
					snap = &cp
					f = samples(x)
				}
			case <-time.After(d):
				got = "none"
				if d > glance {
					overdue()
				}
			}
		case "give":
			kept = same()
			select {
			case rs.R <- held:
				held = nil
			case <-time.After(patience):
				overdue()
				got = "stuck"
			}
		case "expire":
			must(rs.Sock.SetReadDeadline(time.Unix(1, 0)))
		case "err", "noerr":
			d := patience
			if op.O == "noerr" {
				d = glance
			}
			select {
			case err, ok := <-rs.E:
				switch {
				case !ok:
					got = "closed"
				case err == nil:
					got = "nil"
				default:
					got = "error"
				}
			case <-time.After(d):
				got = "none"
				if d > glance {
					overdue()
				}
			}
		case "close", "cae":
			f := rs.Close
			if op.O == "cae" {
				f = rs.CloseAfterError
			}
			if !within(patience, f) {
				r["closed"] = "does not return"
			} else {
				ended(rs, me.Port, r)
				// Once more does nothing.
				if !within(patience, rs.Close) {
					r["closed"] = "closing again does not return"
				}
			}
			r["held"] = same()
		}
		res = append(res, Obj{"got": got, "f": f, "kept": kept})
		if got == "stuck" {
			break
		}
	}
	for len(res) < len(c.Ops) {
		res = append(res, Obj{"got": "skipped", "f": Ints{}, "kept": true})
	}
	r["ops"] = res
	return r
}

// Packets come in while the application takes and gives back, and then closes.
func storm(c *Case) Obj {
	rs := open()
	src := listen()
	defer src.Close()
	me := rs.Sock.LocalAddr().(*net.UDPAddr)
	r := Obj{"closed": "ok", "held": true, "cdone": true, "edone": true, "free": true}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, p := range c.Pkts {
			src.WriteTo(p.bytes(), me)
			if c.Gap > 0 {
				time.Sleep(time.Duration(c.Gap) * time.Microsecond)
			}
		}
	}()
	frames := []Ints{}
	var held, snap *rtp.Frame
	for i := 0; i < c.Takes; i++ {
		var x *rtp.Frame
		ok := true
		select {
		case x, ok = <-rs.C:
		case <-time.After(glance):
			ok = false
		}
		if !ok {
			break
		}
		held = x
		cp := *x
		snap = &cp
		frames = append(frames, samples(x))
		if c.Hold > 0 {
			time.Sleep(time.Duration(c.Hold) * time.Microsecond)
		}
		if *held != *snap {
			r["held"] = false
		}
		if c.Keep && i == c.Takes-1 {
			break
		}
		rs.R <- held
		held = nil
	}
	if c.Wait > 0 {
		time.Sleep(time.Duration(c.Wait) * time.Microsecond)
	}
	if !within(patience, rs.Close) {
		r["closed"] = "does not return"
	} else {
		ended(rs, me.Port, r)
	}
	if held != nil && *held != *snap {
		r["held"] = false
	}
	wg.Wait()
	r["frames"] = frames
	return r
}

// Sessions closed again and again with a frame in hand and more on the way.
func slam(c *Case) Obj {
	src := listen()
	defer src.Close()
	bad := 0
	for i := 0; i < c.N; i++ {
		rs := open()
		me := rs.Sock.LocalAddr().(*net.UDPAddr)
		for _, p := range c.Pkts {
			src.WriteTo(p.bytes(), me)
		}
		<-rs.C
		if i%2 == 1 {
			time.Sleep(time.Duration(i%40) * time.Microsecond)
		}
		if !within(patience, rs.Close) {
			if bad++; bad > 3 {
				break
			}
		}
	}
	return Obj{"bad": bad}
}

// ---------------------------------------------------------------- opening

func ports(c *Case) Obj {
	var taken []net.PacketConn
	for p := 16384; p <= 32768 && len(taken) < c.Taken; p += 10 {
		if s, err := net.ListenPacket("udp", fmt.Sprintf("127.0.0.1:%d", p)); err == nil {
			taken = append(taken, s)
		}
	}
	res := []Obj{}
	var open []*rtp.Session
	for i := 0; i < c.N; i++ {
		rs, err := rtp.NewSession("127.0.0.1")
		if err != nil {
			res = append(res, Obj{"port": 0, "err": err.Error()})
			continue
		}
		res = append(res, Obj{"port": rs.Sock.LocalAddr().(*net.UDPAddr).Port, "err": ""})
		open = append(open, rs)
	}
	for _, rs := range open {
		rs.Close()
	}
	for _, s := range taken {
		s.Close()
	}
	return Obj{"ports": res}
}

func asked(c *Case, taken bool) Obj {
	for try := 0; ; try++ {
		var s *net.UDPConn
		for {
			s = listen()
			if s.LocalAddr().(*net.UDPAddr).Port%2 == 1 == c.Odd {
				break
			}
			s.Close()
		}
		port := s.LocalAddr().(*net.UDPAddr).Port
		if !taken {
			s.Close()
		}
		rs, err := rtp.NewSession(fmt.Sprintf("127.0.0.1:%d", port))
		r := Obj{"port": port, "got": 0, "err": ""}
		if err != nil {
			r["err"] = err.Error()
		} else {
			r["got"] = rs.Sock.LocalAddr().(*net.UDPAddr).Port
			rs.Close()
		}
		if taken {
			s.Close()
		}
		if err != nil && !taken && try < 5 { // somebody else was faster
			continue
		}
		return r
	}
}

func main() {
	log.SetOutput(io.Discard)
	together.Main(func(raw []byte) []byte {
		var rec Obj
		must(json.Unmarshal(raw, &rec))
		var c Case
		taken, _ := rec["taken"].(bool)
		if taken || rec["op"] == "asked" {
			delete(rec, "taken")
			b, _ := json.Marshal(rec)
			must(json.Unmarshal(b, &c))
			rec["taken"] = taken
		} else {
			must(json.Unmarshal(raw, &c))
		}
		res := make(chan Obj, 1)
		go func() {
			defer func() {
				if x := recover(); x != nil {
					res <- Obj{"state": "panic", "note": fmt.Sprint(x)}
				}
			}()
			var r Obj
			switch c.Op {
			case "hdr":
				r = hdr(&c)
			case "read":
				r = read(&c)
			case "event":
				r = event(&c)
			case "char":
				r = char(&c)
			case "ulaw":
				r = ulaw(&c)
			case "linear":
				r = linear(&c)
			case "mix":
				r = mix(&c)
			case "noise":
				r = noise(&c)
			case "send":
				r = send(&c)
			case "recv":
				r = recv(&c)
			case "slam":
				r = slam(&c)
			case "storm":
				r = storm(&c)
			case "ports":
				r = ports(&c)
			case "asked":
				r = asked(&c, taken)
			default:
				must(fmt.Errorf("unknown op %q", c.Op))
			}
			r["state"] = "ok"
			res <- r
		}()
		select {
		case r := <-res:
			rec["res"] = r
		case <-time.After(60 * time.Second):
			rec["res"] = Obj{"state": "hang"}
		}
		b, err := json.Marshal(rec)
		must(err)
		return b
	})
}
