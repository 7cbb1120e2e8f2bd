// tportdrv sends datagrams to real transports (dialog.NewTransport) on loopback
// addresses and messages out of them, and records what arrives where.
// One JSON case per line in, one JSON record per line out.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	"verifharness/absmsg"
	"verifharness/together"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
)

type Place struct {
	Ip   string `json:"ip"`
	Port int    `json:"port"`
	Kind string `json:"kind"` // of routers: loose, strict
}

type Step struct {
	From int          `json:"from"` // socket, from 1
	Txt  absmsg.Bytes `json:"txt"`
	Pad  int          `json:"pad"`  // what the mark in the text stands for
	Wait int          `json:"wait"` // ms before it
}

type Case struct {
	Id    int             `json:"id"`
	Op    string          `json:"op"`
	Tp    Place           `json:"tp"`
	Socks []Place         `json:"socks"`
	Steps []Step          `json:"steps"`
	Reply int             `json:"reply"` // status to answer requests with
	Slow  int             `json:"slow"`  // ms the application takes for each message
	Hold  []int           `json:"hold"`  // before which message it pauses, and for how many ms
	Fin   absmsg.Bytes    `json:"fin"`   // Call-ID of the last message
	Msg   *absmsg.Msg     `json:"msg,omitempty"`
	Nodes []Place         `json:"nodes"`
	Mark  absmsg.Bytes    `json:"mark"`           // send: the Call-ID, where others are sent at the same time
	Spec  json.RawMessage `json:"spec,omitempty"` // for the judge only
}

type Got struct {
	Msg  *absmsg.Msg `json:"msg"`  // as delivered
	Same bool        `json:"same"` // it was still so in the end
	Sent string      `json:"sent"` // the reply: "", ok or error
	Note string      `json:"note"` // the error
}

type Pkt struct {
	Sock int          `json:"sock"`
	Own  bool         `json:"own"` // came from the transport's address
	Txt  absmsg.Bytes `json:"txt"`
}

type Res struct {
	State string        `json:"state"` // ok, panic, hang, infra
	Note  string        `json:"note"`
	Got   []Got         `json:"got"`
	Pkts  []Pkt         `json:"pkts"`
	Fin   bool          `json:"fin"`   // the last message arrived
	Errs  int           `json:"errs"`  // errors reported after the socket was closed
	Early int           `json:"early"` // and before
	CDone bool          `json:"cdone"`
	EDone bool          `json:"edone"`
	Sent  string        `json:"sent"` // send: ok or error
	After *absmsg.Msg   `json:"after,omitempty"`
	Via   []absmsg.Via  `json:"via"` // the transport's, afterwards
	Cont  []absmsg.Addr `json:"contact"`
	Via0  []absmsg.Via  `json:"via0"` // and before
	Cont0 []absmsg.Addr `json:"contact0"`
	Hops  []Hop         `json:"hops"`
	Arr   []int         `json:"arr"` // of the messages sent to a crowd: how many, and how many arrived well
}

type Hop struct {
	Node int         `json:"node"`
	Msg  *absmsg.Msg `json:"msg"`
}

type Rec struct {
	Case
	Res Res `json:"res"`
}

const mark = "PADPADPAD"

// listen retries, as the address may still be in use by the case before.
func listen(p Place) (*net.UDPConn, error) {
	var err error
	for i := 0; i < 50; i++ {
		var c *net.UDPConn
		c, err = net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(p.Ip), Port: p.Port})
		if err == nil {
			c.SetReadBuffer(1 << 20)
			return c, nil
		}
		time.Sleep(100 * time.Millisecond)
	}
	return nil, err
}

func transport(p Place) (*dialog.Transport, error) {
	var err error
	for i := 0; i < 50; i++ {
		var tp *dialog.Transport
		tp, err = dialog.NewTransport(&sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "tp", Host: p.Ip, Port: uint16(p.Port)}})
		if err == nil {
			tp.Sock.SetReadBuffer(1 << 20)
			return tp, nil
		}
		if !strings.Contains(err.Error(), "in use") {
			return nil, err
		}
		time.Sleep(100 * time.Millisecond)
	}
	return nil, err
}

func shrink(m *absmsg.Msg, pad int) *absmsg.Msg {
	for i := range m.X {
		v := m.X[i][1].String()
		if pad > 0 && strings.Contains(v, strings.Repeat("p", pad)) {
			m.X[i][1] = absmsg.FromString(strings.Replace(v, strings.Repeat("p", pad), mark, 1))
		} else if len(v) > 4000 {
			m.X[i][1] = absmsg.FromString(fmt.Sprintf("%d bytes", len(v)))
		}
	}
	return m
}

type sink struct {
	sync.Mutex
	pkts []Pkt
}

func (s *sink) read(k int, c *net.UDPConn, own *net.UDPAddr) {
	buf := make([]byte, 65536)
	for {
		n, from, err := c.ReadFromUDP(buf)
		if err != nil {
			return
		}
		s.Lock()
		s.pkts = append(s.pkts, Pkt{k, from.IP.Equal(own.IP) && from.Port == own.Port, absmsg.FromBytes(buf[:n])})
		s.Unlock()
	}
}

func (s *sink) count() int {
	s.Lock()
	defer s.Unlock()
	return len(s.pkts)
}

func infra(err error) Res { return Res{State: "infra", Note: err.Error()} }

// netCase: datagrams in, replies out.
func netCase(c Case) (r Res) {
	tp, err := transport(c.Tp)
	if err != nil {
		return infra(err)
	}
	closed := false
	defer func() {
		if !closed {
			tp.Sock.Close()
		}
	}()
	to := tp.Sock.LocalAddr().(*net.UDPAddr)
	var s sink
	var socks []*net.UDPConn
	for k, p := range c.Socks {
		u, err := listen(p)
		if err != nil {
			return infra(err)
		}
		defer u.Close()
		socks = append(socks, u)
		go s.read(k+1, u, to)
	}
	r.State = "ok"
	r.Via0, r.Cont0 = absmsg.AbsVias(tp.Via), absmsg.AbsAddrs(tp.Contact)

	var mu sync.Mutex
	var msgs []*sip.Msg
	pads := map[string]int{} // which message is padded how
	sent := 0
	finC := make(chan bool)
	panics := make(chan string, 1)
	cdone, edone := make(chan bool), make(chan bool)
	stopping := false
	go func() {
		defer func() {
			if x := recover(); x != nil {
				panics <- fmt.Sprint("while replying: ", x)
			}
		}()
		fin := c.Fin.String()
		over := false
		if len(c.Hold) == 2 && c.Hold[0] == 1 { // not even waiting for one
			time.Sleep(time.Duration(c.Hold[1]) * time.Millisecond)
		}
		taken := 0
		for m := range tp.C {
			if taken++; len(c.Hold) == 2 && c.Hold[0] == taken+1 {
				time.Sleep(time.Duration(c.Hold[1]) * time.Millisecond)
			}
			if c.Slow > 0 {
				time.Sleep(time.Duration(c.Slow) * time.Millisecond)
			}
			mu.Lock()
			g := Got{Msg: shrink(absmsg.AbsMsg(m), pads[m.CallID])}
			mu.Unlock()
			if c.Reply > 0 && !m.IsResponse() {
				rsp := dialog.NewResponse(m, c.Reply)
				err := tp.Send(rsp)
				g.Sent = "ok"
				if err != nil {
					g.Sent, g.Note = "error", err.Error()
				} else {
					sent++
				}
				// Sending may drop our own Via from the response, not from the request.
			}
			mu.Lock()
			msgs = append(msgs, m)
			r.Got = append(r.Got, g)
			mu.Unlock()
			if m.CallID == fin && !over {
				over = true
				close(finC)
			}
		}
		close(cdone)
	}()
	go func() {
		for range tp.E {
			mu.Lock()
			if stopping {
				r.Errs++
			} else {
				r.Early++
			}
			mu.Unlock()
		}
		close(edone)
	}()

	total := 0
	for i, st := range c.Steps {
		if st.Wait > 0 {
			time.Sleep(time.Duration(st.Wait) * time.Millisecond)
		}
		txt := st.Txt.Raw()
		if st.Pad > 0 {
			mu.Lock()
			// The padded message is known by its Call-ID, "padN".
			pads[fmt.Sprintf("pad%d", i+1)] = st.Pad
			mu.Unlock()
			txt = bytes.Replace(txt, []byte(mark), bytes.Repeat([]byte("p"), st.Pad), 1)
		}
		if _, err := socks[st.From-1].WriteTo(txt, to); err != nil {
			return infra(err)
		}
		if total += len(txt) + 2048; total > 200000 {
			time.Sleep(20 * time.Millisecond)
			total = 0
		}
	}
	select {
	case <-finC:
		r.Fin = true
	case x := <-panics:
		return Res{State: "panic", Note: x}
	case <-time.After(time.Duration(6000+len(c.Steps)*c.Slow*2) * time.Millisecond):
	}
	// All replies are on their way; loopback is quick.
	for i := 0; i < 100; i++ {
		mu.Lock()
		n := sent
		mu.Unlock()
		if s.count() >= n {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(2 * time.Millisecond)
	mu.Lock()
	stopping = true
	mu.Unlock()
	tp.Sock.Close()
	closed = true
	limit := time.After(3 * time.Second)
	select {
	case <-cdone:
		r.CDone = true
	case <-limit:
	}
	select {
	case <-edone:
		r.EDone = true
	case <-limit:
	}
	mu.Lock()
	defer mu.Unlock()
	for i, m := range msgs {
		r.Got[i].Same = reflect.DeepEqual(r.Got[i].Msg, shrink(absmsg.AbsMsg(m), pads[m.CallID]))
	}
	s.Lock()
	r.Pkts = append([]Pkt{}, s.pkts...)
	s.Unlock()
	r.Via, r.Cont = absmsg.AbsVias(tp.Via), absmsg.AbsAddrs(tp.Contact)
	return r
}

// sendCase: one message out.
func sendCase(c Case) (r Res) {
	tp, err := transport(c.Tp)
	if err != nil {
		return infra(err)
	}
	defer tp.Sock.Close()
	go func() {
		for range tp.C {
		}
	}()
	go func() {
		for range tp.E {
		}
	}()
	own := tp.Sock.LocalAddr().(*net.UDPAddr)
	var s sink
	for k, p := range c.Socks {
		u, err := listen(p)
		if err != nil {
			return infra(err)
		}
		defer u.Close()
		go s.read(k+1, u, own)
	}
	r.State = "ok"
	r.Via0, r.Cont0 = absmsg.AbsVias(tp.Via), absmsg.AbsAddrs(tp.Contact)
	sendOne(c, tp, &r)
	if r.Sent != "ok" {
		time.Sleep(20 * time.Millisecond)
	} else {
		for i := 0; i < 200 && s.count() == 0; i++ {
			time.Sleep(5 * time.Millisecond)
		}
		time.Sleep(2 * time.Millisecond)
	}
	s.Lock()
	r.Pkts = append([]Pkt{}, s.pkts...)
	s.Unlock()
	r.Via, r.Cont = absmsg.AbsVias(tp.Via), absmsg.AbsAddrs(tp.Contact)
	return r
}

func sendOne(c Case, tp *dialog.Transport, r *Res) {
	m := absmsg.BuildMsg(c.Msg)
	r.Sent = "ok"
	if err := tp.Send(m); err != nil {
		r.Sent, r.Note = "error", err.Error()
	}
	r.After = absmsg.AbsMsg(m)
}

// crowd: messages leave one transport side by side while others arrive at it.
func crowd(cs []Case) ([]Res, error) {
	const coming = 40
	tp, err := transport(cs[0].Tp)
	if err != nil {
		return nil, err
	}
	own := tp.Sock.LocalAddr().(*net.UDPAddr)
	var mu sync.Mutex
	seen := map[string]int{}
	ended := make(chan bool)
	go func() {
		for m := range tp.C {
			mu.Lock()
			if m.From != nil && m.From.Uri.User == m.CallID {
				seen[m.CallID]++
			} else {
				seen["?"]++
			}
			mu.Unlock()
		}
		close(ended)
	}()
	go func() {
		for range tp.E {
		}
	}()
	var s sink
	var socks []*net.UDPConn
	for k, p := range cs[0].Socks {
		u, err := listen(p)
		if err != nil {
			return nil, err
		}
		defer u.Close()
		socks = append(socks, u)
		go s.read(k+1, u, own)
	}
	rs := make([]Res, len(cs))
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := range cs {
		wg.Add(1)
		go func(c Case, r *Res) {
			defer wg.Done()
			<-start
			x := guard(func() (r Res) {
				r.State = "ok"
				sendOne(c, tp, &r)
				return
			})
			*r = x
		}(cs[i], &rs[i])
	}
	via0, cont0 := absmsg.AbsVias(tp.Via), absmsg.AbsAddrs(tp.Contact)
	wg.Add(1)
	go func() {
		defer wg.Done()
		<-start
		for i := 0; i < coming; i++ {
			id := fmt.Sprintf("in%d", i)
			fmt.Fprintf(peer{socks[0], own}, "OPTIONS sip:x@example.com SIP/2.0\r\nVia: SIP/2.0/UDP 192.0.2.1;branch=z9hG4bK%d\r\nFrom: <sip:%s@example.com>;tag=a\r\nTo: <sip:b@example.com>\r\nCall-ID: %s\r\nCSeq: %d OPTIONS\r\nMax-Forwards: 70\r\nContent-Length: 0\r\n\r\n", i, id, id, i+1)
		}
	}()
	close(start)
	wg.Wait()
	good := 0
	for i := 0; i < 200; i++ {
		mu.Lock()
		good = 0
		for k := 0; k < coming; k++ {
			if seen[fmt.Sprintf("in%d", k)] == 1 {
				good++
			}
		}
		if seen["?"] > 0 {
			good = 0
		}
		mu.Unlock()
		ok := 0
		for _, r := range rs {
			if r.Sent == "ok" {
				ok++
			}
		}
		if good == coming && s.count() >= ok {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(3 * time.Millisecond)
	via, cont := absmsg.AbsVias(tp.Via), absmsg.AbsAddrs(tp.Contact)
	tp.Sock.Close()
	<-ended
	s.Lock()
	defer s.Unlock()
	taken := make([]bool, len(s.pkts))
	for i := range rs {
		r := &rs[i]
		r.Arr = []int{coming, good}
		r.Via0, r.Cont0, r.Via, r.Cont = via0, cont0, via, cont
		for k, p := range s.pkts {
			if bytes.Contains(p.Txt.Raw(), cs[i].Mark.Raw()) {
				r.Pkts = append(r.Pkts, p)
				taken[k] = true
			}
		}
	}
	for k, p := range s.pkts {
		if !taken[k] { // nobody's, so everybody's
			for i := range rs {
				rs[i].Pkts = append(rs[i].Pkts, p)
			}
		}
	}
	return rs, nil
}

type peer struct {
	u    *net.UDPConn
	addr *net.UDPAddr
}

func (w peer) Write(b []byte) (int, error) { return w.u.WriteTo(b, w.addr) }

// chainCase: a request travels from a transport through routers to another.
// The last node is where it has to arrive.  Loose routers are transports,
// strict ones do what RFC 2543 says.
func chainCase(c Case) (r Res) {
	uac, err := transport(c.Tp)
	if err != nil {
		return infra(err)
	}
	defer uac.Sock.Close()
	go func() {
		for range uac.C {
		}
	}()
	go func() {
		for range uac.E {
		}
	}()
	var mu sync.Mutex
	var hops []Hop
	last := make(chan bool, 100)
	see := func(n int, m *sip.Msg) {
		mu.Lock()
		hops = append(hops, Hop{n, absmsg.AbsMsg(m)})
		mu.Unlock()
		last <- n == len(c.Nodes)
	}
	note := ""
	for k, p := range c.Nodes {
		k, p := k+1, p
		if p.Kind == "strict" {
			u, err := listen(p)
			if err != nil {
				return infra(err)
			}
			defer u.Close()
			go func() {
				buf := make([]byte, 65536)
				for {
					n, _, err := u.ReadFromUDP(buf)
					if err != nil {
						return
					}
					m, err := sip.ParseMsg(append([]byte{}, buf[:n]...))
					if err != nil {
						mu.Lock()
						note = err.Error()
						mu.Unlock()
						continue
					}
					see(k, m)
					if m.Route == nil {
						continue
					}
					m.Request, m.Route = m.Route.Uri, m.Route.Next
					m.Via = &sip.Via{Host: p.Ip, Port: uint16(p.Port), Param: &sip.Param{Name: "branch", Value: "z9hG4bKstrict"}, Next: m.Via}
					m.MaxForwards--
					port := int(m.Request.Port)
					if port == 0 {
						port = 5060
					}
					var b bytes.Buffer
					m.Append(&b)
					u.WriteTo(b.Bytes(), &net.UDPAddr{IP: net.ParseIP(m.Request.Host), Port: port})
				}
			}()
			continue
		}
		tp, err := transport(p)
		if err != nil {
			return infra(err)
		}
		defer tp.Sock.Close()
		go func() {
			for range tp.E {
			}
		}()
		go func() {
			for m := range tp.C {
				see(k, m)
				if k == len(c.Nodes) {
					continue
				}
				mu.Lock()
				stop := len(hops) > 60
				mu.Unlock()
				if stop {
					continue
				}
				v := tp.Via.Copy().Branch()
				v.Next = m.Via
				m.Via = v
				if err := tp.Send(m); err != nil {
					mu.Lock()
					note = err.Error()
					mu.Unlock()
				}
			}
		}()
	}
	r.State = "ok"
	m := absmsg.BuildMsg(c.Msg)
	r.Sent = "ok"
	if err := uac.Send(m); err != nil {
		r.Sent, r.Note = "error", err.Error()
		return r
	}
	limit := time.After(1500 * time.Millisecond)
loop:
	for {
		select {
		case end := <-last:
			if end {
				break loop
			}
		case <-limit:
			break loop
		}
	}
	time.Sleep(3 * time.Millisecond)
	mu.Lock()
	r.Hops = append([]Hop{}, hops...)
	r.Note = note
	mu.Unlock()
	return r
}

func guard(f func() Res) (p Res) {
	done := make(chan Res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- Res{State: "panic", Note: fmt.Sprint(r)}
			}
		}()
		done <- f()
	}()
	select {
	case p = <-done:
	case <-time.After(40 * time.Second):
		p = Res{State: "hang"}
	}
	return
}

func full(p Res) Res {
	if p.Got == nil {
		p.Got = []Got{}
	}
	if p.Pkts == nil {
		p.Pkts = []Pkt{}
	}
	if p.Hops == nil {
		p.Hops = []Hop{}
	}
	for _, v := range []*[]absmsg.Via{&p.Via, &p.Via0} {
		if *v == nil {
			*v = []absmsg.Via{}
		}
	}
	for _, v := range []*[]absmsg.Addr{&p.Cont, &p.Cont0} {
		if *v == nil {
			*v = []absmsg.Addr{}
		}
	}
	if p.Arr == nil {
		p.Arr = []int{}
	}
	return p
}

func read(line []byte) (c Case) {
	if err := json.Unmarshal(line, &c); err != nil {
		together.Fatal(err)
	}
	if c.Socks == nil {
		c.Socks = []Place{}
	}
	if c.Hold == nil {
		c.Hold = []int{}
	}
	if c.Steps == nil {
		c.Steps = []Step{}
	}
	if c.Nodes == nil {
		c.Nodes = []Place{}
	}
	if c.Fin == nil {
		c.Fin = absmsg.Bytes{}
	}
	if c.Mark == nil {
		c.Mark = absmsg.Bytes{}
	}
	return
}

func show(c Case, r Res) []byte {
	if r.State == "infra" {
		together.Fatal(fmt.Errorf("%s", r.Note))
	}
	b, err := json.Marshal(Rec{c, full(r)})
	if err != nil {
		together.Fatal(err)
	}
	return b
}

func main() {
	if os.Getenv("TOGETHER") == "crowd" {
		in := bufio.NewScanner(os.Stdin)
		in.Buffer(nil, 1<<28)
		var cs []Case
		flush := func() {
			if len(cs) == 0 {
				return
			}
			rs, err := crowd(cs)
			if err != nil {
				together.Fatal(err)
			}
			for i := range cs {
				fmt.Printf("%s\n", show(cs[i], rs[i]))
			}
			cs = nil
		}
		for in.Scan() {
			c := read(in.Bytes())
			if len(cs) > 0 && cs[0].Tp != c.Tp {
				flush()
			}
			cs = append(cs, c)
		}
		flush()
		return
	}
	together.Main(func(line []byte) []byte {
		c := read(line)
		switch c.Op {
		case "net":
			return show(c, guard(func() Res { return netCase(c) }))
		case "send":
			return show(c, guard(func() Res { return sendCase(c) }))
		case "chain":
			return show(c, guard(func() Res { return chainCase(c) }))
		}
		together.Fatal(fmt.Errorf("unknown op %s", c.Op))
		return nil
	})
}
