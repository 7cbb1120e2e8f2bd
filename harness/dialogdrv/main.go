// Command dialogdrv plays schedules against real calls (dialog.NewDialog) over
// loopback sockets and writes down what happened, as input for TraceDialog.tla.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"log"
	"net"
	"os"
	"regexp"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
)

type URI struct {
	U  string `json:"u"`
	A  string `json:"a"`
	LR bool   `json:"lr"`
}

type Cfg struct {
	URI     URI                 `json:"uri"`
	Route   []URI               `json:"route"`
	CSeq    int                 `json:"cseq"`
	MF      int                 `json:"mf"`
	ToTag   string              `json:"totag"`
	Max     int                 `json:"max"`
	Srv     map[string][]string `json:"srv"`
	Host    map[string]string   `json:"host"`
	Undial  []string            `json:"undial"`
	Refuse  []string            `json:"refuse"`
	Servers []string            `json:"servers"`
}

type Step struct {
	E       string        `json:"e"`
	From    string        `json:"from,omitempty"`
	Att     []interface{} `json:"att,omitempty"`
	St      int           `json:"st,omitempty"`
	M       string        `json:"m,omitempty"`
	DCS     int           `json:"dcs,omitempty"`
	CSeq    int           `json:"cseq,omitempty"`
	Bad     string        `json:"bad,omitempty"`
	MF      int           `json:"mf,omitempty"`
	Contact URI           `json:"contact,omitempty"`
	Tag     string        `json:"tag,omitempty"`
	RR      []URI         `json:"rr,omitempty"`
	Sdp     string        `json:"sdp,omitempty"`
	Loose   bool          `json:"loose,omitempty"`
	S       string        `json:"s,omitempty"`
	Exp     []string      `json:"exp,omitempty"`
	NoWait  bool          `json:"nowait,omitempty"`
	Style   int           `json:"style,omitempty"`
	Auto    bool          `json:"auto,omitempty"`  // to whoever the call talks to now; nothing is known to come of it
	Pause   int           `json:"pause,omitempty"` // ms
	Drop    []string      `json:"drop,omitempty"`  // hostile: header lines to leave out
	Put     []string      `json:"put,omitempty"`   // header lines to add
	Dmg     [][3]int      `json:"dmg,omitempty"`   // damage: what, where (thousandths), with what
}

type Scenario struct {
	ID    int    `json:"id"`
	Cfg   Cfg    `json:"cfg"`
	Steps []Step `json:"steps"`
	End   string `json:"end"` // "bye", "idle" or ""
	Style int    `json:"style"`
	Burst bool   `json:"burst"`
	Slow  int    `json:"slow"` // ms the application takes between two looks at the call
}

type Job struct {
	Interval  int        `json:"interval"` // ms; 0: no timer fires
	Max       int        `json:"max"`
	Loose     bool       `json:"loose"`
	Chatty    bool       `json:"chatty"` // tracing and timestamps
	Parallel  int        `json:"parallel"`
	Scenarios []Scenario `json:"scenarios"`
}

type M map[string]interface{}

var (
	netA     int
	lockSock *net.UDPConn
	job      Job
)

type server struct {
	name string
	ip   string
	port int
	conn *net.UDPConn
	last *net.UDPAddr // where its last packet came from
	self *net.UDPAddr
	dead chan bool // closed when it was killed
}

type run struct {
	sync.Mutex
	sc      *Scenario
	idx     int
	suffix  string
	hangups int
	stuck   int
	servers map[string]*server
	byAddr  map[string]string
	ev      []M
	obs     map[string][]M
	cond    *sync.Cond
	branch  map[string][]interface{} // branch -> attempt
	natt    map[string]int
	pkts    map[string]rawMsg // attempt -> its first packet
	first   map[string]string // transmission key -> first packet
	lastAt  map[string]time.Time
	reqs    map[int]rawMsg // requests we sent, by id
	nextID  int
	dl      *dialog.Dialog
	closed  bool
	cport   string
	alien   *net.UDPConn
	curSrv  string
	curAtt  []interface{}
	cid     string
	ownTag  string
	ownFrom string
	stalled bool
	skipped int
	contact string
}

func attKey(a []interface{}) string { return fmt.Sprint(a...) }

// ---------------------------------------------------------------- addresses

func (r *run) ip(k int) string { return fmt.Sprintf("127.%d.%d.%d", netA, r.idx, k) }

func serverPort(k int) int { return []int{5060, 5062, 5070, 5060, 6001, 5060}[(k-1)%6] }

func (r *run) setup() error {
	r.suffix = fmt.Sprintf(".c%d.w.test", r.idx)
	for k, name := range r.sc.Cfg.Servers {
		s := &server{name: name, ip: r.ip(k + 1), port: serverPort(k + 1), dead: make(chan bool)}
		if r.sc.Style%5 == 3 && k < 3 { // one machine, several ports
			s.ip = r.ip(1)
		}
		r.servers[name] = s
		r.byAddr[s.ip+":"+strconv.Itoa(s.port)] = name
		refused := false
		for _, x := range r.sc.Cfg.Refuse {
			refused = refused || x == name
		}
		if !refused {
			c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(s.ip), Port: s.port})
			if err != nil {
				return err
			}
			c.SetReadBuffer(1 << 20)
			s.conn, s.self = c, c.LocalAddr().(*net.UDPAddr)
		}
	}
	var err error
	r.alien, err = net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(r.ip(200))})
	if err != nil {
		return err
	}
	for name, srv := range r.sc.Cfg.Host {
		dns.setA(name+r.suffix, r.servers[srv].ip)
	}
	for dom, cands := range r.sc.Cfg.Srv {
		var recs []srvRec
		for i, c := range cands {
			port := 5060
			target := c + r.suffix
			if s, ok := r.servers[c]; ok { // an address as target: a name of its own
				target = "addr-" + c + r.suffix
				dns.setA(target, s.ip)
				port = s.port
			} else if h, ok := r.sc.Cfg.Host[c]; ok {
				port = r.servers[h].port
			}
			recs = append(recs, srvRec{target + ".", port, 10 * (i + 1), 5})
		}
		// The order on the wire is not the order of preference.
		for i, j := 0, len(recs)-1; i < j; i, j = i+1, j-1 {
			recs[i], recs[j] = recs[j], recs[i]
		}
		dns.setSRV(dom+r.suffix, recs)
	}
	return nil
}

// where says how address a is written in a URI.
func (r *run) where(a string) (host string, port int) {
	if s, ok := r.servers[a]; ok {
		if s.port == 5060 && r.sc.Style%2 == 1 {
			return s.ip, 0
		}
		return s.ip, s.port
	}
	if s, ok := r.sc.Cfg.Host[a]; ok {
		if _, ok := r.sc.Cfg.Srv[a]; !ok && r.servers[s].port != 5060 {
			return a + r.suffix, r.servers[s].port
		}
	}
	return a + r.suffix, 0
}

func (r *run) uriText(u URI) string {
	h, p := r.where(u.A)
	s := "sip:" + u.U + "@" + h
	if p != 0 {
		s += ":" + strconv.Itoa(p)
	}
	if u.LR {
		s += ";lr"
	}
	return s
}

func (r *run) uriVal(u URI) *sip.URI {
	h, p := r.where(u.A)
	res := &sip.URI{Scheme: "sip", User: u.U, Host: h, Port: uint16(p)}
	if u.LR {
		res.Param = &sip.URIParam{Name: "lr"}
	}
	return res
}

func (r *run) uriSeen(u rawURI) M {
	res := M{"u": u.user, "a": "", "lr": false}
	if u.scheme != "sip" {
		res["u"] = u.scheme + ":" + u.user
	}
	for _, p := range u.params {
		if p.name == "lr" {
			res["lr"] = true
		} else {
			res["u"] = fmt.Sprint(res["u"], ";", p.name, "=", p.value)
		}
	}
	a := u.host + ":" + port5060(u.port)
	if n, ok := r.byAddr[a]; ok {
		res["a"] = n
		return res
	}
	if strings.HasSuffix(u.host, r.suffix) {
		n := strings.TrimSuffix(u.host, r.suffix)
		if _, p := r.where(n); port5060(strconv.Itoa(p)) == port5060(u.port) || (p == 0 && u.port == "") {
			res["a"] = n
			return res
		}
	}
	res["a"] = "?" + a
	return res
}

// ---------------------------------------------------------------- recording

func (r *run) logEnv(m M) {
	m["k"] = "env"
	r.ev = append(r.ev, m)
}

// see records an observation; r must be locked.
func (r *run) see(stream string, o M) {
	r.obs[stream] = append(r.obs[stream], o)
	r.ev = append(r.ev, M{"k": "obs", "s": stream, "n": len(r.obs[stream]), "t": int(time.Since(began) / time.Millisecond)})
	r.cond.Broadcast()
}

func (r *run) app() {
	errs, states, peers := r.dl.OnErr, r.dl.OnState, r.dl.OnPeer
	names := map[int]string{dialog.Proceeding: "Proceeding", dialog.Ringing: "Ringing", dialog.Answered: "Answered", dialog.Hangup: "Hangup"}
	for errs != nil || states != nil || peers != nil {
		var o M
		time.Sleep(time.Duration(r.sc.Slow) * time.Millisecond)
		select {
		case e, ok := <-errs:
			if !ok {
				errs = nil
				continue
			}
			if re, ok := e.(*sip.ResponseError); ok {
				o = M{"k": "err", "c": "resp", "st": re.Msg.Status}
			} else if e == nil {
				o = M{"k": "err", "c": "nil", "st": 0}
			} else {
				o = M{"k": "err", "c": "other", "st": 0}
			}
		case s, ok := <-states:
			if !ok {
				states = nil
				continue
			}
			n, ok := names[s]
			if !ok {
				n = fmt.Sprint("state ", s)
			}
			o = M{"k": "state", "v": n}
		case p, ok := <-peers:
			if !ok {
				peers = nil
				continue
			}
			o = M{"k": "peer", "v": peerName(p)}
		}
		r.Lock()
		r.see("app", o)
		r.Unlock()
	}
	r.Lock()
	r.closed = true
	r.see("app", M{"k": "closed"})
	r.Unlock()
}

func peerName(p *net.UDPAddr) string {
	if p == nil {
		return "?nil"
	}
	for k := 1; k < 10; k++ {
		ip, port := peerAddr(fmt.Sprint("p", k))
		if p.Port == port && p.IP.Equal(net.ParseIP(ip)) {
			return fmt.Sprint("p", k)
		}
	}
	return "?" + p.String()
}

func peerAddr(n string) (string, int) {
	k, _ := strconv.Atoi(n[1:])
	switch k {
	case 6:
		return "2001:db8::6", 4006
	case 7: // the stream is declined
		return "10.0.0.7", 0
	case 8: // the call is put on hold
		return "0.0.0.0", 4008
	}
	return fmt.Sprintf("10.0.0.%d", k), 4000 + k
}

func (r *run) serve(s *server) {
	buf := make([]byte, 65536)
	conn, going := s.conn, false
	for {
		n, from, err := conn.ReadFromUDP(buf)
		if err != nil {
			if going {
				r.Lock()
				r.logEnv(M{"e": "kill", "s": s.name})
				conn.Close()
				s.conn = nil
				r.Unlock()
				close(s.dead)
			}
			return
		}
		text := string(buf[:n])
		if text == lastWord && from.String() == s.self.String() { // what was sent before it has been seen by now
			going = true
			conn.SetReadDeadline(time.Now().Add(time.Millisecond))
			continue
		}
		r.Lock()
		s.last = from
		r.packet(s, text, from)
		r.Unlock()
	}
}

const lastWord = "\x00no more\x00"

var began = time.Now()

var hops = regexp.MustCompile(`(?im)^(Max-Forwards|Timestamp):[^\r]*\r\n|;usi=[0-9]+`)

var branchesMu sync.Mutex
var branches = map[string]int{} // over all calls of this process

func (r *run) packet(s *server, text string, from *net.UDPAddr) {
	m := readMsg(text)
	o := M{"k": "?", "raw": text}
	defer func() {
		if recover() != nil {
			o["k"] = "?"
		}
		r.see(s.name, o)
	}()
	if !m.ok {
		return
	}
	cl := m.one("content-length")
	o["clen"] = cl == strconv.Itoa(len(m.body)) && m.count("content-length") == 1
	key := ""
	if m.start[0] == "SIP/2.0" {
		o["k"] = "resp"
		o["st"], _ = strconv.Atoi(m.start[1])
		id := -1
		vias := m.list("via")
		if len(vias) > 0 {
			b, _ := get(readVia(vias[0]).params, "branch")
			if strings.HasPrefix(b, "z9hG4bKr") {
				id, _ = strconv.Atoi(b[len("z9hG4bKr"):])
			}
		}
		o["id"] = id
		o["echo"] = r.echo(id, &m)
		key = fmt.Sprint("resp ", id, o["st"])
	} else {
		method := m.start[0]
		o["k"] = method
		if m.start[2] != "SIP/2.0" {
			o["k"] = "?version " + m.start[2]
		}
		r.curSrv = s.name
		vias := m.list("via")
		att := []interface{}{"", 0}
		fresh := false
		via := "own"
		o["nvia"] = len(vias)
		if len(vias) > 0 {
			v := readVia(vias[0])
			host, extra := from.IP.String(), ""
			if r.ownVia() && method != "BYE" {
				host, extra = viaHost, "[{x y} {rport }]"
			}
			var more []param
			for _, q := range v.params {
				if q.name != "branch" && (q.name != "usi" || !job.Chatty) {
					more = append(more, q)
				}
			}
			if v.proto != "SIP/2.0/UDP" || v.host != host || port5060(v.port) != strconv.Itoa(from.Port) || extra != "" && fmt.Sprint(more) != extra {
				via = vias[0]
			}
			b, _ := get(v.params, "branch")
			if b == "z9hG4bKtop" {
				att = []interface{}{"top", 0}
			} else if a, ok := r.branch[b]; ok {
				att = a
				fresh = a[0] == s.name
			} else if method == "INVITE" || method == "BYE" {
				r.natt[s.name]++
				att = []interface{}{s.name, r.natt[s.name]}
				r.branch[b], r.curAtt = att, att
				r.pkts[attKey(att)] = m
				branchesMu.Lock()
				branches[b]++
				fresh = strings.HasPrefix(b, "z9hG4bK") && len(b) > 10 && branches[b] == 1
				branchesMu.Unlock()
			} else {
				att = []interface{}{"unknown", 0}
			}
		}
		o["att"], o["fresh"], o["via"] = att, fresh, via
		o["uri"] = r.uriSeen(readURI(m.start[1]))
		routes := []M{}
		for _, x := range m.list("route") {
			routes = append(routes, r.uriSeen(readAddr(x).uri))
		}
		o["routes"] = routes
		cs := strings.Fields(m.one("cseq"))
		if len(cs) == 2 {
			o["cseq"], _ = strconv.Atoi(cs[0])
			o["cm"] = cs[1]
		} else {
			o["cseq"], o["cm"] = -1, ""
		}
		o["mf"], _ = strconv.Atoi(m.one("max-forwards"))
		if r.bare() && r.cid == "" && method == "INVITE" {
			r.learn(&m)
		}
		o["cid"] = m.one("call-id")
		if m.one("call-id") == r.callID() && m.count("call-id") == 1 {
			o["cid"] = "C"
		}
		f := readAddr(m.one("from"))
		ft, _ := get(f.params, "tag")
		o["from"] = m.one("from")
		if f.uri.user == "alice" && f.uri.host == "home.test" && ft == r.fromTag() && len(f.params) == 1 {
			o["from"] = "F"
		}
		if r.bare() && m.one("from") == r.ownFrom && ft != "" && len(f.params) == 1 && f.uri.scheme == "sip" && (r.ownContact() || r.sc.Style%4 == 1 || f.uri.host == from.IP.String()) {
			o["from"] = "F"
		}
		t := readAddr(m.one("to"))
		tt, _ := get(t.params, "tag")
		o["tag"] = tt
		o["to"] = m.one("to")
		if u := r.uriSeen(t.uri); u["u"] == r.sc.Cfg.URI.U && u["a"] == r.sc.Cfg.URI.A {
			o["to"] = "T"
		}
		o["contact"] = m.one("contact")
		c := readAddr(m.one("contact"))
		chost, cuser := from.IP.String(), ""
		if r.ownContact() {
			chost, cuser = viaHost, "al"
		}
		if m.count("contact") == 1 && c.uri.host == chost && c.uri.user == cuser && c.uri.scheme == "sip" {
			p := port5060(c.uri.port)
			if job.Loose {
				if p != strconv.Itoa(from.Port) && (r.cport == "" || r.cport == p) {
					o["contact"] = "own"
					r.cport = p
				}
			} else if p == strconv.Itoa(from.Port) {
				o["contact"] = "own"
			}
		}
		o["body"] = m.body
		if strings.Contains(m.body, "m=audio 5004 RTP/AVP 0 101\r\n") && strings.HasPrefix(m.one("content-type"), "application/sdp") &&
			strings.Contains(m.body, "c=IN IP4 127.0.0.1\r\n") && strings.Contains(m.body, " IN IP4 127.0.0.1\r\n") {
			o["body"] = "offer"
		}
		key = fmt.Sprint(method, att, o["cseq"])
	}
	norm := hops.ReplaceAllString(text, "")
	if f, ok := r.first[key]; !ok {
		r.first[key] = norm
		o["rep"] = "first"
		o["gap"] = 0
	} else {
		o["rep"] = "diff"
		if f == norm {
			o["rep"] = "same"
		}
		o["gap"] = int(time.Since(r.lastAt[key]) / time.Millisecond)
	}
	r.lastAt[key] = time.Now()
	if o["rep"] != "diff" {
		delete(o, "raw")
	}
}

func (r *run) callID() string {
	if r.bare() {
		return r.cid
	}
	return fmt.Sprintf("call-%d-%d@x", r.idx, r.sc.ID)
}
func (r *run) fromTag() string {
	if r.bare() {
		return r.ownTag
	}
	return fmt.Sprintf("ft%d", r.sc.ID)
}

// bare says whether the application leaves out what can be made up.
func (r *run) bare() bool { return r.sc.Style%6 == 5 && r.sc.Cfg.ToTag == "" && !r.sc.hostile() }

// learn takes over what was made up for the first INVITE.
func (r *run) learn(m *rawMsg) {
	r.cid, r.ownFrom = m.one("call-id"), m.one("from")
	r.ownTag, _ = get(readAddr(r.ownFrom).params, "tag")
	if cs := strings.Fields(m.one("cseq")); len(cs) == 2 {
		r.sc.Cfg.CSeq, _ = strconv.Atoi(cs[0])
	}
	branchesMu.Lock()
	defer branchesMu.Unlock()
	branches["call "+r.cid]++
	branches["tag "+r.ownTag]++
	if branches["call "+r.cid] > 1 || branches["tag "+r.ownTag] > 1 || r.sc.Cfg.CSeq <= 0 {
		r.cid = ""
	}
}

// echo compares the fields a response has to repeat.
func (r *run) echo(id int, m *rawMsg) string {
	q, ok := r.reqs[id]
	if !ok {
		return "id"
	}
	same := func(a, b []string, rd func(string) string) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if rd(a[i]) != rd(b[i]) {
				return false
			}
		}
		return true
	}
	addr := func(s string) string { return fmt.Sprint(readAddr(s)) }
	via := func(s string) string {
		v := readVia(s)
		var ps []param
		for _, p := range v.params {
			if p.name != "received" && p.name != "rport" && (p.name != "usi" || !job.Chatty) {
				ps = append(ps, p)
			}
		}
		v.params = ps
		return fmt.Sprint(v)
	}
	switch {
	case !same(q.list("via"), m.list("via"), via):
		return "via"
	case !same(q.list("from"), m.list("from"), addr):
		return "from"
	case !same(q.list("to"), m.list("to"), addr):
		return "to"
	case q.one("call-id") != m.one("call-id"):
		return "call-id"
	case strings.Join(strings.Fields(q.one("cseq")), " ") != strings.Join(strings.Fields(m.one("cseq")), " "):
		return "cseq"
	case !same(q.list("record-route"), m.list("record-route"), addr):
		return "record-route"
	}
	return ""
}

// ---------------------------------------------------------------- messages

var versions = []string{"3.0", "2.1", "1.0", "2.9", "0.0", "2.10", "12.0"}

func (r *run) body(name string) (string, string) {
	switch name {
	case "":
		return "", ""
	case "noaudio":
		return "application/sdp", "v=0\r\no=- 1 1 IN IP4 10.0.0.99\r\ns=x\r\nc=IN IP4 10.0.0.99\r\nt=0 0\r\nm=video 4999 RTP/AVP 31\r\n"
	case "badsdp":
		return "application/sdp", "v=0\r\no=- 1 1 IN IP4 h\r\nm=audio 70000 RTP/AVP x\r\na=\r\n=\r\n"
	case "sdp0":
		return "application/sdp", "v=0\r\n"
	case "novid":
		return "text/plain", "v=0\r\nc=IN IP4 10.0.0.98\r\nm=audio 4998 RTP/AVP 0\r\n"
	}
	ip, port := peerAddr(name)
	v := "IP4"
	if strings.Contains(ip, ":") {
		v = "IP6"
	}
	k := int(name[1] - '0')
	style := r.sc.Style + k
	origin := fmt.Sprintf("o=- 1 1 IN %s %s\r\n", v, ip)
	if style%2 == 1 { // whoever made the description need not be who receives the media
		origin = fmt.Sprintf("o=u %d 7 IN IP4 10.99.0.%d\r\n", 5000+k, k)
	}
	conn, late := fmt.Sprintf("c=IN %s %s\r\n", v, ip), ""
	if style%3 == 1 {
		conn, late = "", conn
	}
	audio := fmt.Sprintf("m=audio %d RTP/AVP 0 101\r\n%sa=rtpmap:101 telephone-event/8000\r\na=%s\r\n", port, late,
		[]string{"sendrecv", "sendonly", "recvonly", "inactive"}[style%4])
	video := fmt.Sprintf("m=video %d RTP/AVP 31\r\na=rtpmap:31 H261/90000\r\n", 7000+k)
	switch style / 2 % 4 {
	case 1:
		audio += video
	case 2:
		audio = video + audio
	}
	return "application/sdp", "v=0\r\n" + origin + "s=x\r\n" + conn + "t=0 0\r\n" + audio
}

func (r *run) tail(b *bytes.Buffer, st *Step) {
	if st.Contact.A != "" {
		switch c := r.uriText(st.Contact); {
		case r.sc.Style%7 == 3 && st.E == "resp" && st.St >= 300:
			fmt.Fprintf(b, "Contact: <%s>, <sip:second@10.6.6.6>;q=0.1\r\n", c)
		case r.sc.Style%7 == 4:
			fmt.Fprintf(b, "Contact: \"B, <b>\" <%s>;expires=60\r\n", c)
		default:
			fmt.Fprintf(b, "Contact: <%s>\r\n", c)
		}
	}
	if st.E == "resp" && st.St == 503 {
		b.WriteString("Retry-After: 5\r\n")
	}
	ct, body := r.body(st.Sdp)
	if ct != "" {
		fmt.Fprintf(b, "Content-Type: %s\r\n", ct)
	}
	fmt.Fprintf(b, "Content-Length: %d\r\n\r\n%s", len(body), body)
}

func (r *run) recordRoute(b *bytes.Buffer, st *Step) {
	if len(st.RR) == 0 {
		return
	}
	if r.sc.Style%3 == 1 {
		for _, u := range st.RR {
			fmt.Fprintf(b, "Record-Route: <%s>\r\n", r.uriText(u))
		}
		return
	}
	var l []string
	for _, u := range st.RR {
		l = append(l, "<"+r.uriText(u)+">")
	}
	fmt.Fprintf(b, "Record-Route: %s\r\n", strings.Join(l, ", "))
}

// foreign makes the Call-ID of another call of ours.
func foreign(cid, bad string) string {
	switch bad {
	case "callid":
		return "other" + cid
	case "callidsuf":
		return cid + "1"
	case "callidcut":
		return cid[1:] // the end is "@x", and "@" alone is no Call-ID
	case "callidcase":
		return strings.ToUpper(cid)
	}
	return cid
}

func (r *run) response(st *Step) (string, bool) {
	req, ok := r.pkts[attKey(st.Att)]
	if !ok {
		return "", false
	}
	var b bytes.Buffer
	v := "SIP/2.0"
	if st.Bad == "version" {
		v = "SIP/" + versions[r.sc.Style%len(versions)]
	}
	fmt.Fprintf(&b, "%s %d Whatever\r\n", v, st.St)
	if st.Bad == "via2" {
		b.WriteString("Via: SIP/2.0/UDP 10.9.9.9:5070;branch=z9hG4bKtop\r\n")
	}
	vias := req.list("via")
	for i, x := range vias {
		if i == len(vias)-1 {
			v := readVia(x)
			br, _ := get(v.params, "branch")
			port := v.port
			switch st.Bad {
			case "branch":
				br += "x"
			case "branch2":
				br = br[:len(br)-1]
			case "branch3":
				br = "z9hG4bK-0123456789ab"
			case "branchpre":
				br = "x" + br
			case "host":
				v.host = "127.9.9.9"
			case "host2":
				v.host += "0"
			case "port":
				k, _ := strconv.Atoi(port)
				port = strconv.Itoa(k%60000 + 1)
			}
			x = "SIP/2.0/UDP " + v.host + ":" + port
			if st.Bad == "noport" {
				x = "SIP/2.0/UDP " + v.host
			}
			if st.Bad != "nobranch" {
				x += ";branch=" + br
			}
			if r.sc.Style%4 == 2 {
				x += ";received=127.0.0.1"
			}
		}
		fmt.Fprintf(&b, "Via: %s\r\n", x)
	}
	r.recordRoute(&b, st)
	fmt.Fprintf(&b, "From: %s\r\n", req.one("from"))
	to := req.one("to")
	if st.Tag != "" && !strings.Contains(to, ";tag=") {
		to += ";tag=" + st.Tag
	}
	fmt.Fprintf(&b, "To: %s\r\n", to)
	cid := req.one("call-id")
	cid = foreign(cid, st.Bad)
	cs := strings.Fields(req.one("cseq"))
	n, _ := strconv.Atoi(cs[0])
	cm := cs[1]
	if st.M != "" {
		cm = st.M
	}
	fmt.Fprintf(&b, "Call-ID: %s\r\nCSeq: %d %s\r\n", cid, n+st.DCS, cm)
	r.tail(&b, st)
	return r.spell(b.String()), true
}

func (r *run) request(st *Step, id int, srv *server) string {
	var b bytes.Buffer
	v := "SIP/2.0"
	if st.Bad == "version" {
		v = "SIP/" + versions[r.sc.Style%len(versions)]
	}
	fmt.Fprintf(&b, "%s sip:alice@127.0.0.1 %s\r\n", st.M, v)
	fmt.Fprintf(&b, "Via: SIP/2.0/UDP %s:%d;branch=z9hG4bKr%d\r\n", srv.ip, srv.port, id)
	if r.sc.Style%3 == 2 {
		b.WriteString("Via: SIP/2.0/UDP 10.8.8.8:5080;branch=z9hG4bKother;rport=7;received=10.7.7.7\r\n")
	}
	r.recordRoute(&b, st)
	fmt.Fprintf(&b, "Max-Forwards: %d\r\n", st.MF)
	fmt.Fprintf(&b, "From: <sip:bob@far.test>;tag=rt1\r\nTo: <sip:alice@home.test>;tag=%s\r\n", r.fromTag())
	cid := r.callID()
	cid = foreign(cid, st.Bad)
	fmt.Fprintf(&b, "Call-ID: %s\r\nCSeq: %d %s\r\n", cid, st.CSeq, st.M)
	r.tail(&b, st)
	return r.spell(b.String())
}

var short = strings.NewReplacer("\r\nVia:", "\r\nv:", "\r\nFrom:", "\r\nf:", "\r\nTo:", "\r\nt :", "\r\nCall-ID:", "\r\nI:", "\r\nContact:", "\r\nm:",
	"\r\nContent-Type:", "\r\nc:", "\r\nContent-Length:", "\r\nl:", "\r\nCSeq: ", "\r\ncseq:\t", "\r\nRecord-Route:", "\r\nRECORD-ROUTE :")
var casual = strings.NewReplacer("\r\nVia:", "\r\nvia:", "\r\nFrom:", "\r\nfrom:", "\r\nTo:", "\r\nTO:", "\r\nCall-ID:", "\r\nCall-Id:", "\r\nContact: ", "\r\ncontact:\r\n ",
	"\r\nContent-Length:", "\r\ncontent-length:", "\r\nCSeq:", "\r\nX-Y: z\r\nCSEQ:")

// spell writes the header of a message another way.
func (r *run) spell(text string) string {
	end := strings.Index(text, "\r\n\r\n")
	switch {
	case r.sc.hostile() || end < 0:
		return text
	case r.sc.Style%7 == 1:
		return short.Replace(text[:end]) + text[end:]
	case r.sc.Style%7 == 5:
		return casual.Replace(text[:end]) + text[end:]
	}
	return text
}

func (s *Scenario) hostile() bool {
	for i := range s.Steps {
		if s.Steps[i].E == "hostile" {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- schedule

func (r *run) wait(want map[string]int, d time.Duration) bool {
	deadline := time.Now().Add(d)
	stop := time.AfterFunc(d, func() { r.Lock(); r.cond.Broadcast(); r.Unlock() })
	defer stop.Stop()
	r.Lock()
	defer r.Unlock()
	for {
		ok := true
		for s, n := range want {
			if len(r.obs[s]) < n {
				ok = false
			}
		}
		if ok {
			return true
		}
		if !time.Now().Before(deadline) {
			return false
		}
		r.cond.Wait()
	}
}

func (r *run) waitClosed(d time.Duration) bool {
	deadline := time.Now().Add(d)
	for time.Now().Before(deadline) {
		r.Lock()
		c := r.closed
		r.Unlock()
		if c {
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return false
}

func (r *run) deliver(srv *server, text string, loose bool) {
	if srv.conn == nil || srv.last == nil && !loose {
		return
	}
	to := srv.last
	if loose {
		p, _ := strconv.Atoi(r.cport)
		to = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: p}
	}
	srv.conn.WriteToUDP([]byte(text), to)
}

func (r *run) message(st *Step) {
	r.Lock()
	defer r.Unlock()
	srv, ok := r.servers[st.From]
	if !ok || srv.conn == nil || (srv.last == nil && !st.Loose) || (st.Loose && r.cport == "") {
		r.skipped++
		return
	}
	var text string
	contact := M{"u": st.Contact.U, "a": st.Contact.A, "lr": st.Contact.LR}
	rr := []M{}
	for _, u := range st.RR {
		rr = append(rr, M{"u": u.U, "a": u.A, "lr": u.LR})
	}
	if st.E == "resp" {
		if text, ok = r.response(st); !ok {
			r.skipped++
			return
		}
		method := st.M
		if method == "" {
			p := r.pkts[attKey(st.Att)]
			method = strings.Fields(p.one("cseq"))[1]
		}
		tag := st.Tag
		p := r.pkts[attKey(st.Att)]
		if t, ok := get(readAddr(p.one("to")).params, "tag"); ok {
			tag = t
		}
		r.logEnv(M{"e": "resp", "from": st.From, "att": st.Att, "st": st.St, "m": method, "dcs": st.DCS, "bad": st.Bad,
			"contact": contact, "tag": tag, "rr": rr, "sdp": st.Sdp, "loose": st.Loose})
	} else {
		r.nextID++
		id := r.nextID
		text = r.request(st, id, srv)
		r.reqs[id] = readMsg(text)
		r.logEnv(M{"e": "req", "from": st.From, "m": st.M, "cseq": st.CSeq, "bad": st.Bad, "mf": st.MF, "contact": contact,
			"rr": rr, "sdp": st.Sdp, "id": id, "loose": st.Loose})
	}
	r.deliver(srv, text, st.Loose)
}

// hostile sends a message of the call with parts missing, odd or damaged.
func (r *run) hostile(st *Step) {
	r.Lock()
	defer r.Unlock()
	srv := r.servers[st.From]
	if r.closed || srv.conn == nil || srv.last == nil {
		return
	}
	x := *st
	x.E = "resp"
	text, ok := "", true
	if st.St > 0 {
		if text, ok = r.response(&x); !ok {
			return
		}
	} else {
		x.E = "req"
		r.nextID++
		text = r.request(&x, r.nextID, srv)
		r.reqs[r.nextID] = readMsg(text)
	}
	end := strings.Index(text, "\r\n\r\n")
	lines := strings.Split(text[:end], "\r\n")
	out := lines[:1]
	for _, l := range lines[1:] {
		keep := true
		for _, d := range st.Drop {
			keep = keep && !strings.HasPrefix(l, d+":")
		}
		if keep {
			out = append(out, l)
		}
	}
	b := []byte(strings.Join(append(out, st.Put...), "\r\n") + text[end:])
	for _, d := range st.Dmg {
		at := len(b) * d[1] / 1000
		switch d[0] {
		case 0:
			b[at] = byte(d[2])
		case 1:
			b = append(b[:at:at], b[at+1:]...)
		case 2:
			b = append(b[:at:at], append([]byte{byte(d[2])}, b[at:]...)...)
		case 3:
			b = b[:at+1]
		}
	}
	txt := make([]int, len(b))
	for i, c := range b {
		txt[i] = int(c)
	}
	r.logEnv(M{"e": "hostile", "txt": txt})
	r.deliver(srv, string(b), false)
}

var garbage = []string{
	"", "\r\n\r\n", "hello\r\n\r\n", "SIP/2.0 200 OK\r\n\r\n", "BYE sip:a@b SIP/2.0\r\nCSeq: 99 BYE\r\n\r\n",
	"SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP 1.2.3.4\r\nContent-Length: 99\r\n\r\n", "\x00\x01\x02",
	"BYE sip:a@b SIP/2.0\r\nVia: SIP/2.0/UDP 1.2.3.4;branch=z9hG4bKr7\r\nCSeq: 99 BYE\r\nCall-ID: ",
}

// settle waits until nothing comes any more, for the moment.
func (r *run) settle() {
	n := -1
	for i := 0; i < 12; i++ {
		r.Lock()
		m := len(r.ev)
		r.Unlock()
		if m == n {
			return
		}
		n = m
		time.Sleep(15 * time.Millisecond)
	}
}

func (r *run) play() {
	sc := r.sc
	want := map[string]int{}
	unit := 2500 * time.Millisecond
	if sc.Burst && job.Interval == 0 {
		unit = 300 * time.Millisecond // its messages may overtake each other, and it goes differently
	}
	if job.Interval > 0 {
		unit += time.Duration(job.Interval) * time.Millisecond
	}
	for i := range sc.Steps {
		st := &sc.Steps[i]
		if st.Auto && st.E != "start" {
			r.Lock()
			st.From, st.Att = r.curSrv, r.curAtt
			r.Unlock()
			if st.From == "" {
				continue
			}
		}
		switch st.E {
		case "start":
			r.Lock()
			r.logEnv(M{"e": "start"})
			r.Unlock()
			r.start()
		case "resp", "req":
			r.message(st)
		case "hostile":
			r.hostile(st)
		case "hangup":
			r.Lock()
			ok := r.hangups < promised || len(r.dl.Hangup) < cap(r.dl.Hangup)
			if ok {
				r.logEnv(M{"e": "hangup"})
			}
			r.Unlock()
			if ok {
				r.hangup()
			}
		case "tick":
			time.Sleep(time.Duration(job.Interval) * time.Millisecond)
		case "kill":
			r.Lock()
			s := r.servers[st.S]
			if s == nil || s.conn == nil {
				r.Unlock()
				break
			}
			conn := s.conn
			r.Unlock()
			for gone := false; !gone; {
				conn.WriteToUDP([]byte(lastWord), s.self)
				select {
				case <-s.dead:
					gone = true
				case <-time.After(200 * time.Millisecond):
				}
			}
		case "alien":
			r.Lock()
			var to *net.UDPAddr
			if s := r.servers[r.curSrv]; s != nil {
				to = s.last
			}
			if to != nil {
				r.nextID++
				x := Step{E: "req", M: "BYE", CSeq: 5000, MF: 70}
				r.logEnv(M{"e": "alien"})
				r.alien.WriteToUDP([]byte(r.request(&x, r.nextID, &server{ip: r.ip(200), port: 9})), to)
			}
			r.Unlock()
		case "garbage":
			r.Lock()
			if s := r.servers[r.curSrv]; s != nil && s.conn != nil && s.last != nil {
				r.logEnv(M{"e": "garbage"})
				r.deliver(s, garbage[(sc.Style+i)%len(garbage)], false)
			}
			r.Unlock()
		}
		if st.Auto && !st.NoWait {
			for n := 0; st.E == "start" && n < 200; n++ {
				r.Lock()
				some := len(r.ev) > 1
				r.Unlock()
				if some {
					break
				}
				time.Sleep(10 * time.Millisecond)
			}
			r.settle()
			continue
		}
		if st.Pause > 0 {
			time.Sleep(time.Duration(st.Pause) * time.Millisecond)
		}
		for _, s := range st.Exp {
			want[s]++
		}
		if !st.NoWait {
			d := unit
			if r.stalled {
				d = 30 * time.Millisecond
			}
			if !r.wait(want, d) {
				r.stalled = true
			}
		}
	}
	if !r.wait(want, map[bool]time.Duration{true: 30 * time.Millisecond, false: unit}[r.stalled]) {
		r.stalled = true
	}
	switch sc.End {
	case "bye":
		r.Lock()
		c := r.closed
		cur := r.curSrv
		r.Unlock()
		if !c && cur != "" {
			if job.Interval > 0 {
				time.Sleep(10 * time.Millisecond)
			}
			r.message(&Step{E: "req", From: cur, M: "BYE", CSeq: 900000, MF: 70})
		}
		r.waitClosed(3 * time.Second)
	case "idle":
		n := len(sc.Cfg.Servers) + 2
		for _, c := range sc.Cfg.Srv {
			n += len(c)
		}
		r.waitClosed(3*time.Second + time.Duration(n*(sc.Cfg.Max+2)*job.Interval)*time.Millisecond)
	}
	r.Lock()
	c := r.closed
	r.Unlock()
	if c && r.hangups < promised { // as an application does that doesn't know yet
		r.hangup()
	}
}

const promised = 4 // so often the application can hang up without waiting for anything

func (r *run) hangup() {
	r.hangups++
	select {
	case r.dl.Hangup <- true:
	case <-time.After(300 * time.Millisecond):
		r.stuck = 1
	}
}

// What the application gives the INVITE besides the minimum.
func (r *run) ownVia() bool     { return r.sc.Style/12%3 == 1 }
func (r *run) ownContact() bool { return r.sc.Style/12%3 == 2 }

const viaHost = "198.51.100.7"

func (r *run) start() {
	c := &r.sc.Cfg
	inv := &sip.Msg{
		Method: sip.MethodInvite, Request: r.uriVal(c.URI), CSeq: c.CSeq, CSeqMethod: sip.MethodInvite,
		MaxForwards: c.MF, CallID: r.callID(),
		From: &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "alice", Host: "home.test"}, Param: &sip.Param{Name: "tag", Value: r.fromTag()}},
		To:   &sip.Addr{Uri: r.uriVal(c.URI)},
		Payload: &sdp.SDP{
			Origin: sdp.Origin{ID: "", Addr: ""},
			Audio:  &sdp.Media{Proto: "RTP/AVP", Port: 5004, Codecs: []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec}},
		},
	}
	if r.bare() {
		inv.CallID, inv.CSeq, inv.CSeqMethod, inv.From, inv.To = "", 0, "", nil, nil
		if r.sc.Style%4 == 1 {
			inv.From = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "al", Host: viaHost}}
		}
	}
	if r.ownVia() {
		inv.Via = &sip.Via{Host: viaHost, Port: 9, Param: &sip.Param{Name: "rport", Next: &sip.Param{Name: "x", Value: "y"}}}
	}
	if r.ownContact() {
		inv.Contact = &sip.Addr{Display: "Al", Uri: &sip.URI{Scheme: "sip", User: "al", Host: viaHost}}
	}
	if c.ToTag != "" {
		inv.To.Param = &sip.Param{Name: "tag", Value: c.ToTag}
	}
	var last *sip.Addr
	for _, u := range c.Route {
		a := &sip.Addr{Uri: r.uriVal(u)}
		if last == nil {
			inv.Route = a
		} else {
			last.Next = a
		}
		last = a
	}
	pprof.Do(context.Background(), pprof.Labels("call", fmt.Sprintf("c%d.", r.idx)), func(context.Context) {
		dl, err := dialog.NewDialog(inv)
		if err != nil {
			panic(err)
		}
		r.dl = dl
	})
	go r.app()
}

type result struct {
	ID      int            `json:"id"`
	Cfg     Cfg            `json:"cfg"`
	Int     int            `json:"interval"`
	Ev      []M            `json:"ev"`
	Obs     map[string][]M `json:"obs"`
	Stalled bool           `json:"stalled"`
	Skipped int            `json:"skipped"`
	Leak    string         `json:"leakinfo"`
	CID     string         `json:"cid"`
	r       *run
}

func main() {
	in := flag.String("in", "", "job")
	out := flag.String("out", "", "result")
	verbose := flag.Bool("v", false, "")
	interval := flag.Lookup("resendInterval")
	flag.Parse()
	if !*verbose {
		log.SetOutput(ioutil.Discard)
	}
	data, err := ioutil.ReadFile(*in)
	check(err)
	check(json.Unmarshal(data, &job))
	if job.Interval > 0 {
		interval.Value.Set(strconv.Itoa(job.Interval))
	} else {
		interval.Value.Set("3600000")
	}
	flag.Set("maxResends", strconv.Itoa(job.Max))
	flag.Set("looseSignalling", strconv.FormatBool(job.Loose))
	flag.Set("trace", strconv.FormatBool(job.Chatty))
	flag.Set("timestampTagging", strconv.FormatBool(job.Chatty))
	check(startDNS())
	for netA = 10 + os.Getpid()%200; ; netA++ {
		if netA > 250 {
			netA = 10
		}
		lockSock, err = net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, byte(netA), 255, 254), Port: 999})
		if err == nil {
			break
		}
	}
	if job.Parallel == 0 {
		job.Parallel = 50
	}
	var results []*result
	for from := 0; from < len(job.Scenarios); from += 200 {
		to := from + 200
		if to > len(job.Scenarios) {
			to = len(job.Scenarios)
		}
		results = append(results, batch(job.Scenarios[from:to])...)
	}
	b, err := json.Marshal(results)
	check(err)
	check(ioutil.WriteFile(*out, b, 0644))
}

func batch(scs []Scenario) (res []*result) {
	sem := make(chan bool, job.Parallel)
	var wg sync.WaitGroup
	for i := range scs {
		r := &run{sc: &scs[i], idx: i + 1, servers: map[string]*server{}, byAddr: map[string]string{}, obs: map[string][]M{},
			branch: map[string][]interface{}{}, natt: map[string]int{}, pkts: map[string]rawMsg{}, first: map[string]string{},
			lastAt: map[string]time.Time{}, reqs: map[int]rawMsg{}}
		r.cond = sync.NewCond(r)
		x := &result{ID: scs[i].ID, Cfg: scs[i].Cfg, Int: job.Interval, CID: r.callID(), r: r}
		res = append(res, x)
		r.obs["app"] = []M{}
		for _, s := range r.sc.Cfg.Servers {
			r.obs[s] = []M{}
		}
		check(r.setup())
		for _, s := range r.servers {
			if s.conn != nil {
				go r.serve(s)
			}
		}
		wg.Add(1)
		go func() {
			sem <- true
			r.play()
			<-sem
			wg.Done()
		}()
	}
	wg.Wait()
	time.Sleep(40 * time.Millisecond)
	leaks := leftovers(res)
	for _, x := range res {
		r := x.r
		r.Lock()
		leak := 0
		if r.closed {
			x.Leak = leaks[r.idx]
			if x.Leak != "" {
				leak = 1
			}
		}
		r.ev = append(r.ev, M{"k": "end", "leak": leak, "stuck": r.stuck, "crash": false})
		x.CID, x.Cfg = r.callID(), r.sc.Cfg
		x.Ev, x.Obs, x.Stalled, x.Skipped = r.ev, r.obs, r.stalled, r.skipped
		r.obs = map[string][]M{} // late packets are not part of the recording
		for _, s := range r.servers {
			if s.conn != nil {
				s.conn.Close()
			}
		}
		r.alien.Close()
		// The recording must not grow any more.
		ev := make([]M, len(x.Ev))
		copy(ev, x.Ev)
		x.Ev = ev
		r.Unlock()
	}
	return
}

var labelRE = regexp.MustCompile(`"call":"c(\d+)\."`)

// leftovers finds goroutines and sockets of finished calls.
func leftovers(res []*result) map[int]string {
	var leaks map[int]string
	for try := 0; try < 40; try++ {
		leaks = map[int]string{}
		var b bytes.Buffer
		pprof.Lookup("goroutine").WriteTo(&b, 1)
		for _, m := range labelRE.FindAllStringSubmatch(b.String(), -1) {
			k, _ := strconv.Atoi(m[1])
			leaks[k] += "goroutine "
		}
		for _, l := range sockets() {
			for _, x := range res {
				if l.remote == netA<<8|x.r.idx || (x.r.cport != "" && l.lport == x.r.cport && l.remote == 0) {
					leaks[x.r.idx] += "socket "
				}
			}
		}
		n := 0
		for _, x := range res {
			if x.r.closed && leaks[x.r.idx] != "" {
				n++
			}
		}
		if n == 0 {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	return leaks
}

type sockLine struct {
	remote int // second and third octet of the address it is connected to
	lport  string
}

// sockets lists the UDP sockets of this process.
func sockets() (res []sockLine) {
	own := map[string]bool{}
	fds, _ := ioutil.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
			own[l[8:len(l)-1]] = true
		}
	}
	for _, file := range []string{"/proc/self/net/udp", "/proc/self/net/udp6"} {
		data, _ := ioutil.ReadFile(file)
		for _, line := range strings.Split(string(data), "\n") {
			f := strings.Fields(line)
			if len(f) < 10 || !own[f[9]] {
				continue
			}
			rem := 0
			if len(f[2]) == 13 {
				v, _ := strconv.ParseUint(f[2][:8], 16, 32) // little endian
				if v&0xff == 127 {
					rem = int(v>>8&0xff)<<8 | int(v>>16&0xff)
				}
			}
			lp := f[1][strings.LastIndexByte(f[1], ':')+1:]
			p, _ := strconv.ParseUint(lp, 16, 16)
			res = append(res, sockLine{rem, strconv.Itoa(int(p))})
		}
	}
	return
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "dialogdrv:", err)
		os.Exit(3)
	}
}
