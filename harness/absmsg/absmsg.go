// Package absmsg converts between SIP messages and the form in which the
// specification sees them: bytes as lists of numbers, numbers as digits.
package absmsg

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/jart/gosip/sip"
)

type Bytes []int

type Pair [2]Bytes

type URI struct {
	Scheme Bytes  `json:"scheme"`
	User   Bytes  `json:"user"`
	Pass   Bytes  `json:"pass"`
	Host   Bytes  `json:"host"`
	Port   Bytes  `json:"port"`
	Par    []Pair `json:"par"`
	Hdr    []Pair `json:"hdr"`
}

type Addr struct {
	Disp Bytes  `json:"disp"`
	Uri  URI    `json:"uri"`
	Par  []Pair `json:"par"`
}

type Via struct {
	Pr   Bytes  `json:"pr"`
	Ve   Bytes  `json:"ve"`
	Tr   Bytes  `json:"tr"`
	Host Bytes  `json:"host"`
	Port Bytes  `json:"port"`
	Par  []Pair `json:"par"`
}

type Body struct {
	Has bool  `json:"has"`
	T   Bytes `json:"t"`
	D   Bytes `json:"d"`
}

// Str is a header field that is plain text.
type Str struct {
	Name  string
	Value Bytes
}

type Msg struct {
	Req     bool            `json:"req"`
	Vmaj    Bytes           `json:"vmaj"`
	Vmin    Bytes           `json:"vmin"`
	Method  Bytes           `json:"method"`
	Uri     URI             `json:"uri"`
	Status  int             `json:"status"`
	Phrase  Bytes           `json:"phrase"`
	From    []Addr          `json:"from"`
	To      []Addr          `json:"to"`
	Contact []Addr          `json:"contact"`
	Route   []Addr          `json:"route"`
	RR      []Addr          `json:"rr"`
	PAI     []Addr          `json:"pai"`
	RPID    []Addr          `json:"rpid"`
	Via     []Via           `json:"via"`
	CallID  Bytes           `json:"callid"`
	CSeq    Bytes           `json:"cseq"`
	CSeqM   Bytes           `json:"cseqm"`
	Exp     Bytes           `json:"exp"`
	MaxF    Bytes           `json:"maxf"`
	MinExp  Bytes           `json:"minexp"`
	Str     [][]interface{} `json:"str"`
	X       []Pair          `json:"x"`
	Body    Body            `json:"body"`
}

// StrNames lists the plain text header fields, in the specification's order.
var StrNames = []string{"Accept", "Accept-Contact", "Accept-Encoding", "Accept-Language", "Alert-Info", "Allow", "Allow-Events",
	"Authentication-Info", "Authorization", "Call-Info", "Content-Disposition", "Content-Encoding", "Content-Language", "Date",
	"Error-Info", "Event", "In-Reply-To", "MIME-Version", "Organization", "Priority", "Proxy-Authenticate", "Proxy-Authorization",
	"Proxy-Require", "Refer-To", "Referred-By", "Reply-To", "Require", "Retry-After", "Server", "Subject", "Supported", "Timestamp",
	"Unsupported", "User-Agent", "Warning", "WWW-Authenticate"}

func FromBytes(b []byte) Bytes {
	r := make(Bytes, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

func FromString(s string) Bytes { return FromBytes([]byte(s)) }

func (b Bytes) Raw() []byte {
	r := make([]byte, len(b))
	for i, c := range b {
		r[i] = byte(c)
	}
	return r
}

func (b Bytes) String() string { return string(b.Raw()) }

func (b Bytes) Int() int {
	n, _ := strconv.Atoi(b.String())
	return n
}

func digits(n int) Bytes { return FromString(strconv.Itoa(n)) }

func rev(p []Pair) []Pair {
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func AbsURI(u *sip.URI) URI {
	if u == nil {
		u = &sip.URI{}
	}
	r := URI{FromString(u.Scheme), FromString(u.User), FromString(u.Pass), FromString(u.Host), digits(int(u.Port)), []Pair{}, []Pair{}}
	for p := u.Param; p != nil; p = p.Next {
		r.Par = append(r.Par, Pair{FromString(p.Name), FromString(p.Value)})
	}
	for p := u.Header; p != nil; p = p.Next {
		r.Hdr = append(r.Hdr, Pair{FromString(p.Name), FromString(p.Value)})
	}
	rev(r.Par)
	rev(r.Hdr)
	return r
}

func params(p *sip.Param) []Pair {
	r := []Pair{}
	for ; p != nil; p = p.Next {
		r = append(r, Pair{FromString(p.Name), FromString(p.Value)})
	}
	return rev(r)
}

func AbsAddrs(a *sip.Addr) []Addr {
	r := []Addr{}
	for ; a != nil; a = a.Next {
		r = append(r, Addr{FromString(a.Display), AbsURI(a.Uri), params(a.Param)})
	}
	return r
}

func AbsVias(v *sip.Via) []Via {
	r := []Via{}
	for ; v != nil; v = v.Next {
		r = append(r, Via{FromString(v.Protocol), FromString(v.Version), FromString(v.Transport), FromString(v.Host), digits(int(v.Port)),
			params(v.Param)})
	}
	return r
}

func field(m *sip.Msg, name string) reflect.Value {
	return reflect.ValueOf(m).Elem().FieldByName(strings.Replace(name, "-", "", -1))
}

func AbsMsg(m *sip.Msg) *Msg {
	r := &Msg{Req: !m.IsResponse(), Vmaj: digits(int(m.VersionMajor)), Vmin: digits(int(m.VersionMinor)), Method: FromString(m.Method),
		Uri: AbsURI(m.Request), Status: m.Status, Phrase: FromString(m.Phrase),
		From: AbsAddrs(m.From), To: AbsAddrs(m.To), Contact: AbsAddrs(m.Contact), Route: AbsAddrs(m.Route), RR: AbsAddrs(m.RecordRoute),
		PAI: AbsAddrs(m.PAssertedIdentity), RPID: AbsAddrs(m.RemotePartyID), Via: AbsVias(m.Via),
		CallID: FromString(m.CallID), CSeq: digits(m.CSeq), CSeqM: FromString(m.CSeqMethod), Exp: digits(m.Expires),
		MaxF: digits(m.MaxForwards), MinExp: digits(m.MinExpires), Str: [][]interface{}{}, X: []Pair{}, Body: Body{false, Bytes{}, Bytes{}}}
	for _, n := range StrNames {
		if s := field(m, n).String(); s != "" {
			r.Str = append(r.Str, []interface{}{n, FromString(s)})
		}
	}
	for x := m.XHeader; x != nil; x = x.Next {
		r.X = append(r.X, Pair{FromString(x.Name), FromBytes(x.Value)})
	}
	rev(r.X)
	if m.Payload != nil {
		r.Body = Body{true, FromString(m.Payload.ContentType()), FromBytes(m.Payload.Data())}
	}
	return r
}

func BuildURI(u URI) *sip.URI {
	r := &sip.URI{Scheme: u.Scheme.String(), User: u.User.String(), Pass: u.Pass.String(), Host: u.Host.String(), Port: uint16(u.Port.Int())}
	for _, p := range u.Par {
		r.Param = &sip.URIParam{p[0].String(), p[1].String(), r.Param}
	}
	for _, p := range u.Hdr {
		r.Header = &sip.URIHeader{p[0].String(), p[1].String(), r.Header}
	}
	return r
}

func buildParams(ps []Pair) *sip.Param {
	var r *sip.Param
	for _, p := range ps {
		r = &sip.Param{p[0].String(), p[1].String(), r}
	}
	return r
}

func BuildAddrs(as []Addr) *sip.Addr {
	var first *sip.Addr
	next := &first
	for _, a := range as {
		*next = &sip.Addr{Uri: BuildURI(a.Uri), Display: a.Disp.String(), Param: buildParams(a.Par)}
		next = &(*next).Next
	}
	return first
}

func BuildVias(vs []Via) *sip.Via {
	var first *sip.Via
	next := &first
	for _, v := range vs {
		*next = &sip.Via{Protocol: v.Pr.String(), Version: v.Ve.String(), Transport: v.Tr.String(), Host: v.Host.String(),
			Port: uint16(v.Port.Int()), Param: buildParams(v.Par)}
		next = &(*next).Next
	}
	return first
}

func toBytes(x interface{}) Bytes {
	r := Bytes{}
	for _, v := range x.([]interface{}) {
		r = append(r, int(v.(float64)))
	}
	return r
}

func BuildMsg(m *Msg) *sip.Msg {
	r := &sip.Msg{VersionMajor: uint8(m.Vmaj.Int()), VersionMinor: uint8(m.Vmin.Int()), Status: m.Status, Phrase: m.Phrase.String(),
		From: BuildAddrs(m.From), To: BuildAddrs(m.To), Contact: BuildAddrs(m.Contact), Route: BuildAddrs(m.Route),
		RecordRoute: BuildAddrs(m.RR), PAssertedIdentity: BuildAddrs(m.PAI), RemotePartyID: BuildAddrs(m.RPID), Via: BuildVias(m.Via),
		CallID: m.CallID.String(), CSeq: m.CSeq.Int(), CSeqMethod: m.CSeqM.String(), Expires: m.Exp.Int(), MaxForwards: m.MaxF.Int(),
		MinExpires: m.MinExp.Int()}
	if m.Req {
		r.Method = m.Method.String()
		r.Request = BuildURI(m.Uri)
	}
	for _, s := range m.Str {
		field(r, s[0].(string)).SetString(toBytes(s[1]).String())
	}
	for _, x := range m.X {
		r.XHeader = &sip.XHeader{x[0].String(), x[1].Raw(), r.XHeader}
	}
	if m.Body.Has {
		r.Payload = &sip.MiscPayload{T: m.Body.T.String(), D: m.Body.D.Raw()}
	}
	return r
}
