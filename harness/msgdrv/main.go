// msgdrv runs abstract messages through the functions of the dialog package
// that complete, route, derive and compare messages, and through copying.
// One JSON case per line in, one JSON record per line out.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"time"

	"verifharness/absmsg"
	"verifharness/fakedns"
	"verifharness/together"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
)

type Case struct {
	Id      int             `json:"id"`
	Op      string          `json:"op"`
	Fn      string          `json:"fn"`
	Msg     *absmsg.Msg     `json:"msg,omitempty"`
	Other   *absmsg.Msg     `json:"other,omitempty"`
	Via     []absmsg.Via    `json:"via"`
	Contact []absmsg.Addr   `json:"contact"`
	Addrs   []absmsg.Addr   `json:"addrs"`
	Status  int             `json:"status"`
	Lseq    int             `json:"lseq"`
	N       int             `json:"n"`
	Host    string          `json:"host"`
	Port    int             `json:"port"`
	Want    bool            `json:"want"`
	Dns     *fakedns.Config `json:"dns,omitempty"`
	Vias2   []absmsg.Via    `json:"vias2,omitempty"`
	Names   []absmsg.Bytes  `json:"names,omitempty"`
}

type Res struct {
	State  string        `json:"state"` // ok, error, panic, hang
	Note   string        `json:"note"`
	Msg    *absmsg.Msg   `json:"msg,omitempty"`
	Again  *absmsg.Msg   `json:"again,omitempty"` // the inputs afterwards
	Again2 *absmsg.Msg   `json:"again2,omitempty"`
	Via    []absmsg.Via  `json:"via"`
	Cont   []absmsg.Addr `json:"contact"`
	OldVia []absmsg.Via  `json:"oldvia"` // the caller's own Via and From afterwards
	OldFrm []absmsg.Addr `json:"oldfrom"`
	OldRt  []absmsg.Addr `json:"oldroute"` // the list of routes the caller gave
	Host   absmsg.Bytes  `json:"host"`
	Port   int           `json:"port"`
	Lseq   int           `json:"lseq"`
	Match  bool          `json:"match"`
	Ids    Ids           `json:"ids"`
	Routes []string      `json:"routes"`
	Copy   Copy          `json:"copy"`
	Lists  *Lists        `json:"lists,omitempty"`
}

// Lists: what the helpers say about lists of addresses (addrs, contact) and Vias (via, vias2).
type Lists struct {
	Len    int             `json:"len"`
	Last   []absmsg.Addr   `json:"last"`
	Rev    []absmsg.Addr   `json:"rev"`
	Addrs  []absmsg.Addr   `json:"addrs"` // afterwards
	Or     []absmsg.Addr   `json:"or"`
	VLast  []absmsg.Via    `json:"vlast"`
	Detach []absmsg.Via    `json:"detach"`
	Vias   []absmsg.Via    `json:"vias"` // afterwards
	Ports  []int           `json:"ports"`
	VPorts []int           `json:"vports"`
	CmpA   [][]bool        `json:"cmpa"`
	CmpU   [][]bool        `json:"cmpu"`
	CmpV   [][]bool        `json:"cmpv"`
	CmpB   [][]bool        `json:"cmpb"`
	Nil    []bool          `json:"nil"` // comparisons with nothing
	Get    [][]absmsg.Pair `json:"get"`
	Tag    []absmsg.Addr   `json:"tag"`
	Branch []absmsg.Via    `json:"branch"`
	Phrase absmsg.Bytes    `json:"phrase"`
	Kept   bool            `json:"kept"` // helpers that return a part return that part and not a copy
}

type Ids struct {
	Branch []string `json:"branch"`
	Tag    []string `json:"tag"`
	CallID []string `json:"callid"`
}

type Copy struct {
	Same   bool     `json:"same"`   // the copy serialises like the original
	Shared []string `json:"shared"` // objects reachable from both
	Leaves int      `json:"leaves"` // places changed
	Leaks  []string `json:"leaks"`  // changes that showed on the other side
	Dead   []string `json:"dead"`   // changes that had no effect on their own side
}

type Rec struct {
	Case
	Res Res `json:"res"`
}

func guard(f func() Res) (p Res) {
	done := make(chan Res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- Res{State: "panic", Note: fmt.Sprint(r)}
			}
		}()
		done <- f()
	}()
	select {
	case p = <-done:
	case <-time.After(20 * time.Second):
		p = Res{State: "hang"}
	}
	if p.Via == nil {
		p.Via = []absmsg.Via{}
	}
	if p.Cont == nil {
		p.Cont = []absmsg.Addr{}
	}
	if p.OldVia == nil {
		p.OldVia = []absmsg.Via{}
	}
	if p.OldFrm == nil {
		p.OldFrm = []absmsg.Addr{}
	}
	if p.OldRt == nil {
		p.OldRt = []absmsg.Addr{}
	}
	if p.Host == nil {
		p.Host = absmsg.Bytes{}
	}
	if p.Routes == nil {
		p.Routes = []string{}
	}
	for _, l := range []*[]string{&p.Ids.Branch, &p.Ids.Tag, &p.Ids.CallID, &p.Copy.Shared, &p.Copy.Leaks, &p.Copy.Dead} {
		if *l == nil {
			*l = []string{}
		}
	}
	return
}

func ser(x interface{}) string {
	var b bytes.Buffer
	switch y := x.(type) {
	case *sip.Msg:
		y.Append(&b)
	case *sip.Addr:
		y.Append(&b)
	case *sip.Via:
		for ; y != nil; y = y.Next {
			y.Append(&b)
			b.WriteString("\n")
		}
	case *sip.URI:
		y.Append(&b)
	}
	return b.String()
}

func copyOf(x interface{}) interface{} {
	switch y := x.(type) {
	case *sip.Msg:
		return y.Copy()
	case *sip.Addr:
		return y.Copy()
	case *sip.Via:
		return y.Copy()
	case *sip.URI:
		return y.Copy()
	}
	panic("unknown type")
}

func part(c Case) interface{} {
	m := absmsg.BuildMsg(c.Msg)
	switch c.Fn {
	case "msg":
		return m
	case "addr":
		return m.Contact
	case "via":
		return m.Via
	case "uri":
		return m.From.Uri
	}
	panic("unknown part " + c.Fn)
}

func copyCase(c Case) Res {
	var r Copy
	x := part(c)
	before := ser(x)
	y := copyOf(x)
	r.Same = ser(y) == before && ser(x) == before && reflect.DeepEqual(absmsg.AbsAny(x), absmsg.AbsAny(y))
	r.Shared = absmsg.Shared(absmsg.Heap(x), absmsg.Heap(y))
	n := len(absmsg.Leaves(y))
	r.Leaves = n
	for side := 0; side < 2; side++ {
		for i := 0; i < n; i++ {
			x := part(c)
			y := copyOf(x)
			if side == 1 {
				x, y = y, x
			}
			l := absmsg.Leaves(y)
			if i >= len(l) {
				continue
			}
			sx, ax := ser(x), absmsg.AbsAny(x)
			ay := absmsg.AbsAny(y)
			l[i].Change()
			if ser(x) != sx || !reflect.DeepEqual(ax, absmsg.AbsAny(x)) {
				r.Leaks = append(r.Leaks, l[i].Path)
			}
			if reflect.DeepEqual(ay, absmsg.AbsAny(y)) {
				r.Dead = append(r.Dead, l[i].Path)
			}
		}
	}
	return Res{State: "ok", Copy: r}
}

func vias(v *sip.Via) []absmsg.Via { return absmsg.AbsVias(v) }

func one(vs []absmsg.Via) *sip.Via    { return absmsg.BuildVias(vs) }
func addr(as []absmsg.Addr) *sip.Addr { return absmsg.BuildAddrs(as) }

func fail(err error) Res { return Res{State: "error", Note: err.Error()} }

func run(c Case) Res {
	switch c.Op {
	case "populate":
		m := absmsg.BuildMsg(c.Msg)
		via, contact := one(c.Via), addr(c.Contact)
		ov, of := m.Via, m.From
		dialog.PopulateMessage(via, contact, m)
		return Res{State: "ok", Msg: absmsg.AbsMsg(m), Via: vias(via), Cont: absmsg.AbsAddrs(contact), OldVia: vias(ov), OldFrm: absmsg.AbsAddrs(of)}
	case "ids":
		// The same Via, contact and From serve many requests at once.
		via, contact, from := one(c.Via), addr(c.Contact), addr(c.Contact)
		v2 := one(c.Via)
		tp := &dialog.Transport{Via: one(c.Via), Contact: addr(c.Contact)}
		to := addr(c.Contact)
		ms := make([]*sip.Msg, 4*c.N)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < c.N; i++ {
					m := &sip.Msg{Method: "OPTIONS", Request: &sip.URI{Scheme: "sip", Host: "h"}}
					switch g {
					case 0:
						m = dialog.NewRequest(tp, "INVITE", to, nil)
					case 1:
						m = dialog.NewRequest(tp, "BYE", to, to)
					case 2:
						m.From, m.Via = from, v2
					}
					if g == 1 && i%2 == 1 {
						m.CallID = ""
					}
					dialog.PopulateMessage(via, contact, m)
					ms[g*c.N+i] = m
				}
			}(g)
		}
		wg.Wait()
		r := Res{State: "ok", Via: vias(via), Cont: absmsg.AbsAddrs(contact), OldVia: vias(v2), OldFrm: absmsg.AbsAddrs(from)}
		for _, m := range ms {
			r.Ids.Branch = append(r.Ids.Branch, m.Via.Param.Get("branch").Value)
			r.Ids.Tag = append(r.Ids.Tag, m.From.Param.Get("tag").Value)
			r.Ids.CallID = append(r.Ids.CallID, m.CallID)
		}
		return r
	case "route":
		m := absmsg.BuildMsg(c.Msg)
		via, contact := one(c.Via), addr(c.Contact)
		given := m.Route
		host, port, err := dialog.RouteMessage(via, contact, m)
		if err != nil {
			return fail(err)
		}
		return Res{State: "ok", Msg: absmsg.AbsMsg(m), Via: vias(via), Cont: absmsg.AbsAddrs(contact), Host: absmsg.FromString(host), Port: int(port), OldRt: absmsg.AbsAddrs(given)}
	case "derive":
		m := absmsg.BuildMsg(c.Msg)
		var o *sip.Msg
		if c.Other != nil {
			o = absmsg.BuildMsg(c.Other)
		}
		var d *sip.Msg
		lseq := c.Lseq
		switch c.Fn {
		case "response":
			d = dialog.NewResponse(m, c.Status)
		case "ack":
			d = dialog.NewAck(m, o)
		case "cancel":
			d = dialog.NewCancel(m)
		case "bye":
			d = dialog.NewBye(o, m, &lseq)
		case "bye0":
			d = dialog.NewBye(o, m, nil)
		case "request":
			tp := &dialog.Transport{Via: one(c.Via), Contact: addr(c.Contact)}
			d = dialog.NewRequest(tp, c.Msg.Method.String(), m.To, addr(c.Addrs))
			r := Res{State: "ok", Msg: absmsg.AbsMsg(d), Again: absmsg.AbsMsg(m), Via: vias(tp.Via), Cont: absmsg.AbsAddrs(tp.Contact)}
			return r
		}
		r := Res{State: "ok", Msg: absmsg.AbsMsg(d), Again: absmsg.AbsMsg(m), Lseq: lseq}
		if o != nil {
			r.Again2 = absmsg.AbsMsg(o)
		}
		return r
	case "match":
		m, o := absmsg.BuildMsg(c.Msg), absmsg.BuildMsg(c.Other)
		if c.Fn == "ack" {
			return Res{State: "ok", Match: dialog.AckMatch(m, o)}
		}
		return Res{State: "ok", Match: dialog.ResponseMatch(m, o)}
	case "copy":
		return copyCase(c)
	case "lists":
		return lists(c)
	case "resolve":
		fakedns.Set(c.Dns)
		rs, err := dialog.RouteAddress(c.Host, uint16(c.Port), c.Want)
		if err != nil {
			return fail(err)
		}
		r := Res{State: "ok"}
		for ; rs != nil; rs = rs.Next {
			r.Routes = append(r.Routes, rs.Address)
		}
		return r
	}
	panic("unknown op " + c.Op)
}

func lists(c Case) Res {
	as, bs, vs, ws := addr(c.Addrs), addr(c.Contact), one(c.Via), one(c.Vias2)
	r := &Lists{Nil: []bool{}, Len: as.Len(), Last: absmsg.AbsAddrs(as.Last()), Rev: absmsg.AbsAddrs(as.Reversed()), Or: absmsg.AbsAddrs(as.Or(bs)),
		VLast: vias(vs.Last()), Detach: []absmsg.Via{}, Ports: []int{}, VPorts: []int{}, CmpA: [][]bool{}, CmpU: [][]bool{}, CmpV: [][]bool{}, CmpB: [][]bool{},
		Get: [][]absmsg.Pair{}, Tag: []absmsg.Addr{}, Branch: []absmsg.Via{}, Phrase: absmsg.FromString(sip.Phrase(c.Status)), Kept: true}
	end := as
	for end != nil && end.Next != nil {
		end = end.Next
	}
	vend := vs
	for vend != nil && vend.Next != nil {
		vend = vend.Next
	}
	r.Kept = as.Last() == end && vs.Last() == vend && (as == nil && as.Or(bs) == bs || as != nil && as.Or(bs) == as)
	for a := as; a != nil; a = a.Next {
		r.Ports = append(r.Ports, int(a.Uri.GetPort()))
		x, y := []bool{}, []bool{}
		for b := bs; b != nil; b = b.Next {
			x, y = append(x, a.CompareHostPort(b)), append(y, a.Uri.CompareHostPort(b.Uri))
		}
		r.CmpA, r.CmpU = append(r.CmpA, x), append(r.CmpU, y)
		r.Nil = append(r.Nil, a.CompareHostPort(nil), (*sip.Addr)(nil).CompareHostPort(a), a.Uri.CompareHostPort(nil), (*sip.URI)(nil).CompareHostPort(a.Uri))
	}
	for v := vs; v != nil; v = v.Next {
		r.VPorts = append(r.VPorts, int(v.GetPort()))
		x, y := []bool{}, []bool{}
		for w := ws; w != nil; w = w.Next {
			x, y = append(x, v.CompareHostPort(w)), append(y, v.CompareBranch(w))
		}
		r.CmpV, r.CmpB = append(r.CmpV, x), append(r.CmpB, y)
		r.Nil = append(r.Nil, v.CompareHostPort(nil), (*sip.Via)(nil).CompareHostPort(v), v.CompareBranch(nil), (*sip.Via)(nil).CompareBranch(v))
	}
	r.Nil = append(r.Nil, (*sip.Via)(nil).CompareBranch(nil), (*sip.Addr)(nil).CompareHostPort(nil))
	if vs != nil {
		d := vs.Detach()
		r.Detach = vias(d)
		d.Host, d.Next = "changed", ws
	}
	m := absmsg.BuildMsg(c.Msg)
	for _, n := range c.Names {
		g := []absmsg.Pair{}
		put := func(has bool, name, value func() string) {
			if has {
				g = append(g, absmsg.Pair{absmsg.FromString(name()), absmsg.FromString(value())})
			} else {
				g = append(g, absmsg.Pair{absmsg.Bytes{}, absmsg.Bytes{}})
			}
		}
		p := m.From.Param.Get(n.String())
		put(p != nil, func() string { return p.Name }, func() string { return p.Value })
		u := m.From.Uri.Param.Get(n.String())
		put(u != nil, func() string { return u.Name }, func() string { return u.Value })
		h := m.From.Uri.Header.Get(n.String())
		put(h != nil, func() string { return h.Name }, func() string { return h.Value })
		x := m.XHeader.Get(n.String())
		put(x != nil, func() string { return x.Name }, func() string { return string(x.Value) })
		r.Get = append(r.Get, g)
	}
	r.Addrs, r.Vias = absmsg.AbsAddrs(as), vias(vs)
	if as != nil {
		t := as.Copy()
		r.Kept = r.Kept && t.Tag() == t
		r.Tag = absmsg.AbsAddrs(t)
	}
	if vs != nil {
		t := vs.Copy()
		r.Kept = r.Kept && t.Branch() == t
		r.Branch = vias(t)
	}
	return Res{State: "ok", Lists: r}
}

func main() {
	if err := fakedns.Start(); err != nil {
		together.Fatal(err)
	}
	together.Main(func(line []byte) []byte {
		var c Case
		if err := json.Unmarshal(line, &c); err != nil {
			together.Fatal(err)
		}
		if c.Via == nil {
			c.Via = []absmsg.Via{}
		}
		if c.Contact == nil {
			c.Contact = []absmsg.Addr{}
		}
		if c.Addrs == nil {
			c.Addrs = []absmsg.Addr{}
		}
		b, err := json.Marshal(Rec{c, guard(func() Res { return run(c) })})
		if err != nil {
			together.Fatal(err)
		}
		return b
	})
}
