// sipdrv runs SIP texts and abstract messages through gosip's parser and
// serialiser.  One JSON case per line in, one JSON record per line out.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"verifharness/absmsg"
	"verifharness/together"

	"github.com/jart/gosip/sip"
)

type Case struct {
	Id  int             `json:"id"`
	Op  string          `json:"op"`
	Txt absmsg.Bytes    `json:"txt"`
	Msg *absmsg.Msg     `json:"msg,omitempty"`
	Uri *absmsg.URI     `json:"uri,omitempty"`
	Ref json.RawMessage `json:"ref,omitempty"`
}

// Parsed is what became of some bytes.
type Parsed struct {
	State string       `json:"state"` // ok, error, both, neither, panic, hang
	Note  string       `json:"note"`
	Msg   *absmsg.Msg  `json:"msg,omitempty"`
	Uri   *absmsg.URI  `json:"uri,omitempty"`
	Port  int          `json:"port"`  // default port (URIs)
	Found [][2]int     `json:"found"` // lookups of parameters and headers by name (URIs)
	Out   absmsg.Bytes `json:"out"`   // serialised again
}

type Rec struct {
	Id int    `json:"id"`
	Op string `json:"op"`
	Case
	Built Parsed `json:"built"` // serialisation of the message that was built
	One   Parsed `json:"one"`   // bytes parsed
	Two   Parsed `json:"two"`   // its serialisation parsed
}

func guard(f func() Parsed) (p Parsed) {
	done := make(chan Parsed, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- Parsed{State: "panic", Note: fmt.Sprint(r)}
			}
		}()
		done <- f()
	}()
	select {
	case p = <-done:
	case <-time.After(10 * time.Second):
		p = Parsed{State: "hang"}
	}
	if p.Out == nil {
		p.Out = absmsg.Bytes{}
	}
	if p.Found == nil {
		p.Found = [][2]int{}
	}
	return p
}

func state(gotNil bool, err error) string {
	switch {
	case gotNil && err == nil:
		return "neither"
	case !gotNil && err != nil:
		return "both"
	case err != nil:
		return "error"
	}
	return "ok"
}

func parseMsg(b []byte) Parsed {
	return guard(func() Parsed {
		in := append([]byte{}, b...)
		m, err := sip.ParseMsg(in)
		p := Parsed{State: state(m == nil, err)}
		if err != nil {
			p.Note = err.Error()
		}
		if p.State == "ok" {
			p.Msg = absmsg.AbsMsg(m)
			var w bytes.Buffer
			m.Append(&w)
			p.Out = absmsg.FromBytes(w.Bytes())
		}
		return p
	})
}

// swap changes the case of every letter.
func swap(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case 'a' <= r && r <= 'z':
			return r - 32
		case 'A' <= r && r <= 'Z':
			return r + 32
		}
		return r
	}, s)
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// lookups returns, for every parameter and header, the 1-based position of the
// entry its name finds in the other case (0: none), and -1 for non-ASCII names.
func lookups(u *sip.URI) [][2]int {
	res := [][2]int{}
	var ps []*sip.URIParam
	for p := u.Param; p != nil; p = p.Next {
		ps = append([]*sip.URIParam{p}, ps...)
	}
	var hs []*sip.URIHeader
	for h := u.Header; h != nil; h = h.Next {
		hs = append([]*sip.URIHeader{h}, hs...)
	}
	for i, p := range ps {
		n := 0
		if !ascii(p.Name) {
			n = -1
		} else if q := u.Param.Get(swap(p.Name)); q != nil {
			for j := range ps {
				if ps[j] == q {
					n = j + 1
				}
			}
		}
		res = append(res, [2]int{i + 1, n})
	}
	for i, p := range hs {
		n := 0
		if !ascii(p.Name) {
			n = -1
		} else if q := u.Header.Get(swap(p.Name)); q != nil {
			for j := range hs {
				if hs[j] == q {
					n = j + 1
				}
			}
		}
		res = append(res, [2]int{i + 1, n})
	}
	if u.Param.Get("no-such-name.") != nil || u.Header.Get("no-such-name.") != nil {
		res = append(res, [2]int{0, 1})
	}
	return res
}

func parseURI(b []byte) Parsed {
	return guard(func() Parsed {
		in := append([]byte{}, b...)
		u, err := sip.ParseURI(in)
		p := Parsed{State: state(u == nil, err)}
		if err != nil {
			p.Note = err.Error()
		}
		if p.State == "ok" {
			a := absmsg.AbsURI(u)
			p.Uri = &a
			p.Port = int(u.GetPort())
			p.Found = lookups(u)
			p.Out = absmsg.FromString(u.String())
		}
		return p
	})
}

var none = Parsed{State: "none", Out: absmsg.Bytes{}, Found: [][2]int{}}

func do(c Case) Rec {
	if c.Txt == nil {
		c.Txt = absmsg.Bytes{}
	}
	r := Rec{Id: c.Id, Op: c.Op, Case: c, Built: none, One: none, Two: none}
	switch c.Op {
	case "text", "compose":
		r.One = parseMsg(c.Txt.Raw())
		if r.One.State == "ok" {
			r.Two = parseMsg(r.One.Out.Raw())
		}
	case "build", "quote":
		r.Built = guard(func() Parsed {
			m := absmsg.BuildMsg(c.Msg)
			var w bytes.Buffer
			m.Append(&w)
			return Parsed{State: "ok", Out: absmsg.FromBytes(w.Bytes())}
		})
		if r.Built.State == "ok" {
			r.One = parseMsg(r.Built.Out.Raw())
		}
		if r.One.State == "ok" {
			r.Two = parseMsg(r.One.Out.Raw())
		}
	case "uri":
		r.One = parseURI(c.Txt.Raw())
		if r.One.State == "ok" {
			r.Two = parseURI(r.One.Out.Raw())
		}
	case "uribuild":
		r.Built = guard(func() Parsed {
			u := absmsg.BuildURI(*c.Uri)
			return Parsed{State: "ok", Out: absmsg.FromString(u.String()), Port: int(u.GetPort()), Found: lookups(u)}
		})
		if r.Built.State == "ok" {
			r.One = parseURI(r.Built.Out.Raw())
		}
		if r.One.State == "ok" {
			r.Two = parseURI(r.One.Out.Raw())
		}
	}
	return r
}

func main() {
	together.Main(func(line []byte) []byte {
		var c Case
		if err := json.Unmarshal(line, &c); err != nil {
			together.Fatal(err)
		}
		b, err := json.Marshal(do(c))
		if err != nil {
			together.Fatal(err)
		}
		return b
	})
}
