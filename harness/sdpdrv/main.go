// sdpdrv runs session descriptions through gosip's sdp package.
// One JSON case per line in, one JSON record per line out.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"net"
	"os"
	"strconv"
	"time"

	"verifharness/absmsg"
	"verifharness/together"

	"github.com/jart/gosip/sdp"
)

type Bytes = absmsg.Bytes

func bs(s string) Bytes {
	b := make(Bytes, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = int(s[i])
	}
	return b
}

func str(b Bytes) string {
	s := make([]byte, len(b))
	for i, c := range b {
		s[i] = byte(c)
	}
	return string(s)
}

func num(b Bytes) int {
	n, err := strconv.Atoi(str(b))
	if err != nil {
		fmt.Fprintln(os.Stderr, "sdpdrv:", err)
		os.Exit(3)
	}
	return n
}

type Codec struct {
	PT    Bytes `json:"pt"`
	Name  Bytes `json:"name"`
	Rate  Bytes `json:"rate"`
	Param Bytes `json:"param"`
	Fmtp  Bytes `json:"fmtp"`
}

type Media struct {
	Port   Bytes   `json:"port"`
	Proto  Bytes   `json:"proto"`
	Codecs []Codec `json:"codecs"`
}

type Sdp struct {
	User    Bytes         `json:"user"`
	ID      Bytes         `json:"id"`
	Ver     Bytes         `json:"ver"`
	OAddr   Bytes         `json:"oaddr"`
	Addr    Bytes         `json:"addr"`
	Session Bytes         `json:"session"`
	Time    Bytes         `json:"time"`
	Ptime   Bytes         `json:"ptime"`
	SO      bool          `json:"so"`
	RO      bool          `json:"ro"`
	Attrs   []absmsg.Pair `json:"attrs"`
	Other   []absmsg.Pair `json:"other"`
	Audio   []Media       `json:"audio"`
	Video   []Media       `json:"video"`
}

func absPairs(ps [][2]string) []absmsg.Pair {
	r := []absmsg.Pair{}
	for _, p := range ps {
		r = append(r, absmsg.Pair{bs(p[0]), bs(p[1])})
	}
	return r
}

func absMedia(m *sdp.Media) []Media {
	if m == nil {
		return []Media{}
	}
	r := Media{Port: bs(strconv.Itoa(int(m.Port))), Proto: bs(m.Proto), Codecs: []Codec{}}
	for _, c := range m.Codecs {
		r.Codecs = append(r.Codecs, Codec{bs(strconv.Itoa(int(c.PT))), bs(c.Name), bs(strconv.Itoa(c.Rate)), bs(c.Param), bs(c.Fmtp)})
	}
	return []Media{r}
}

func abs(s *sdp.SDP) *Sdp {
	return &Sdp{bs(s.Origin.User), bs(s.Origin.ID), bs(s.Origin.Version), bs(s.Origin.Addr), bs(s.Addr), bs(s.Session), bs(s.Time),
		bs(strconv.Itoa(s.Ptime)), s.SendOnly, s.RecvOnly, absPairs(s.Attrs), absPairs(s.Other), absMedia(s.Audio), absMedia(s.Video)}
}

func conPairs(ps []absmsg.Pair) (r [][2]string) {
	for _, p := range ps {
		r = append(r, [2]string{str(p[0]), str(p[1])})
	}
	return
}

func conMedia(ms []Media) *sdp.Media {
	if len(ms) == 0 {
		return nil
	}
	m := ms[0]
	r := &sdp.Media{Port: uint16(num(m.Port)), Proto: str(m.Proto)}
	for _, c := range m.Codecs {
		r.Codecs = append(r.Codecs, sdp.Codec{PT: uint8(num(c.PT)), Name: str(c.Name), Rate: num(c.Rate), Param: str(c.Param), Fmtp: str(c.Fmtp)})
	}
	return r
}

func con(s *Sdp) *sdp.SDP {
	return &sdp.SDP{Origin: sdp.Origin{User: str(s.User), ID: str(s.ID), Version: str(s.Ver), Addr: str(s.OAddr)}, Addr: str(s.Addr),
		Session: str(s.Session), Time: str(s.Time), Ptime: num(s.Ptime), SendOnly: s.SO, RecvOnly: s.RO, Attrs: conPairs(s.Attrs),
		Other: conPairs(s.Other), Audio: conMedia(s.Audio), Video: conMedia(s.Video)}
}

type Case struct {
	Id  int    `json:"id"`
	Op  string `json:"op"`
	Txt Bytes  `json:"txt"`
	Sdp *Sdp   `json:"sdp,omitempty"`
}

type Parsed struct {
	State string `json:"state"`
	Note  string `json:"note"`
	Sdp   *Sdp   `json:"sdp,omitempty"`
	Out   Bytes  `json:"out"`
}

type Rec struct {
	Case
	Built Parsed `json:"built"`
	Copy  Parsed `json:"copy"`
	One   Parsed `json:"one"`
	Two   Parsed `json:"two"`
}

func guard(f func() Parsed) (p Parsed) {
	done := make(chan Parsed, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- Parsed{State: "panic", Note: fmt.Sprint(r)}
			}
		}()
		done <- f()
	}()
	select {
	case p = <-done:
	case <-time.After(10 * time.Second):
		p = Parsed{State: "hang"}
	}
	if p.Out == nil {
		p.Out = Bytes{}
	}
	return p
}

func parse(t string) Parsed {
	return guard(func() Parsed {
		s, err := sdp.Parse(t)
		switch {
		case s == nil && err == nil:
			return Parsed{State: "neither"}
		case s != nil && err != nil:
			return Parsed{State: "both"}
		case err != nil:
			return Parsed{State: "error", Note: err.Error()}
		}
		d := abs(s)
		out := string(s.Data())
		// Without an origin id every serialisation makes up its own.
		if s.Origin.ID != "" && out != s.String() || s.ContentType() != "application/sdp" {
			return Parsed{State: "String differs from Data"}
		}
		return Parsed{State: "ok", Sdp: d, Out: bs(out)}
	})
}

// fresh makes a description the easy way.
func fresh(d *Sdp) Parsed {
	m := con(d).Audio
	given := append([]sdp.Codec{}, m.Codecs...)
	addr := &net.UDPAddr{IP: net.ParseIP(str(d.Addr)), Port: int(m.Port)}
	s := sdp.New(addr, given...)
	t := sdp.New(addr, given...)
	if s.Origin.ID == t.Origin.ID || s.Origin.ID == "" {
		return Parsed{State: "two descriptions have one id"}
	}
	for i := range given { // the caller's business from now on
		given[i] = sdp.Codec{PT: 77, Name: "changed", Rate: 1}
	}
	for i := range t.Audio.Codecs {
		t.Audio.Codecs[i].Name = "changed"
	}
	addr.IP[len(addr.IP)-1]++
	addr.Port++
	return Parsed{State: "ok", Sdp: abs(s), Out: bs(string(s.Data()))}
}

func main() {
	log.SetOutput(ioutil.Discard)
	none := Parsed{State: "none", Out: Bytes{}}
	together.Main(func(line []byte) []byte {
		var c Case
		if err := json.Unmarshal(line, &c); err != nil {
			together.Fatal(err)
		}
		r := Rec{Case: c, Built: none, Copy: none, One: none, Two: none}
		if c.Op == "build" {
			r.Built = guard(func() Parsed { return Parsed{State: "ok", Out: bs(string(con(c.Sdp).Data()))} })
			if r.Built.State == "ok" {
				r.Copy = parse(str(r.Built.Out))
			}
		}
		if c.Op == "new" {
			r.Built = guard(func() Parsed { return fresh(c.Sdp) })
			if r.Built.State == "ok" {
				r.Copy = parse(str(r.Built.Out))
			}
			c.Txt = r.Built.Out
		}
		if c.Op == "bare" {
			r.Built = guard(func() Parsed { return Parsed{State: "ok", Out: bs(string(con(c.Sdp).Data()))} })
			c.Txt = r.Built.Out
		}
		r.One = parse(str(c.Txt))
		if r.One.State == "ok" {
			r.Two = parse(str(r.One.Out))
		}
		r.Case.Txt = c.Txt
		b, err := json.Marshal(&r)
		if err != nil {
			together.Fatal(err)
		}
		return b
	})
}
