package main

// An independent reading of SIP messages: just enough to see what a packet
// says, without using the parser under test.

import (
	"strings"
)

type header struct{ name, value string }

type rawMsg struct {
	start []string // request line or status line, split in three
	hdr   []header
	body  string
	ok    bool
}

var compact = map[string]string{"v": "via", "f": "from", "t": "to", "i": "call-id", "m": "contact",
	"l": "content-length", "c": "content-type", "s": "subject", "k": "supported", "e": "content-encoding"}

func readMsg(s string) (m rawMsg) {
	k := strings.Index(s, "\r\n\r\n")
	if k < 0 {
		return
	}
	m.body = s[k+4:]
	lines := strings.Split(s[:k], "\r\n")
	m.start = strings.SplitN(lines[0], " ", 3)
	if len(m.start) != 3 {
		return
	}
	for _, l := range lines[1:] {
		i := strings.IndexByte(l, ':')
		if i <= 0 {
			return
		}
		n := strings.ToLower(strings.TrimSpace(l[:i]))
		if c, ok := compact[n]; ok {
			n = c
		}
		m.hdr = append(m.hdr, header{n, strings.TrimSpace(l[i+1:])})
	}
	m.ok = true
	return
}

// list returns the elements of a list-valued header.
func (m *rawMsg) list(name string) (r []string) {
	for _, h := range m.hdr {
		if h.name == name {
			r = append(r, splitTop(h.value, ',')...)
		}
	}
	return
}

func (m *rawMsg) one(name string) string {
	for _, h := range m.hdr {
		if h.name == name {
			return h.value
		}
	}
	return ""
}

func (m *rawMsg) count(name string) (n int) {
	for _, h := range m.hdr {
		if h.name == name {
			n++
		}
	}
	return
}

// splitTop splits at sep outside quotes and angle brackets.
func splitTop(s string, sep byte) (r []string) {
	depth, quote, from := 0, false, 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case quote && c == '\\':
			i++
		case c == '"':
			quote = !quote
		case quote:
		case c == '<':
			depth++
		case c == '>':
			depth--
		case c == sep && depth == 0:
			r = append(r, strings.TrimSpace(s[from:i]))
			from = i + 1
		}
	}
	return append(r, strings.TrimSpace(s[from:]))
}

type param struct{ name, value string }

func readParams(parts []string) (r []param) {
	for _, p := range parts {
		if p == "" {
			continue
		}
		n, v := p, ""
		if i := strings.IndexByte(p, '='); i >= 0 {
			n, v = strings.TrimSpace(p[:i]), strings.TrimSpace(p[i+1:])
			if len(v) >= 2 && v[0] == '"' {
				v = v[1 : len(v)-1]
			}
		}
		r = append(r, param{strings.ToLower(n), v})
	}
	return
}

func get(ps []param, name string) (string, bool) {
	for _, p := range ps {
		if p.name == name {
			return p.value, true
		}
	}
	return "", false
}

type rawURI struct {
	scheme, user, host, port string
	params                   []param
}

func readURI(s string) (u rawURI) {
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return
	}
	u.scheme = strings.ToLower(s[:i])
	parts := strings.Split(s[i+1:], ";")
	u.params = readParams(parts[1:])
	hp := parts[0]
	if k := strings.LastIndexByte(hp, '@'); k >= 0 {
		u.user, hp = hp[:k], hp[k+1:]
	}
	u.host, u.port = hostPort(hp)
	return
}

func hostPort(hp string) (h, p string) {
	if strings.HasPrefix(hp, "[") {
		if k := strings.IndexByte(hp, ']'); k >= 0 {
			return hp[1:k], strings.TrimPrefix(hp[k+1:], ":")
		}
	}
	if k := strings.LastIndexByte(hp, ':'); k >= 0 {
		return hp[:k], hp[k+1:]
	}
	return hp, ""
}

type rawAddr struct {
	display string
	uri     rawURI
	params  []param
}

func readAddr(s string) (a rawAddr) {
	if i := strings.IndexByte(s, '<'); i >= 0 {
		a.display = strings.Trim(strings.TrimSpace(s[:i]), `"`)
		j := strings.IndexByte(s[i:], '>')
		if j < 0 {
			return
		}
		a.uri = readURI(s[i+1 : i+j])
		a.params = readParams(splitTop(s[i+j+1:], ';'))
		return
	}
	parts := splitTop(s, ';')
	a.uri = readURI(parts[0])
	a.params = readParams(parts[1:])
	return
}

type rawVia struct {
	proto, host, port string
	params            []param
}

func readVia(s string) (v rawVia) {
	parts := splitTop(s, ';')
	f := strings.Fields(parts[0])
	if len(f) != 2 {
		return
	}
	v.proto = strings.ToUpper(f[0])
	v.host, v.port = hostPort(f[1])
	v.params = readParams(parts[1:])
	return
}

func port5060(p string) string {
	if p == "" {
		return "5060"
	}
	return p
}
