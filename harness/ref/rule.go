package ref

import (
	"encoding/binary"
	"strconv"
	"strings"
)

// Rule is a rule in structured form
type Rule struct {
	ID                         string
	SenderName, SenderType     string
	ReceiverName, ReceiverType string
	Protocol                   string
	ResType, ResName           string
	Operation                  string
	Decision                   string
	Meta                       map[string]string
	Cond                       *Node
}

// decision numbers as documented: default, allow, alert, block
const (
	Default = iota
	Allow
	Alert
	Block
)

// DecisionNumber of a decision word (all lower, all upper or capitalised)
func DecisionNumber(word string) int {
	switch word {
	case "allow", "ALLOW", "Allow":
		return Allow
	case "alert", "ALERT", "Alert":
		return Alert
	case "block", "BLOCK", "Block":
		return Block
	}
	return Default
}

func splitNames(s string) []string {
	return strings.Split(strings.Replace(s, " ", "", -1), ",")
}

// MatchSide decides sender or receiver matching
func MatchSide(names, typ, name, ip, host string, receiver bool) bool {
	for _, n := range splitNames(names) {
		switch {
		case typ == "subnet":
			if MatchSubnet(n, ip) {
				return true
			}
		case typ == "*" || typ == "workload":
			if Glob(n, name) {
				return true
			}
		case typ == "hostname" && receiver:
			if Glob(n, host) {
				return true
			}
		}
	}
	return false
}

// ParseIP parses IPv4 dotted quads and IPv6 texts into 16 bytes (IPv4 mapped), independent of package net
func ParseIP(s string) ([16]byte, bool, bool) { // address, isV4, ok
	var out [16]byte
	if v4, ok := parseV4(s); ok {
		out[10], out[11] = 0xff, 0xff
		binary.BigEndian.PutUint32(out[12:], v4)
		return out, true, true
	}
	if !strings.Contains(s, ":") {
		return out, false, false
	}
	head, tail, compressed := s, "", false
	if i := strings.Index(s, "::"); i >= 0 {
		head, tail, compressed = s[:i], s[i+2:], true
		if strings.Contains(tail, "::") {
			return out, false, false
		}
	}
	parse := func(t string) ([]byte, bool) {
		var b []byte
		if t == "" {
			return b, true
		}
		groups := strings.Split(t, ":")
		for i, g := range groups {
			if i == len(groups)-1 && strings.Contains(g, ".") {
				v4, ok := parseV4(g)
				if !ok {
					return nil, false
				}
				b = append(b, byte(v4>>24), byte(v4>>16), byte(v4>>8), byte(v4))
				continue
			}
			if len(g) == 0 || len(g) > 4 {
				return nil, false
			}
			x, err := strconv.ParseUint(g, 16, 16)
			if err != nil {
				return nil, false
			}
			b = append(b, byte(x>>8), byte(x))
		}
		return b, true
	}
	hb, ok1 := parse(head)
	tb, ok2 := parse(tail)
	if !ok1 || !ok2 || len(hb)+len(tb) > 16 || (!compressed && len(hb) != 16) || (compressed && len(hb)+len(tb) > 14) {
		return out, false, false
	}
	copy(out[:], hb)
	copy(out[16-len(tb):], tb)
	mapped := true
	for i := 0; i < 10; i++ {
		if out[i] != 0 {
			mapped = false
		}
	}
	isV4 := mapped && out[10] == 0xff && out[11] == 0xff
	return out, isV4, true
}

func parseV4(s string) (uint32, bool) {
	parts := strings.Split(s, ".")
	if len(parts) != 4 {
		return 0, false
	}
	var v uint32
	for _, p := range parts {
		if len(p) == 0 || len(p) > 3 || (len(p) > 1 && p[0] == '0') {
			return 0, false
		}
		for _, c := range p {
			if c < '0' || c > '9' {
				return 0, false
			}
		}
		x, _ := strconv.Atoi(p)
		if x > 255 {
			return 0, false
		}
		v = v<<8 | uint32(x)
	}
	return v, true
}

// ValidSubnet tells whether an entry of a subnet list is an address, a CIDR or "*"
func ValidSubnet(entry string) bool {
	if entry == "*" {
		return true
	}
	if i := strings.Index(entry, "/"); i >= 0 {
		_, v4, ok := ParseIP(entry[:i])
		if !ok {
			return false
		}
		p := entry[i+1:]
		if p == "" || len(p) > 3 || (len(p) > 1 && p[0] == '0') {
			return false
		}
		for _, c := range p {
			if c < '0' || c > '9' {
				return false
			}
		}
		n, _ := strconv.Atoi(p)
		if v4 && !strings.Contains(entry[:i], ":") {
			return n <= 32
		}
		return n <= 128
	}
	_, _, ok := ParseIP(entry)
	return ok
}

// MatchSubnet decides containment of an address in one subnet entry
func MatchSubnet(entry, ip string) bool {
	a, aV4, ok := ParseIP(ip)
	if !ok {
		return false
	}
	if entry == "*" {
		return aV4
	}
	i := strings.Index(entry, "/")
	if i < 0 {
		b, _, ok := ParseIP(entry)
		return ok && a == b
	}
	b, bV4, ok := ParseIP(entry[:i])
	if !ok {
		return false
	}
	n, _ := strconv.Atoi(entry[i+1:])
	if bV4 && !strings.Contains(entry[:i], ":") {
		n += 96
	} else if bV4 {
		ood("CIDR written with a mapped address")
	} else if aV4 {
		// an IPv4 address is in an IPv6 range only for ranges which cover the mapped block
		if n <= 96 && prefixEqual(a, b, n) {
			ood("IPv6 range covering the mapped IPv4 block")
		}
		return false
	}
	if bV4 && !aV4 {
		return false
	}
	return prefixEqual(a, b, n)
}

func prefixEqual(a, b [16]byte, n int) bool {
	for i := 0; i < n; i++ {
		if (a[i/8]^b[i/8])>>(7-uint(i%8))&1 != 0 {
			return false
		}
	}
	return true
}

var readVerbs = map[string]bool{"GET": true, "HEAD": true, "OPTIONS": true, "TRACE": true, "CONSUME": true, "read": true, "READ": true}
var writeVerbs = map[string]bool{"POST": true, "PUT": true, "DELETE": true, "PRODUCE": true}

// MatchOperation decides operation matching
func MatchOperation(op, method string) bool {
	switch op {
	case "*":
		return true
	case "read", "READ":
		return readVerbs[method]
	case "write", "WRITE":
		return writeVerbs[method]
	}
	return matchList(op, method)
}

func matchList(list, text string) bool {
	for _, p := range strings.Split(list, ",") {
		if Glob(strings.TrimSpace(p), text) {
			return true
		}
	}
	return false
}

// MatchResource decides protocol and resource matching
func MatchResource(r *Rule, m *Msg) bool {
	if r.Protocol == "*" {
		return true
	}
	if r.Protocol == "tcp" {
		return matchList(r.ResName, m.Port)
	}
	if strings.ToLower(r.Protocol) != strings.ToLower(m.Protocol) {
		return false
	}
	if r.ResType != "*" && r.ResType != m.Type {
		return false
	}
	return matchList(r.ResName, m.Path)
}

// Applies decides whether a rule applies, its decision (Default if not) and its data
func Applies(r *Rule, m *Msg) (int, Data) {
	if !MatchSide(r.SenderName, r.SenderType, m.SenderName, m.SenderIP, "", false) ||
		!MatchSide(r.ReceiverName, r.ReceiverType, m.ReceiverName, m.ReceiverIP, m.Host, true) ||
		!MatchOperation(r.Operation, m.Method) || !MatchResource(r, m) {
		if r.Cond != nil {
			Eval(r.Cond, m) // to notice cases outside the domain
		}
		return Default, nil
	}
	if r.Cond != nil {
		res, data := Eval(r.Cond, m)
		if !res {
			return Default, nil
		}
		return DecisionNumber(r.Decision), data
	}
	return DecisionNumber(r.Decision), nil
}
