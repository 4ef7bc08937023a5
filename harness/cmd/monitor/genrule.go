package main

import (
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/harness/ref"
)

var svcPool = []string{"svc1", "svc2", "a.b", "axb", "ns/pod-1", "ns/pod-12", "web", "Web", "web.prod", "web-prod", "w", "", "db_1", "x.svc.cluster", "xAsvc.cluster", "svc$1", "a^b", "ns:web@v1", "sérvice", "a~b%c=d"}
var hostPool = []string{"example.com", "a.example.com", "exampleXcom", "host-1", "", "Example.com", "example.com.", "example.com:80", "www.example.com"}
var pathPool = []string{"/", "/a", "/a/b", "/a/b/c", "/books", "/books/1", "/booksx", "/A", "", "/a.b", "/aXb", "/a/", "//a", "/a//b", "/a?x=1", "/a#b", "/a b", " /a", "/a ", "/a%2Fb", "/a;v=1", "/./a", "/a.b.c", "/aXb.c", "/a.bXc", "/v1.2/x.json"}
var portPool = []string{"", "80", "8080", "443", "808", "18080", "080", "8080 ", "http"}
var methodPool = []string{"GET", "HEAD", "OPTIONS", "TRACE", "POST", "PUT", "DELETE", "PRODUCE", "CONSUME", "PATCH", "get", "read", "READ", "write", "WRITE", "", "GETX", "XGET", "Get", "PUTS", "CONNECT"}
var protoPool = []string{"http", "HTTP", "Http", "tcp", "TCP", "kafka", "grpc", ""}
var typePool = []string{"path", "port", "kafkaTopic", "consumerGroup", "", "Path"}

var ip4Pool = []string{"10.0.0.1", "10.0.0.2", "10.0.1.1", "10.1.0.1", "192.168.1.128", "192.168.1.127", "255.255.255.255", "0.0.0.0", "127.0.0.1", "11.0.0.1"}
var ip6Pool = []string{"::1", "2001:db8::1", "2001:db8::2", "2001:db8:1::1", "fe80::1", "::", "2001:0db8:0:0:0:0:0:1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"}
var badIPs = []string{"", "x", "10.0.0", "10.0.0.256", "1.2.3.4.5", ":::1", "010.0.0.1", "10.0.0.1 ", "[::1]", "[10.0.0.1]", "10.0.0.1/32", "10.0.0.1:80", "0x0a.0.0.1", " 10.0.0.1"}

func genIP(r *rand.Rand) string {
	switch {
	case chance(r, 0.15):
		return fmt.Sprintf("%d.%d.%d.%d", r.Intn(256), r.Intn(256), r.Intn(256), r.Intn(256))
	case chance(r, 0.55):
		return pick(r, ip4Pool)
	case chance(r, 0.75):
		return pick(r, ip6Pool)
	}
	return pick(r, badIPs[:4])
}

// genSubnet makes a valid subnet entry, often one near the address
func genSubnet(r *rand.Rand, ip string) string {
	a, v4, ok := ref.ParseIP(ip)
	if !ok || chance(r, 0.25) {
		ip = pick(r, append(append([]string{}, ip4Pool...), ip6Pool...))
		a, v4, _ = ref.ParseIP(ip)
	}
	if chance(r, 0.06) {
		return "*"
	}
	if chance(r, 0.25) {
		if chance(r, 0.4) { // another spelling of the address, or of one near it
			if chance(r, 0.4) {
				a[15] ^= 1 << uint(r.Intn(8))
			}
			return ipSpelling(r, a, v4)
		}
		return ip
	}
	bits, off := 128, 0
	if v4 {
		bits, off = 32, 12
	}
	n := r.Intn(bits + 1)
	if chance(r, 0.5) {
		n = pick(r, []int{0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32})
	}
	// the address itself, or with one bit flipped around the prefix boundary
	b := a
	if chance(r, 0.6) {
		i := n - 2 + r.Intn(4)
		if i >= 0 && i < bits {
			b[off+i/8] ^= 1 << (7 - uint(i%8))
		}
	}
	return fmt.Sprintf("%s/%d", ipText(b, v4), n)
}

func ipText(b [16]byte, v4 bool) string {
	if v4 {
		return fmt.Sprintf("%d.%d.%d.%d", b[12], b[13], b[14], b[15])
	}
	var parts []string
	for i := 0; i < 16; i += 2 {
		parts = append(parts, fmt.Sprintf("%x", int(b[i])<<8|int(b[i+1])))
	}
	return strings.Join(parts, ":")
}

// ipSpelling writes an address compressed, in full or with leading zeros, in either letter case
func ipSpelling(r *rand.Rand, b [16]byte, v4 bool) string {
	s := ipText(b, v4)
	if v4 {
		return s
	}
	switch r.Intn(3) {
	case 0:
		s = net.IP(b[:]).String()
	case 1:
		parts := strings.Split(s, ":")
		for i := range parts {
			if chance(r, 0.7) {
				parts[i] = strings.Repeat("0", 4-len(parts[i])) + parts[i]
			}
		}
		s = strings.Join(parts, ":")
	}
	if chance(r, 0.4) {
		s = strings.ToUpper(s)
	}
	return s
}

func genNames(r *rand.Rand, name string, pool []string, spaces bool) string {
	n := 1 + genLen(r, 3)
	hit := r.Intn(n)
	out := []string{}
	for i := 0; i < n; i++ {
		base := pick(r, pool)
		if chance(r, 0.15) {
			base = nearName(r, name)
		}
		if i == hit && chance(r, 0.7) {
			base = name
		}
		p := base
		if chance(r, 0.6) {
			p = wildcarded(r, base)
		}
		out = append(out, p)
	}
	sep := ","
	if spaces && chance(r, 0.2) {
		sep = pick(r, []string{", ", ", ", " , ", ",  "})
	}
	return strings.Join(out, sep)
}

func genBasicMsg(r *rand.Rand) *ref.Msg {
	m := &ref.Msg{ID: fmt.Sprintf("m%d", r.Intn(1000))}
	m.SenderName, m.ReceiverName = pick(r, svcPool), pick(r, svcPool)
	m.SenderIP, m.ReceiverIP = genIP(r), genIP(r)
	m.Host = pick(r, hostPool)
	m.Path, m.Port = pick(r, pathPool), pick(r, portPool)
	m.Method, m.Protocol, m.Type = pick(r, methodPool), pick(r, protoPool), pick(r, typePool)
	for _, p := range []*string{&m.SenderName, &m.ReceiverName, &m.Host} {
		if chance(r, 0.25) {
			*p = genName(r)
		}
	}
	if chance(r, 0.1) {
		m.Path = "/" + genName(r)
	}
	if chance(r, 0.1) {
		m.Port = strconv.Itoa(r.Intn(65536))
	}
	if chance(r, 0.15) { // nearly a known method
		m.Method = nearName(r, pick(r, methodPool))
		if chance(r, 0.5) {
			m.Method = "X" + pick(r, methodPool)
		}
	}
	return m
}

// breakLine puts a line break into one of the texts which names and resources are matched with
func breakLine(r *rand.Rand, m *ref.Msg) {
	p := pick(r, []*string{&m.SenderName, &m.ReceiverName, &m.Host, &m.Path, &m.Path, &m.Port, &m.Method, &m.Method})
	i := r.Intn(len(*p) + 1)
	for i < len(*p) && !utf8.RuneStart((*p)[i]) {
		i++
	}
	*p = (*p)[:i] + pick(r, []string{"\n", "\n", "\r\n", "\t", "\n\n"}) + (*p)[i:]
}

func genSide(r *rand.Rand, name, ip, host string, receiver bool) (names, typ string) {
	switch {
	case chance(r, 0.12):
		return "*", "*"
	case chance(r, 0.35):
		n := 1 + genLen(r, 3)
		out := []string{}
		for i := 0; i < n; i++ {
			out = append(out, genSubnet(r, ip))
		}
		return strings.Join(out, ","), "subnet"
	case receiver && chance(r, 0.3):
		return genNames(r, host, hostPool, true), "hostname"
	case chance(r, 0.08):
		return genNames(r, name, svcPool, false), pick(r, []string{"service", "Workload", "WORKLOAD", "", "unknown", "hostnam", "namespace"})
	case !receiver && chance(r, 0.05):
		return genNames(r, host, hostPool, false), "hostname"
	}
	return genNames(r, name, svcPool, true), pick(r, []string{"workload", "workload", "*"})
}

// genRule makes a rule with a good chance to apply to m; cond may be nil
func genRule(r *rand.Rand, m *ref.Msg, id string, cond *ref.Node) *ref.Rule {
	x := &ref.Rule{ID: id, Cond: cond, SenderName: "*", SenderType: "*", ReceiverName: "*", ReceiverType: "*", Protocol: "*", ResType: "*", ResName: "*", Operation: "*"}
	if chance(r, 0.5) {
		x.SenderName, x.SenderType = genSide(r, m.SenderName, m.SenderIP, "", false)
	}
	if chance(r, 0.5) {
		x.ReceiverName, x.ReceiverType = genSide(r, m.ReceiverName, m.ReceiverIP, m.Host, true)
	}
	if chance(r, 0.5) {
		genResource(r, m, x)
	}
	if chance(r, 0.4) {
		x.Operation = genOperation(r, m)
	}
	x.Decision = pick(r, []string{"allow", "alert", "block", "allow", "alert", "block", "ALLOW", "ALERT", "BLOCK", "Allow", "Alert", "Block"})
	return x
}

func genOperation(r *rand.Rand, m *ref.Msg) string {
	switch r.Intn(6) {
	case 0:
		return "*"
	case 1:
		return pick(r, []string{"read", "READ"})
	case 2:
		return pick(r, []string{"write", "WRITE"})
	}
	s := genNames(r, m.Method, methodPool[:10], true)
	switch s {
	case "":
		return "GET"
	}
	return s
}

func genResource(r *rand.Rand, m *ref.Msg, x *ref.Rule) {
	switch r.Intn(4) {
	case 0:
		x.Protocol = "tcp"
		x.ResType = pick(r, []string{"port", "*", "path"})
		x.ResName = genNames(r, m.Port, portPool, true)
	case 1:
		x.Protocol = pick(r, protoPool[:7])
		if x.Protocol == "tcp" {
			x.ResName = genNames(r, m.Port, portPool, true)
			x.ResType = "port"
			return
		}
		x.ResType = pick(r, []string{"path", "*", "port", "kafkaTopic"})
		x.ResName = genNames(r, m.Path, pathPool, true)
	default:
		p := m.Protocol
		if p == "" || p == "tcp" {
			p = "http"
		}
		x.Protocol = pick(r, []string{p, strings.ToUpper(p), strings.ToLower(p)})
		if x.Protocol == "tcp" {
			x.Protocol = "TCP"
		}
		x.ResType = pick(r, []string{m.Type, "*", m.Type, "path"})
		if x.ResType == "" {
			x.ResType = "*"
		}
		x.ResName = genNames(r, m.Path, pathPool, true)
	}
}
