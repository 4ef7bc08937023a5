package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"verif/harness/ref"
)

// Cases much larger than the random ones. What decides them lies at or near the far end, so that anything which stops
// early, cuts a text or drops the rest of a list shows.

var bigSizes = []int{17, 33, 65, 101, 129, 257, 513, 1025, 2049, 4097}

// bigSize chooses a size a little above a power of two
func bigSize(r *rand.Rand, max int) int {
	for {
		n := pick(r, bigSizes)
		if n <= max {
			return n + r.Intn(1+n/8)
		}
	}
}

// bigText makes a text of n characters
func bigText(r *rand.Rand, n int) string {
	const letters = "abcdefghijklmnopqrstuvwxyz0123456789-_/"
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[r.Intn(len(letters))]
	}
	b[0], b[n-1] = 'q', 'q'
	return string(b)
}

// nearText changes a text close to its end
func nearText(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return s[:len(s)-1]
	case 1:
		return s + "z"
	case 2:
		return s[:len(s)-1] + "z"
	}
	at := len(s) - 1 - r.Intn(3)
	return s[:at] + "Z" + s[at+1:]
}

// bigItems makes n distinct items; the wanted one, if any, comes at the end or near it
func bigItems(r *rand.Rand, n int, want string, item func(int) string) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = item(i)
	}
	if want != "" {
		at := n - 1
		if chance(r, 0.3) {
			at -= r.Intn(3)
		}
		out[at] = want
	}
	return out
}

// pad puts many other items before a list
func pad(r *rand.Rand, list, sep string, item func(int) string) string {
	return strings.Join(bigItems(r, bigSize(r, 1025), "", item), sep) + sep + list
}

func padWorkload(i int) string { return fmt.Sprintf("other-%d.ns*", i) }
func padSubnet(i int) string {
	if i%2 == 0 {
		return fmt.Sprintf("203.%d.%d.7", i/256, i%256)
	}
	return fmt.Sprintf("203.%d.%d.0/29", i/256, i%256)
}
func padItem(i int) string { return fmt.Sprintf("other%d", i) }

// bigRules: long lists of rules decided by a late one
func (t *T) bigRules() {
	r := t.R
	m := genBasicMsg(r)
	genMsgAttrs(r, m)
	m.SenderName = "svc1"
	k := bigSize(r, 1025)
	var xs []*ref.Rule
	want := make([]int, k)
	wantData := make([][]string, k)
	for j := 0; j < k; j++ {
		x := plainRule(nil)
		x.ID = fmt.Sprintf("id%d", j)
		x.Meta = map[string]string{"description": fmt.Sprintf("about %d", j)}
		x.Decision = "allow"
		if j%7 != 3 {
			x.SenderName, x.SenderType = "nobody", "workload"
		}
		xs = append(xs, x)
	}
	late := k - 1 - r.Intn(3)
	xs[late].SenderName, xs[late].SenderType = "svc1", "workload"
	xs[late].Decision = pick(r, []string{"alert", "block"})
	for j, x := range xs {
		if !t.InDomain(func() { want[j], _ = ref.Applies(x, m) }) {
			return
		}
	}
	text := rulesText(xs, r)
	d := D{"rules": text, "message": msgDetail(m)}
	t.Begin(text)
	rules := t.mustLoad(text, d)
	t.checkList(&rules, xs, want, wantData, buildMsg(m, formNone, r), d)
	t.Obs("big")
	t.Eval(text)
}

// bigSides: long lists of senders and receivers, long names
func (t *T) bigSides() {
	r := t.R
	m := genBasicMsg(r)
	x := plainRule(nil)
	hit := chance(r, 0.6)
	n := bigSize(r, 4097)
	var names string
	set := func(sender bool, typ string) {
		if sender {
			x.SenderName, x.SenderType = names, typ
		} else {
			x.ReceiverName, x.ReceiverType = names, typ
		}
	}
	sender := chance(r, 0.5)
	want := ""
	switch r.Intn(4) {
	case 0:
		if hit {
			want = pick(r, []string{"svc1.prod", "svc?.prod", "svc1.*"})
		}
		m.SenderName, m.ReceiverName = "svc1.prod", "svc1.prod"
		names = strings.Join(bigItems(r, n, want, padWorkload), ",")
		set(sender, "workload")
	case 1:
		if hit {
			want = pick(r, []string{"10.1.2.3", "10.1.0.0/16", "10.1.2.2/31"})
		}
		m.SenderIP, m.ReceiverIP = "10.1.2.3", "10.1.2.3"
		names = strings.Join(bigItems(r, n, want, padSubnet), ",")
		set(sender, "subnet")
	case 2:
		if hit {
			want = pick(r, []string{"api.example.com", "api.*"})
		}
		m.Host = "api.example.com"
		names = strings.Join(bigItems(r, n, want, padWorkload), ",")
		set(false, "hostname")
	default: // one long name
		s := bigText(r, n)
		names = s
		if chance(r, 0.3) {
			names = s[:3] + "*" + s[len(s)-4:]
		}
		if !hit {
			s = nearText(r, s)
		}
		m.SenderName, m.ReceiverName = s, s
		set(sender, "workload")
	}
	if ok, decided := t.expectRule(x, m, D{}); decided {
		t.Obs(fmt.Sprintf("big:%v", ok))
		t.Eval(names + m.SenderName)
	}
}

// bigResource: long paths and long lists of paths, ports and operations
func (t *T) bigResource() {
	r := t.R
	m := genBasicMsg(r)
	x := plainRule(nil)
	hit := chance(r, 0.6)
	n := bigSize(r, 4097)
	want := ""
	switch r.Intn(4) {
	case 0: // a long path
		m.Protocol, m.Type = "http", "path"
		m.Path = "/" + bigText(r, n)
		x.Protocol, x.ResType = "http", "path"
		x.ResName = m.Path
		if !hit {
			x.ResName = nearText(r, m.Path)
		}
		if chance(r, 0.5) {
			x.ResName = x.ResName[:2] + "*" + x.ResName[len(x.ResName)-4:]
		}
	case 1:
		m.Protocol, m.Type, m.Path = "http", "path", "/a/b"
		if hit {
			want = pick(r, []string{"/a/b", "/a/*", "/?/b"})
		}
		x.Protocol, x.ResType = "http", "path"
		x.ResName = strings.Join(bigItems(r, n, want, func(i int) string { return fmt.Sprintf("/a/c%d", i) }), ",")
	case 2:
		m.Protocol, m.Type, m.Port = "tcp", "port", "8080"
		if hit {
			want = "8080"
		}
		x.Protocol, x.ResType = "tcp", "port"
		x.ResName = strings.Join(bigItems(r, n, want, func(i int) string { return strconv.Itoa(10000 + i) }), ",")
	default:
		m.Method = "FETCH"
		if hit {
			want = pick(r, []string{"FETCH", "F*"})
		}
		x.Operation = strings.Join(bigItems(r, n, want, func(i int) string { return fmt.Sprintf("OP%d", i) }), ",")
	}
	if ok, decided := t.expectRule(x, m, D{}); decided {
		t.Obs(fmt.Sprintf("big:%v", ok))
		t.Eval(x.ResName + x.Operation + m.Path)
	}
}

// bigValue gives a method and value which hold, or just fail to hold, for a text
func bigValue(r *rand.Rand, s string, hit bool) (method string, value string) {
	v := s
	if !hit {
		v = nearText(r, s)
	}
	switch r.Intn(5) {
	case 0:
		return pick(r, []string{"EQ", "NEQ"}), v
	case 1:
		return pick(r, []string{"RE", "NRE"}), "^" + v + "$"
	case 2:
		return pick(r, []string{"RE", "NRE"}), v[len(v)-3:] + "$"
	case 3:
		return pick(r, []string{"IN", "NIN"}), strings.Join(bigItems(r, 3, v, padItem), ",")
	}
	return pick(r, []string{"IN", "NIN"}), strings.Join(bigItems(r, bigSize(r, 1025), v, padItem), ",")
}

// bigAttr: long texts and long value lists of message attributes, many labels
func (t *T) bigAttr() {
	r := t.R
	m := &ref.Msg{}
	genMsgAttrs(r, m)
	n := bigSize(r, 4097)
	s := bigText(r, n)
	if chance(r, 0.2) {
		s = "qshortq"
	}
	lf := &ref.Node{Op: "LEAF"}
	lf.Method, lf.Value = "", nil
	method, value := bigValue(r, s, chance(r, 0.6))
	lf.Method, lf.Value = caseOf(r, method), value
	switch r.Intn(6) {
	case 0:
		lf.Attr, m.UserAgent = "requestUseragent", s
	case 1:
		lf.Attr, m.Domain = "domain", s
	case 2:
		lf.Attr, m.EncType = "encryptionType", s
	case 3:
		lf.Attr, m.SenderNamespace = "$sender.namespace", s
	case 4:
		lf.Attr, m.ReceiverCluster = "$receiver.cluster", s
	default:
		labels := map[string]string{}
		for i := 0; i < n/4; i++ {
			labels[fmt.Sprintf("l%d", i)] = "v"
		}
		labels["wanted"] = s
		if chance(r, 0.5) {
			lf.Attr, m.SenderLabels = "senderLabel[wanted]", labels
		} else {
			lf.Attr, m.ReceiverLabels = "receiverLabel[wanted]", labels
		}
	}
	t.attrCase(lf, m)
	t.Obs("big")
}

// bigDoc: long texts, many keys, high indices and deep nesting in documents
func (t *T) bigDoc() {
	r := t.R
	n := bigSize(r, 4097)
	s := bigText(r, n)
	if chance(r, 0.3) {
		s = "qshortq"
	}
	method, value := bigValue(r, s, chance(r, 0.6))
	lf := &ref.Node{Op: "LEAF", Method: caseOf(r, method), Value: value, Path: &ref.Path{Root: ref.Abs}}
	var doc interface{}
	switch r.Intn(4) {
	case 0:
		doc = M{"a": s, "b": "x"}
		lf.Path.Segs = []ref.Seg{ref.N("a")}
	case 1: // many keys
		o := M{}
		for i := 0; i < n; i++ {
			o[fmt.Sprintf("k%d", i)] = "v"
		}
		key := fmt.Sprintf("k%d", n-1)
		o[key] = s
		doc = M{"a": o}
		lf.Path.Segs = []ref.Seg{ref.N("a"), ref.N(key)}
	case 2: // a long array
		l := make(L, n)
		for i := range l {
			l[i] = "v"
		}
		l[n-1] = s
		doc = M{"a": l}
		at := n - 1
		if chance(r, 0.2) {
			at = pick(r, []int{n - 2, n})
		}
		lf.Path.Segs = []ref.Seg{ref.N("a"), ref.I(at)}
	default: // deep
		k := n
		for k > 130 {
			k /= 2
		}
		doc = s
		var segs []ref.Seg
		for i := 0; i < k; i++ {
			doc = M{"d": doc, "s": "x"}
			segs = append(segs, ref.N("d"))
		}
		lf.Path.Segs = segs
		if chance(r, 0.2) {
			lf.Path.Segs[k-1] = ref.N("s")
		}
	}
	t.docCase(lf, doc, pick(r, docForms))
	t.Obs("big")
}

// widen makes a condition the last operand of a large group which keeps its value
func widen(r *rand.Rand, n *ref.Node, max int) *ref.Node {
	g := &ref.Node{Op: "AND"}
	method := "NEX"
	if chance(r, 0.5) {
		g.Op, method = "OR", "EX"
	}
	k := bigSize(r, max)
	for i := 0; i < k; i++ {
		g.Kids = append(g.Kids, &ref.Node{Op: "LEAF", Method: method, Value: "", Path: &ref.Path{Root: ref.Abs, Segs: []ref.Seg{ref.N(fmt.Sprintf("zz%d", i))}}})
	}
	if g.Op == "OR" {
		g.Kids[r.Intn(k)] = &ref.Node{Op: "LEAF", Method: "EQ", Value: bigText(r, bigSize(r, 4097)), Path: &ref.Path{Root: ref.Abs, Segs: []ref.Seg{ref.N("zz")}}}
	}
	if n != nil {
		g.Kids = append(g.Kids, n)
	}
	return g
}

// bigLists makes the lists of a rule long; what they held comes last
func (t *T) bigLists(x *ref.Rule) {
	r := t.R
	side := func(names *string, typ string) {
		switch typ {
		case "workload", "hostname":
			*names = pad(r, *names, ",", padWorkload)
		case "subnet":
			*names = pad(r, *names, ",", padSubnet)
		default:
			return
		}
		t.Obs("big list")
	}
	side(&x.SenderName, x.SenderType)
	side(&x.ReceiverName, x.ReceiverType)
	if x.Cond == nil {
		return
	}
	x.Cond.Walk(func(n *ref.Node) {
		v, ok := n.Value.(string)
		if n.Op != "LEAF" || !ok || v == "" || strings.HasPrefix(v, "(") {
			return
		}
		switch strings.ToUpper(n.Method) {
		case "IN", "NIN":
			n.Value = pad(r, strings.Trim(v, "[]"), ",", padItem)
		case "RE", "NRE":
			n.Value = pad(r, v, "|", padItem)
		default:
			return
		}
		t.Obs("big list")
	})
}
