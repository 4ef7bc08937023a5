package main

import (
	"fmt"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"

	"verif/harness/ref"
)

func init() {
	checks["C01"] = &check{run: c01, rule: "random lists of 0-9 (sometimes up to 150) rules of all decisions over one message, each list also reordered, extended and checked rule by rule; non-trivial: at least two rules apply", minQuick: 4000,
		need: map[string]int{"decision 0": 200, "decision 1": 200, "decision 2": 200, "decision 3": 200, "tie": 500, "reordered": 3000, "extended": 3000, "several applied": 3000, "long list": 40, "big": 100, "shared identifier": 1000}}
	checks["C02"] = &check{run: c02, rule: "sender and receiver name lists (wildcards, IPs, CIDRs, hostnames, unsupported types) against message names and addresses; the other rule parts match everything; non-trivial: every case is decided by the reference matcher", minQuick: 8000,
		need: map[string]int{"sender:workload:true": 300, "sender:workload:false": 300, "receiver:workload:true": 300, "receiver:hostname:true": 200, "receiver:hostname:false": 200, "sender:subnet:true": 300, "sender:subnet:false": 300, "receiver:subnet:true": 300, "invalid subnet": 200, "other type": 200, "address as text: true": 50, "address as text: false": 50, "big:true": 200, "big:false": 100, "line break": 300}}
	checks["C03"] = &check{run: c03, rule: "operation, protocol and resource of rules against method, protocol, type, path and port of messages: the full product of the documented words, then random patterns, then whole rules; non-trivial: every case is decided by the reference matcher", minQuick: 8000,
		need: map[string]int{"operation:true": 300, "operation:false": 300, "resource:true": 300, "resource:false": 300, "whole:true": 300, "whole:false": 300, "unknown decision": 100, "big:true": 200, "big:false": 100, "line break": 300}}
}

var decisionText = []string{"rules do not apply to message - block by default", "allow", "alert", "block"}

func c01(t *T) {
	for i := t.N(160, 1600); i > 0; i-- {
		t.bigRules()
	}
	n := t.N(12000, 160000)
	for i := 0; i < n; i++ {
		r := t.R
		m := genBasicMsg(r)
		genMsgAttrs(r, m)
		if chance(r, 0.5) {
			m.Doc, m.HasDoc = genDoc(r), true
		}
		k := r.Intn(10)
		if chance(r, 0.1) && t.Thorough() || chance(r, 0.01) {
			k = 10 + r.Intn(140)
			t.Obs("long list")
		}
		shared := chance(r, 0.2) // rules with equal or without identifiers
		if shared {
			t.Obs("shared identifier")
		}
		var xs []*ref.Rule
		for j := 0; j < k; j++ {
			var cond *ref.Node
			if chance(r, 0.4) {
				cond = genTree(r, m, r.Intn(3), treeOpts{attrs: true, ret: true})
			}
			x := genRule(r, m, fmt.Sprintf("id%d", j), cond)
			if chance(r, 0.4) { // a rule which applies to everything, for ties
				x = plainRule(nil)
				x.ID = fmt.Sprintf("id%d", j)
				x.Decision = pick(r, []string{"allow", "alert", "block", "ALLOW", "Alert", "Block"})
			}
			if chance(r, 0.5) {
				x.Meta = map[string]string{"description": fmt.Sprintf("about %d", j), "other": "x"}
				switch r.Intn(8) {
				case 0:
					delete(x.Meta, "description")
				case 1:
					x.Meta["description"] = pick(r, specialTexts)
				case 2:
					x.Meta["description"] = "about"
				}
			}
			if shared {
				x.ID = pick(r, []string{"", "id", "id", "other"})
			}
			if len(xs) > 0 && chance(r, 0.1) {
				x = pick(r, xs)
			}
			xs = append(xs, x)
		}
		// reference
		want := make([]int, k)
		var wantData [][]string
		if !t.InDomain(func() {
			for j, x := range xs {
				d, data := ref.Applies(x, m)
				want[j] = d
				wantData = append(wantData, sortedCopy(normData(data)))
			}
		}) {
			continue
		}
		text := rulesText(xs, r)
		d := D{"rules": text, "message": msgDetail(m)}
		t.Begin(text)
		rules := t.mustLoad(text, d)
		msg := buildMsg(m, pick(r, docForms), r)
		t.checkList(&rules, xs, want, wantData, msg, d)
		applied := 0
		best := 0
		for _, w := range want {
			if w > 0 {
				applied++
			}
			if w > best {
				best = w
			}
		}
		ties := 0
		for _, w := range want {
			if w == best && best > 0 {
				ties++
			}
		}
		t.Obs(fmt.Sprintf("decision %d", best))
		if ties > 1 {
			t.Obs("tie")
		}
		key := ""
		if applied > 1 {
			t.Obs("several applied")
			key = text + jsonText(d["message"])
		}
		t.Eval(key)

		// reordering
		perm := r.Perm(k)
		var p me.Rules
		pw := make([]int, k)
		var px []*ref.Rule
		var pd [][]string
		for to, from := range perm {
			p.Rules = append(p.Rules, rules.Rules[from])
			px = append(px, xs[from])
			pw[to] = want[from]
			pd = append(pd, wantData[from])
		}
		d["order"] = perm
		if got := t.checkList(&p, px, pw, pd, msg, d); got != best {
			d["expected"], d["got"] = best, got
			t.Fail("reordering the rules changed the decision", d)
		}
		t.Obs("reordered")
		// one more rule never makes the decision less restrictive
		extra := genRule(r, m, "extra", nil)
		var ew int
		if !t.InDomain(func() { ew, _ = ref.Applies(extra, m) }) {
			continue
		}
		et := rulesText([]*ref.Rule{extra}, r)
		d["added"] = et
		er := t.mustLoad(et, d)
		at := r.Intn(k + 1)
		var q me.Rules
		q.Rules = append(q.Rules, rules.Rules[:at]...)
		q.Rules = append(q.Rules, er.Rules[0])
		q.Rules = append(q.Rules, rules.Rules[at:]...)
		var dec int
		t.Call("Check", d, func() { dec, _, _, _, _, _, _ = me.Check(msg, &q) })
		exp := best
		if ew > exp {
			exp = ew
		}
		if dec != exp {
			d["expected"], d["got"] = exp, dec
			t.Fail("adding a rule gave the wrong decision", d)
		}
		t.Obs("extended")
		t.Sample(fmt.Sprintf("decision %d", best), d)
	}
}

// checkList checks a rule list as a whole and rule by rule against the expected outcomes
func (t *T) checkList(rules *me.Rules, xs []*ref.Rule, want []int, wantData [][]string, msg *me.MessageAttributes, d D) int {
	var dec, rel int
	var str, desc string
	var results, applied []int
	var extra [][]map[string]interface{}
	t.Call("Check", d, func() { dec, str, rel, results, applied, desc, extra = me.Check(msg, rules) })
	best, bestAt := 0, -1
	wantApplied := []int{}
	for i, w := range want {
		if w > 0 {
			wantApplied = append(wantApplied, i)
		}
		if w > best {
			best, bestAt = w, i
		}
	}
	wantDesc := ""
	if bestAt >= 0 {
		wantDesc = xs[bestAt].Meta["description"]
	}
	fail := func(what string, e, g interface{}) {
		d["expected"], d["got"] = e, g
		t.Fail(what, d)
	}
	if !sameInts(results, want) {
		fail("per-rule outcomes differ from checking the rules alone (reference)", want, results)
	}
	if dec != best {
		fail("decision is not the most restrictive one", best, dec)
	}
	if !sameInts(applied, wantApplied) {
		fail("positions of the applied rules", wantApplied, applied)
	}
	if rel != bestAt {
		fail("deciding rule", bestAt, rel)
	}
	if str != decisionText[best] {
		fail("decision text", decisionText[best], str)
	}
	if desc != wantDesc {
		fail("description of the deciding rule", wantDesc, desc)
	}
	if len(extra) != len(want) {
		fail("number of returned data lists", len(want), len(extra))
	}
	for i := range rules.Rules {
		if want[i] > 0 {
			if g := sortedCopy(normData(extra[i])); !sameList(g, wantData[i]) {
				fail(fmt.Sprintf("returned data of rule %d", i), wantData[i], g)
			}
		}
		var one int
		var oneData []map[string]interface{}
		t.Call("CheckOneRule", d, func() { one, oneData = me.CheckOneRule(msg, &rules.Rules[i]) })
		if one != want[i] {
			fail(fmt.Sprintf("outcome of rule %d alone", i), want[i], one)
		}
		if want[i] > 0 {
			if g := sortedCopy(normData(oneData)); !sameList(g, wantData[i]) {
				fail(fmt.Sprintf("returned data of rule %d alone", i), wantData[i], g)
			}
		}
	}
	return dec
}

// one rule, one message, decision only
func (t *T) expectRule(x *ref.Rule, m *ref.Msg, d D) (applied, ok bool) {
	var want int
	if !t.InDomain(func() { want, _ = ref.Applies(x, m) }) {
		return false, false
	}
	text := rulesText([]*ref.Rule{x}, t.R)
	d["rules"], d["message"] = text, msgDetail(m)
	t.Begin(text)
	rules := t.mustLoad(text, d)
	msg := buildMsg(m, pick(t.R, docForms), t.R)
	var got int
	switch t.R.Intn(3) {
	case 0:
		t.Call("rule.Check", d, func() { got, _ = rules.Rules[0].Check(msg) })
	case 1:
		t.Call("CheckOneRule", d, func() { got, _ = me.CheckOneRule(msg, &rules.Rules[0]) })
	default:
		t.Call("Check", d, func() { got, _, _, _, _, _, _ = me.Check(msg, &rules) })
	}
	if got != want {
		d["expected"], d["got"] = want, got
		t.Fail("decision differs from the reference", d)
	}
	return want > 0, true
}

// textOnly tells whether the text of an address is enough to decide the entries
func textOnly(names, typ, ip string) bool {
	if typ != "subnet" {
		return true
	}
	for _, n := range strings.Split(names, ",") {
		if n == "*" || strings.Contains(n, "/") || n != ip && ref.MatchSubnet(n, ip) {
			return false
		}
	}
	return true
}

// textAddress checks a message made in code whose addresses are given as texts only
func (t *T) textAddress(x *ref.Rule, m *ref.Msg, want bool) {
	text := rulesText([]*ref.Rule{x}, nil)
	d := D{"rules": text, "message": msgDetail(m), "addresses": "as texts only"}
	rules := t.mustLoad(text, d)
	msg := buildMsg(m, pick(t.R, docForms), t.R)
	msg.SourceNetIp, msg.DestinationNetIp = nil, nil
	var got int
	t.Call("rule.Check", d, func() { got, _ = rules.Rules[0].Check(msg) })
	if (got > me.DEFAULT) != want {
		d["expected"], d["got"] = want, got
		t.Fail("matching of an address given as text", d)
	}
	if x.SenderType == "subnet" || x.ReceiverType == "subnet" {
		t.Obs(fmt.Sprintf("address as text: %v", want))
	}
}

func c02(t *T) {
	r := t.R
	for i := t.N(600, 6000); i > 0; i-- {
		t.bigSides()
	}
	n := t.N(100000, 900000)
	for i := 0; i < n; i++ {
		m := genBasicMsg(r)
		x := plainRule(nil)
		side := "sender"
		if chance(r, 0.5) {
			side = "receiver"
		}
		if chance(r, 0.07) {
			side = "both"
		}
		if side == "sender" || side == "both" {
			x.SenderName, x.SenderType = genSide(r, m.SenderName, m.SenderIP, "", false)
		}
		if side == "receiver" || side == "both" {
			x.ReceiverName, x.ReceiverType = genSide(r, m.ReceiverName, m.ReceiverIP, m.Host, true)
		}
		if chance(r, 0.1) {
			t.invalidSubnet(m, side)
			continue
		}
		if chance(r, 0.04) {
			breakLine(r, m)
			t.Obs("line break")
		}
		ok, decided := t.expectRule(x, m, D{})
		if !decided {
			continue
		}
		if i%4 == 0 && textOnly(x.SenderName, x.SenderType, m.SenderIP) && textOnly(x.ReceiverName, x.ReceiverType, m.ReceiverIP) {
			t.textAddress(x, m, ok)
		}
		typ := x.SenderType
		if side == "receiver" {
			typ = x.ReceiverType
		}
		switch typ {
		case "workload", "subnet", "hostname":
			t.Obs(fmt.Sprintf("%s:%s:%v", side, typ, ok))
		case "*":
		default:
			t.Obs("other type")
		}
		t.Eval(jsonText([]interface{}{x, m.SenderName, m.ReceiverName, m.SenderIP, m.ReceiverIP, m.Host}))
		t.Sample(fmt.Sprintf("%s:%s:%v", side, typ, ok), D{"sender": x.SenderName, "senderType": x.SenderType, "receiver": x.ReceiverName, "receiverType": x.ReceiverType, "message": msgDetail(m), "applies": ok})
	}
	// exhaustive: every pattern of up to 3 (4) characters over a small alphabet against every short name
	alpha := []string{"a", ".", "*", "?"}
	maxLen := 3
	if t.Thorough() {
		maxLen = 4
	}
	var pats []string
	var build func(s string)
	build = func(s string) {
		if s != "" {
			pats = append(pats, s)
		}
		if len(s) < maxLen {
			for _, c := range alpha {
				build(s + c)
			}
		}
	}
	build("")
	names := []string{"", "a", ".", "aa", "a.", ".a", "ab", "b", "aaa", "a.a", "aba", "axa", "aaaa", "a.aa", "A", "\n", "a\n", "a\na", "\n."}
	for pi, p := range pats {
		if !t.Mine(pi) {
			continue
		}
		for _, typ := range []string{"sender workload", "receiver workload", "hostname"} {
			x := plainRule(nil)
			switch typ {
			case "sender workload":
				x.SenderName, x.SenderType = p, "workload"
			case "receiver workload":
				x.ReceiverName, x.ReceiverType = p, "workload"
			default:
				x.ReceiverName, x.ReceiverType = p, "hostname"
			}
			text := rulesText([]*ref.Rule{x}, nil)
			d := D{"rules": text}
			t.Begin(text)
			rules := t.mustLoad(text, d)
			for _, name := range names {
				m := &ref.Msg{SenderName: "zz", ReceiverName: "zz", Host: "zz"}
				switch typ {
				case "sender workload":
					m.SenderName = name
				case "receiver workload":
					m.ReceiverName = name
				default:
					m.Host = name
				}
				var got int
				msg := buildMsg(m, formNone, nil)
				t.Call("rule.Check", d, func() { got, _ = rules.Rules[0].Check(msg) })
				if (got != 0) != ref.Glob(p, name) {
					d["pattern"], d["name"], d["got"], d["expected"] = p, name, got, ref.Glob(p, name)
					t.Fail("wildcard pattern matched wrongly ("+typ+")", d)
				}
				t.Eval(typ + p + "\x00" + name)
			}
		}
	}
	// every prefix length with the boundary bits flipped
	for n := 0; n <= 32; n++ {
		if !t.Mine(n) {
			continue
		}
		for bit := 0; bit < 32; bit++ {
			a, _, _ := ref.ParseIP("172.217.90.165")
			b := a
			b[12+bit/8] ^= 1 << (7 - uint(bit%8))
			t.subnetCase(fmt.Sprintf("%s/%d", ipText(a, true), n), ipText(b, true))
		}
	}
	for n := 0; n <= 128; n++ {
		if !t.Mine(n) {
			continue
		}
		for bit := 0; bit < 128; bit += 1 + r.Intn(5) {
			a, _, _ := ref.ParseIP("2001:db8:85a3:8d3:1319:8a2e:370:7348")
			b := a
			b[bit/8] ^= 1 << (7 - uint(bit%8))
			t.subnetCase(fmt.Sprintf("%s/%d", ipText(a, false), n), ipText(b, false))
		}
	}
}

func (t *T) subnetCase(entry, ip string) {
	for _, recv := range []bool{false, true} {
		x := plainRule(nil)
		m := &ref.Msg{SenderIP: "9.9.9.9", ReceiverIP: "9.9.9.9"}
		if recv {
			x.ReceiverName, x.ReceiverType, m.ReceiverIP = entry, "subnet", ip
		} else {
			x.SenderName, x.SenderType, m.SenderIP = entry, "subnet", ip
		}
		if _, ok := t.expectRule(x, m, D{}); ok {
			t.Eval(fmt.Sprint("subnet", recv, entry, ip))
		}
	}
}

// invalidSubnet: a subnet list with an entry that is neither address nor range makes the rule invalid
func (t *T) invalidSubnet(m *ref.Msg, side string) {
	r := t.R
	bad := pick(r, []string{"10.0.0", "10.0.0.256", "10.0.0.1/33", "x", "a.b.c.d", "10.0.0.1/", "10.0.0.1/-1", "10.0.0.1/x", "2001:db8::/129", ":::1", "1.2.3.4.5", "svc1", "10.0.0.*", "2001:::1/64", "300.0.0.0/8"})
	list := []string{genSubnet(r, m.SenderIP), bad}
	names := list[1]
	switch r.Intn(3) {
	case 0:
		names = list[0] + "," + list[1]
	case 1:
		names = list[1] + "," + list[0]
	}
	x := plainRule(nil)
	if side == "receiver" {
		x.ReceiverName, x.ReceiverType = names, "subnet"
	} else {
		x.SenderName, x.SenderType = names, "subnet"
	}
	text := rulesText([]*ref.Rule{x}, r)
	d := D{"rules": text, "message": msgDetail(m)}
	t.Begin(text)
	rules, err := t.load(text, d)
	t.Obs("invalid subnet")
	t.Eval("invalid" + text)
	if err != nil {
		return // rejected when loading
	}
	var verr error
	t.Call("ValidateRule", d, func() { verr = me.ValidateRule(&rules.Rules[0]) })
	if verr == nil {
		t.Fail("a rule with an invalid subnet passed validation", d)
	}
	msg := buildMsg(m, formNone, nil)
	var got int
	t.Call("rule.Check", d, func() { got, _ = rules.Rules[0].Check(msg) })
	if got != 0 {
		d["got"] = got
		t.Fail("a rule with an invalid subnet applied", d)
	}
}

func c03(t *T) {
	r := t.R
	for i := t.N(600, 6000); i > 0; i-- {
		t.bigResource()
	}
	// product of the documented words
	idx := 0
	for _, op := range []string{"*", "read", "READ", "write", "WRITE", "GET", "POST", "GET,POST", "POST, GET", "GE?", "P*", "*T", "?", "G", "GETX", "PUT,DELETE,PATCH", "Read", "Write", "rEAD", "wRITE", "reaD", "read,write", "READ,GET", "read ", "*,GET", "**", "$", "G^T", "G$T", "", "*E*T*", "*G*E*T*X*"} {
		for _, method := range append(append([]string{}, methodPool...), "READS", "xread", "PATCH", "OPTION", "reads", "HEADX", "XHEAD", "OPTIONSX", "XOPTIONS", "TRACEX", "XTRACE", "POSTX", "XPOST", "PUTX", "XPUT", "DELETEX", "XDELETE", "PRODUCEX", "XPRODUCE", "CONSUMEX", "XCONSUME", "consume", "produce", "post", "head", "GET,POST", "GETHEAD", "GET|HEAD", " GET", "GET ", "Read", "Write", "wRITE", "G$T", "G^T", "$", "read ", "GEXT") {
			idx++
			if !t.Mine(idx) {
				continue
			}
			x := plainRule(nil)
			x.Operation = op
			m := &ref.Msg{Method: method}
			ok, dec := t.expectRule(x, m, D{})
			if dec {
				t.Obs(fmt.Sprintf("operation:%v", ok))
				t.Eval("op" + op + "\x00" + method)
			}
		}
	}
	for _, proto := range []string{"*", "tcp", "http", "HTTP", "Http", "kafka", "TCP", "grpc", "", "Tcp", "tc"} {
		for _, rt := range []string{"*", "path", "port", "kafkaTopic", "", "Path"} {
			for _, rn := range []string{"*", "/a$b", "*a*b*", "/a", "/a/*", "/a?b", "/a.b", "80", "8*", "/a,/b", "80,443", "a", "/a, /books", "?", "/a/", "//a", "/a?x=1", "/a#b", "080", "/a%2Fb"} {
				for _, mp := range []string{"http", "HTTP", "tcp", "kafka", "", "Tcp"} {
					for _, mt := range []string{"path", "port", "", "kafkaTopic", "Path"} {
						idx++
						if !t.Mine(idx) || (!t.Thorough() && idx%4 != 0) {
							continue
						}
						x := plainRule(nil)
						x.Protocol, x.ResType, x.ResName = proto, rt, rn
						m := &ref.Msg{Protocol: mp, Type: mt, Path: pick(r, append(pathPool, "/a$b", "/a/x/b")), Port: pick(r, portPool)}
						ok, dec := t.expectRule(x, m, D{})
						if dec {
							t.Obs(fmt.Sprintf("resource:%v", ok))
							t.Eval(jsonText([]string{proto, rt, rn, mp, mt, m.Path, m.Port}))
						}
					}
				}
			}
		}
	}
	n := t.N(60000, 700000)
	for i := 0; i < n; i++ {
		m := genBasicMsg(r)
		x := plainRule(nil)
		kind := r.Intn(4)
		name := "whole"
		switch kind {
		case 0:
			x.Operation = genOperation(r, m)
			name = "operation"
		case 1:
			genResource(r, m, x)
			name = "resource"
		default:
			genMsgAttrs(r, m)
			var cond *ref.Node
			if chance(r, 0.4) {
				cond = genTree(r, m, r.Intn(2), treeOpts{attrs: true})
			}
			x = genRule(r, m, "r", cond)
			if chance(r, 0.08) {
				x.Decision = pick(r, []string{"", "deny", "Blocked", "none", "allowed", "default", "blocks", "BLOCKED", "x", " block", "block ", "allow,block", "alert\n"})
				name = "unknown decision"
			}
		}
		if chance(r, 0.04) {
			breakLine(r, m)
			t.Obs("line break")
		}
		ok, dec := t.expectRule(x, m, D{})
		if !dec {
			continue
		}
		if name == "unknown decision" {
			t.Obs(name)
		} else {
			t.Obs(fmt.Sprintf("%s:%v", name, ok))
		}
		t.Eval(jsonText([]interface{}{ruleGeneric(x, nil), m}))
		t.Sample(fmt.Sprintf("%s:%v", name, ok), D{"rule": ruleGeneric(x, nil), "message": msgDetail(m), "applies": ok})
	}
}
