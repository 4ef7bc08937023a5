package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
	"gopkg.in/yaml.v2"

	"verif/harness/ref"
)

func init() {
	checks["C11"] = &check{run: c11, rule: "random rules (special characters, typed values, return values, metadata) read from YAML, JSON or BSON and sent through chains of JSON/BSON conversions with uses in between; after every hop the fields, hashes, decision and data are compared with the original; non-trivial: the rule has conditions and went through at least one hop", minQuick: 4000,
		need: map[string]int{"hop json": 4000, "hop bson": 4000, "hop json list": 1000, "start yaml": 1000, "start json": 1000, "start bson": 1000, "used between": 3000, "applies": 1000, "special value": 1000, "typed value": 1000}}
	checks["C12"] = &check{run: c12, rule: "random rules: rewritings that must keep the hash (operand order, single-operand groups, letter case, identifiers, metadata, preparation and use, spelling of the text) and single changes that must alter it; non-trivial: every rewriting and every change", minQuick: 8000,
		need: map[string]int{"kept": 6000, "changed": 6000, "change value": 200, "change method": 200, "change attribute": 200, "change AND/OR": 100, "change NOT": 200, "change ANY/ALL": 100, "change parent": 100, "change return value": 50, "change operand dropped": 100, "equal conditions": 1000, "different conditions": 1000}}
}

// ---- C11 -------------------------------------------------------------------------------------------

var specialTexts = []string{"a\"b", "a\\b", "\\", "\"", "tab\there", "line\nbreak", "é", "日本", "<a&b>", "'", "a'b", " x", "%s%d", "{}", "[a]", "a: b", "- a", "!x", "&a", "*", "@x", "`", "null", "~", "yes", "no", "0x10", "1e3", "007", ".5", "true", "\u0001", "\u007f", "a#b", " lead", "trail ", "a,b", "$", "😀", "1_000", "12:30", "2020-01-01", "+1", "-0", "1.0", "1.50", "$.a", "${x}", "a\r\nb"}

// specialLeaf makes a condition with a difficult value
func specialLeaf(r *rand.Rand, m *ref.Msg) *ref.Node {
	s := pick(r, specialTexts)
	if chance(r, 0.3) {
		s += pick(r, specialTexts)
	}
	doc := m.Doc.(map[string]interface{})
	if chance(r, 0.7) {
		doc["special"] = s
	}
	return &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Abs, Segs: []ref.Seg{ref.N("special")}}, Method: pick(r, []string{"EQ", "NEQ", "eq"}), Value: s}
}

func typedLeaf(r *rand.Rand, m *ref.Msg) *ref.Node {
	doc := m.Doc.(map[string]interface{})
	var v interface{}
	text := ""
	switch r.Intn(3) {
	case 0:
		v = pick(r, []interface{}{0, 1, -1, 5, 100, 1000, 1000000, 123456789, 10000000000, 9007199254740991, -20})
		text = fmt.Sprint(v)
	case 1:
		v = pick(r, []interface{}{0.5, 1.5, -2.25, 1000000.5, 0.001, 0.0001, 1e21, 123456789.125, 1e-7})
		b, _ := json.Marshal(v)
		text = strings.Replace(string(b), "e+", "e", 1)
	default:
		v = chance(r, 0.5)
		text = fmt.Sprint(v)
	}
	if chance(r, 0.7) {
		if b, ok := v.(bool); ok {
			doc["typed"] = b
		} else {
			doc["typed"] = num(text)
		}
	}
	meth := pick(r, []string{"EQ", "NEQ", "eq"})
	if _, ok := v.(bool); !ok && chance(r, 0.4) {
		meth = pick(r, []string{"GE", "LT", "le", "gt"})
	}
	return &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Abs, Segs: []ref.Seg{ref.N("typed")}}, Method: meth, Value: v}
}

type ruleView struct {
	ID, SN, ST, RN, RT, Proto, ResT, ResN, Op, Dec, Hash string
	Meta                                                 map[string]string
}

func viewOf(x *me.Rule) ruleView {
	v := ruleView{x.RuleID, x.Sender.SenderName, x.Sender.SenderType, x.Receiver.ReceiverName, x.Receiver.ReceiverType, x.Protocol, x.Resource.ResourceType, x.Resource.ResourceName, x.Operation, x.Decision, x.Hash, nil}
	if len(x.Metadata) > 0 {
		v.Meta = x.Metadata
	}
	return v
}

// toBSON converts a generic value to what a BSON document holds
func bsonBytes(g interface{}) []byte {
	b, err := bson.Marshal(g)
	if err != nil {
		panic(err)
	}
	return b
}

func c11(t *T) {
	r := t.R
	n := t.N(12000, 160000)
	for i := 0; i < n; i++ {
		m := genBasicMsg(r)
		genMsgAttrs(r, m)
		m.Doc, m.HasDoc = genDoc(r), true
		var cond *ref.Node
		if chance(r, 0.95) {
			cond = genTree(r, m, r.Intn(4), treeOpts{attrs: true, ret: true, absInside: true, multi: true, mapOrder: true, deep: true})
		}
		if chance(r, 0.5) {
			extra := typedLeaf
			name := "typed value"
			if chance(r, 0.5) {
				extra, name = specialLeaf, "special value"
			}
			lf := extra(r, m)
			t.Obs(name)
			if cond == nil || chance(r, 0.3) {
				cond = lf
			} else {
				cond = &ref.Node{Op: pick(r, []string{"AND", "OR"}), Kids: []*ref.Node{cond, lf}}
			}
		}
		if chance(r, 0.005) {
			cond = widen(r, cond, 1025)
			t.Obs("big")
		}
		var x *ref.Rule
		if chance(r, 0.5) {
			x = plainRule(cond)
			x.ID = pick(r, []string{"", "r-1", "id with \"quotes\"", "é"})
		} else {
			x = genRule(r, m, "r1", cond)
		}
		if chance(r, 0.6) {
			x.Meta = map[string]string{"description": pick(r, specialTexts), "other": "x", pick(r, []string{"a.b", "k", "x y"}): pick(r, specialTexts)}
			if chance(r, 0.9) {
				delete(x.Meta, "a.b")
			}
		}
		var want int
		var wantData []string
		if !t.InDomain(func() {
			d, data := ref.Applies(x, m)
			want, wantData = d, sortedCopy(normData(data))
		}) {
			continue
		}
		g := ruleGeneric(x, r)
		if chance(r, 0.2) {
			g["hash"] = "h-1"
		}
		d := D{"rule": jsonText(g), "message": msgDetail(m)}
		t.Begin(jsonText(g))

		// the same rule from three kinds of source
		src := map[string]*me.Rule{}
		ytext, err := yaml.Marshal(M{"rules": L{g}})
		if err != nil {
			panic(err)
		}
		rs := t.mustLoad(string(ytext), d)
		src["yaml"] = &rs.Rules[0]
		jr := &me.Rule{}
		t.Call("json.Unmarshal(rule)", d, func() { err = json.Unmarshal([]byte(jsonText(g)), jr) })
		if err != nil {
			d["error"] = err.Error()
			t.Fail("a valid rule in JSON was rejected", d)
		}
		src["json"] = jr
		br := &me.Rule{}
		_, bsonable := g["conditions"].([]interface{}) // BSON conditions are documents, not lists
		if !bsonable {
			t.Call("bson.Unmarshal(rule)", d, func() { err = bson.Unmarshal(bsonBytes(g), br) })
			if err != nil {
				d["error"] = err.Error()
				t.Fail("a valid rule in BSON was rejected", d)
			}
			src["bson"] = br
		}
		ys := src["yaml"]
		view, str := viewOf(ys), me.RuleToString(*ys)
		hash, chash := me.RuleMD5Hash(*ys), me.RuleMD5HashConditions(*ys)
		if view.ID != x.ID || view.SN != x.SenderName || view.ST != x.SenderType || view.RN != x.ReceiverName || view.RT != x.ReceiverType || view.Proto != x.Protocol || view.ResT != x.ResType || view.ResN != x.ResName || view.Op != x.Operation || view.Dec != x.Decision || (len(x.Meta) > 0 || len(view.Meta) > 0) && !reflect.DeepEqual(view.Meta, x.Meta) {
			d["loaded"] = view
			t.Fail("loading changed a field of the rule", d)
		}
		msg := buildMsg(m, pick(r, docForms), r)
		chain := []string{}
		same := func(q *me.Rule) {
			d["chain"] = chain
			if v := viewOf(q); !reflect.DeepEqual(v, view) {
				d["expected"], d["got"] = view, v
				t.Fail("fields of the rule changed", d)
			}
			if h := me.RuleMD5Hash(*q); h != hash {
				d["expected"], d["got"] = str, me.RuleToString(*q)
				t.Fail("hash of the rule changed", d)
			}
			if h := me.RuleMD5HashConditions(*q); h != chash {
				t.Fail("hash of the conditions changed", d)
			}
			if !q.ConditionsEqual(*ys) || !ys.ConditionsEqual(*q) {
				t.Fail("conditions are reported as different", d)
			}
		}
		decide := func(q *me.Rule) {
			var dec int
			var data []map[string]interface{}
			t.Call("rule.Check", d, func() { dec, data = q.Check(msg) })
			if dec != want {
				d["expected"], d["got"], d["chain"] = want, dec, chain
				t.Fail("the reloaded rule decides differently", d)
			}
			if want > 0 {
				if g := sortedCopy(normData(data)); !sameList(g, wantData) {
					d["expected"], d["got"], d["chain"] = wantData, g, chain
					t.Fail("the reloaded rule returns different values", d)
				}
			}
		}
		for _, k := range sortedKeys(src) {
			chain = []string{"start " + k}
			t.Obs("start " + k)
			q := src[k]
			same(q)
			if chance(r, 0.5) {
				decide(q)
				same(q)
			}
			for hop := 1 + r.Intn(4); hop > 0; hop-- {
				switch r.Intn(5) {
				case 0, 1:
					chain = append(chain, "json")
					q = t.hopJSON(q, d)
					t.Obs("hop json")
				case 2, 3:
					chain = append(chain, "bson")
					q = t.hopBSON(q, d)
					t.Obs("hop bson")
				default:
					chain = append(chain, "json list")
					var b []byte
					t.Call("json.Marshal(rules)", d, func() { b, err = json.Marshal(me.Rules{Rules: []me.Rule{*q, *q}}) })
					if err != nil {
						d["error"] = err.Error()
						t.Fail("saving rules failed", d)
					}
					var back me.Rules
					t.Call("json.Unmarshal(rules)", d, func() { err = json.Unmarshal(b, &back) })
					if err != nil || len(back.Rules) != 2 {
						d["error"], d["saved"] = fmt.Sprint(err), string(b)
						t.Fail("reloading saved rules failed", d)
					}
					q = &back.Rules[r.Intn(2)]
					t.Obs("hop json list")
				}
				same(q)
				if chance(r, 0.4) {
					chain = append(chain, "use")
					t.Obs("used between")
					decide(q)
					if chance(r, 0.3) {
						t.Call("SetPredefinedStringsAndLists", d, func() { q.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) })
						t.Call("ValidateRule", d, func() { err = me.ValidateRule(q) })
						if err != nil {
							d["error"], d["chain"] = err.Error(), chain
							t.Fail("the reloaded rule is invalid", d)
						}
					}
					same(q)
					if p := q.GetPreparedRule(); p != nil && p.Decision != "" && chance(r, 0.5) {
						d["prepared form saved"] = true
						var again *me.Rule
						if chance(r, 0.5) {
							again = t.hopJSON(p, d)
						} else {
							again = t.hopBSON(p, d)
						}
						t.Obs("hop prepared")
						same(again)
						delete(d, "prepared form saved")
					}
				}
			}
			decide(q)
			same(q)
		}
		if want > 0 {
			t.Obs("applies")
		}
		key := ""
		if cond != nil {
			key = jsonText(g)
		}
		t.Eval(key)
		t.Sample(fmt.Sprint("conditions ", cond != nil), d)
	}
}

func (t *T) hopJSON(q *me.Rule, d D) *me.Rule {
	var b []byte
	var err error
	t.Call("json.Marshal(rule)", d, func() { b, err = json.Marshal(q) })
	if err != nil {
		d["error"] = err.Error()
		t.Fail("saving a rule as JSON failed", d)
	}
	out := &me.Rule{}
	t.Call("json.Unmarshal(rule)", d, func() { err = json.Unmarshal(b, out) })
	if err != nil {
		d["error"], d["saved"] = err.Error(), string(b)
		t.Fail("reloading a rule from JSON failed", d)
	}
	return out
}

func (t *T) hopBSON(q *me.Rule, d D) *me.Rule {
	var b []byte
	var err error
	t.Call("bson.Marshal(rule)", d, func() { b, err = bson.Marshal(q) })
	if err != nil {
		d["error"] = err.Error()
		t.Fail("saving a rule as BSON failed", d)
	}
	out := &me.Rule{}
	t.Call("bson.Unmarshal(rule)", d, func() { err = bson.Unmarshal(b, out) })
	if err != nil {
		d["error"] = err.Error()
		t.Fail("reloading a rule from BSON failed", d)
	}
	return out
}

// ---- C12 -------------------------------------------------------------------------------------------

// keepHash gives a tree with the same canonical form
func keepHash(r *rand.Rand, n *ref.Node) *ref.Node {
	c := n.Clone()
	for i := range c.Kids {
		c.Kids[i] = keepHash(r, c.Kids[i])
	}
	if c.Op == "AND" || c.Op == "OR" {
		r.Shuffle(len(c.Kids), func(i, j int) { c.Kids[i], c.Kids[j] = c.Kids[j], c.Kids[i] })
		if len(c.Kids) == 1 && chance(r, 0.5) {
			return c.Kids[0]
		}
	}
	if chance(r, 0.15) {
		return &ref.Node{Op: pick(r, []string{"AND", "OR"}), Kids: []*ref.Node{c}}
	}
	return c
}

func nodes(n *ref.Node) []*ref.Node {
	var out []*ref.Node
	n.Walk(func(k *ref.Node) { out = append(out, k) })
	return out
}

// changeTree makes one meaning-bearing change somewhere in the tree; "" when none was possible at the chosen node
func changeTree(r *rand.Rand, root *ref.Node) (*ref.Node, string) {
	c := root.Clone()
	all := nodes(c)
	n := pick(r, all)
	switch n.Op {
	case "LEAF":
		switch r.Intn(5) {
		case 0:
			s := n.ValueText()
			switch {
			case isNumberMethod(n.Method) || n.Attr == "payloadSize" || n.Attr == "encryptionVersion" || n.Attr == "utcHoursFromMidnight":
				n.Value = pick(r, []string{"77", "78", "3.25"})
			case strings.HasPrefix(s, "$receiver.") || strings.HasPrefix(s, "receiverLabel["):
				n.Value = "other"
			default:
				n.Value = s + pick(r, []string{"x", "0", "é", " ", strings.Repeat("z", 50)})
				if b := []rune(s); len(b) > 0 && chance(r, 0.5) && !strings.HasPrefix(strings.ToUpper(n.Method), "RE") && !strings.HasPrefix(strings.ToUpper(n.Method), "NRE") {
					i := r.Intn(len(b))
					n.Value = string(b[:i]) + "q" + string(b[i:])
				}
			}
			if n.ValueText() == s {
				return nil, ""
			}
			return c, "value"
		case 1:
			u := strings.ToUpper(n.Method)
			to := map[string]string{"EQ": "NEQ", "NEQ": "EQ", "NE": "EQ", "GT": "GE", "GE": "GT", "LT": "LE", "LE": "LT", "RE": "NRE", "NRE": "RE", "IN": "NIN", "NIN": "IN", "EX": "NEX", "NEX": "EX", "IS": "IN"}[u]
			if n.Attr == "encryptionVersion" && to == "NEQ" {
				to = "GE"
			}
			if n.Method == strings.ToLower(n.Method) {
				to = strings.ToLower(to)
			}
			n.Method = to
			return c, "method"
		case 2:
			if n.Path != nil {
				p := *n.Path
				p.Segs = append(append([]ref.Seg(nil), p.Segs...), ref.N("zz"))
				if p.Root == ref.Key {
					p = ref.Path{Root: ref.Value}
				}
				n.Path = &p
				return c, "attribute"
			}
			if strings.HasPrefix(n.Attr, "senderLabel[") {
				n.Attr = "receiverLabel[" + strings.TrimPrefix(n.Attr, "senderLabel[")
				if strings.HasPrefix(n.ValueText(), "receiverLabel[") {
					n.Value = "other"
				}
				return c, "attribute"
			}
			if strings.HasPrefix(n.Attr, "$sender.") && !strings.HasPrefix(n.ValueText(), "$") {
				n.Attr = "$receiver." + strings.TrimPrefix(n.Attr, "$sender.")
				return c, "attribute"
			}
			if n.Attr == "domain" {
				n.Attr = "encryptionType"
				return c, "attribute"
			}
			return nil, ""
		default: // wrap
			k := n.Clone()
			*n = ref.Node{Op: "NOT", Kids: []*ref.Node{k}}
			return c, "NOT"
		}
	case "AND", "OR":
		if len(n.Kids) < 2 {
			return nil, ""
		}
		switch r.Intn(3) {
		case 0:
			n.Op = map[string]string{"AND": "OR", "OR": "AND"}[n.Op]
			return c, "AND/OR"
		case 1:
			n.Kids = n.Kids[1:]
			return c, "operand dropped"
		default:
			n.Kids = append(n.Kids, boolLeaf(true))
			return c, "operand added"
		}
	case "NOT":
		*n = *n.Kids[0]
		return c, "NOT"
	default:
		switch r.Intn(4) {
		case 0:
			n.Op = map[string]string{"ANY": "ALL", "ALL": "ANY"}[n.Op]
			return c, "ANY/ALL"
		case 1:
			p := n.Parent[0]
			if p.Whole || p.Text != "" {
				return nil, ""
			}
			p.Segs = append([]ref.Seg{ref.N("zz")}, p.Segs...)
			n.Parent = append([]ref.Path{p}, n.Parent[1:]...)
			return c, "parent"
		case 2:
			ret := map[string]ref.Path{}
			for k, v := range n.Ret {
				ret[k] = v
			}
			switch {
			case len(ret) == 0 || chance(r, 0.4):
				ret["added"] = ref.Path{Root: ref.Rel, Segs: []ref.Seg{ref.N("zz")}}
			case chance(r, 0.4):
				for _, k := range ref.SortedKeys(ret) {
					ret[k] = ref.Path{Root: ref.Rel, Segs: []ref.Seg{ref.N("zz"), ref.N("q")}}
					break
				}
			default:
				for _, k := range ref.SortedKeys(ret) {
					ret[k+"2"] = ret[k]
					delete(ret, k)
					break
				}
			}
			n.Ret = ret
			return c, "return value"
		default:
			k := n.Kids[0]
			n.Kids = []*ref.Node{{Op: "NOT", Kids: []*ref.Node{k}}}
			return c, "NOT"
		}
	}
}

func isNumberMethod(m string) bool {
	switch strings.ToUpper(m) {
	case "GT", "GE", "LT", "LE":
		return true
	}
	return false
}

func flipCase(r *rand.Rand, s string) string {
	switch r.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	b := []rune(s)
	for i := range b {
		if chance(r, 0.5) {
			b[i] = []rune(strings.ToUpper(string(b[i])))[0]
		}
	}
	return string(b)
}

// canon is the reference canonical form of a tree: equal forms must have equal hashes and conversely
func canon(n *ref.Node) string {
	switch n.Op {
	case "LEAF":
		a := n.Attr
		if n.Path != nil {
			a = "jsonpath:" + pathText(*n.Path, nil)
		}
		return jsonText(L{a, n.Method, n.ValueText()})
	case "AND", "OR":
		if len(n.Kids) == 1 {
			return canon(n.Kids[0])
		}
		var l []string
		for _, k := range n.Kids {
			l = append(l, canon(k))
		}
		sort.Strings(l)
		return jsonText(L{n.Op, l})
	case "NOT":
		return jsonText(L{"NOT", canon(n.Kids[0])})
	}
	ret := M{}
	for k, v := range n.Ret {
		ret[k] = pathText(v, nil)
	}
	return jsonText(L{n.Op, parentText(n.Parent, nil), ret, canon(n.Kids[0])})
}

// c12small compares the hashes of all small trees: equal exactly for equal canonical forms
func (t *T) c12small() {
	leaf := func(k, v string) *ref.Node {
		return &ref.Node{Op: "LEAF", Attr: "senderLabel[" + k + "]", Method: "EQ", Value: v}
	}
	leaves := []*ref.Node{leaf("a", "1"), leaf("b", "1"), leaf("a", "2"), boolLeaf(true)}
	grow := func(sub, more []*ref.Node) []*ref.Node {
		var out []*ref.Node
		for i, a := range sub {
			out = append(out, &ref.Node{Op: "NOT", Kids: []*ref.Node{a}})
			for _, q := range []string{"ANY", "ALL"} {
				for _, p := range []string{"items", "more"} {
					out = append(out, &ref.Node{Op: q, Parent: []ref.Path{{Root: ref.Abs, Segs: []ref.Seg{ref.N(p), ref.A()}}}, Kids: []*ref.Node{a}})
				}
			}
			for _, op := range []string{"AND", "OR"} {
				out = append(out, &ref.Node{Op: op, Kids: []*ref.Node{a}})
				for j, b := range more {
					out = append(out, &ref.Node{Op: op, Kids: []*ref.Node{a, b}})
					if (i+j)%3 == 0 {
						for _, c := range leaves[:3] {
							out = append(out, &ref.Node{Op: op, Kids: []*ref.Node{a, b, c}})
						}
					}
				}
			}
		}
		return out
	}
	one := grow(leaves, leaves)
	two := grow(one, leaves)
	all := append(append(append([]*ref.Node{}, leaves...), one...), two...)
	// three levels, and two of two levels under one operator
	for i, a := range two {
		if i%8 != t.Shard%8 {
			continue
		}
		all = append(all, grow([]*ref.Node{a}, []*ref.Node{leaves[i%4], one[i%len(one)], two[(i*7+3)%len(two)]})...)
	}
	byHash, byCanon := map[string]string{}, map[string]string{}
	for i, n := range all {
		text := jsonText(M{"rules": L{ruleGeneric(plainRule(n), nil)}})
		d := D{"rules": text}
		t.Begin(text)
		rules := t.mustLoad(text, d)
		c := canon(n)
		h := me.RuleMD5HashConditions(rules.Rules[0])
		if o, ok := byHash[h]; ok && o != c {
			d["other"], d["this"] = o, c
			t.Fail("different conditions have equal hashes", d)
		}
		if o, ok := byCanon[c]; ok && o != h {
			t.Fail("equal conditions have different hashes", d)
		}
		byHash[h], byCanon[c] = c, h
		if t.Mine(i) || i >= len(leaves)+len(one)+len(two) {
			t.Eval("small" + c)
		}
		t.Obs("small tree")
	}
}

// c12separators reproduces an open finding: a value which holds the separators of the text form
func (t *T) c12separators() {
	leaf := func(path, v string) *ref.Node {
		return &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Abs, Segs: []ref.Seg{ref.N(path)}}, Method: "EQ", Value: v}
	}
	three := &ref.Node{Op: "AND", Kids: []*ref.Node{leaf("a", "1"), leaf("b", "2"), leaf("c", "3")}}
	two := &ref.Node{Op: "AND", Kids: []*ref.Node{leaf("a", "1"), leaf("b", "2> && <jsonpath:$.c-EQ-3")}}
	text := rulesText([]*ref.Rule{plainRule(three), plainRule(two)}, nil)
	rules := t.mustLoad(text, D{"rules": text})
	if me.RuleMD5Hash(rules.Rules[0]) == me.RuleMD5Hash(rules.Rules[1]) {
		t.Known("a condition value holding the separators of the text form (\"2> && <jsonpath:$.c-EQ-3\") can give the hash of another tree")
	}
	t.Eval("separators")
}

func c12(t *T) {
	r := t.R
	n := t.N(10000, 140000)
	t.c12small()
	t.c12separators()
	var prev *me.Rule
	var prevCanon string
	for i := 0; i < n; i++ {
		m := genBasicMsg(r)
		genMsgAttrs(r, m)
		m.Doc, m.HasDoc = genDoc(r), true
		var cond *ref.Node
		if chance(r, 0.95) {
			cond = genTree(r, m, r.Intn(4), treeOpts{attrs: true, ret: true, absInside: true, multi: true, mapOrder: true, deep: true})
		}
		if chance(r, 0.005) {
			cond = widen(r, cond, 1025)
			t.Obs("big")
		}
		x := genRule(r, m, "r1", cond)
		one := func(y *ref.Rule, d D) *me.Rule {
			// paths are written plainly: their spelling is part of the content
			g := ruleGeneric(y, nil)
			if y.Cond != nil {
				switch r.Intn(5) {
				case 0:
					g["conditions"] = L{g["conditions"]}
				case 1:
					g["conditions"] = M{"conditionsTree": g["conditions"]}
				}
			}
			text := rulesTextOf(M{"rules": L{g}}, r)
			rs := t.mustLoad(text, d)
			return &rs.Rules[0]
		}
		d := D{"rule": jsonText(ruleGeneric(x, nil))}
		t.Begin(d["rule"].(string))
		base := one(x, d)
		hash, chash := me.RuleMD5Hash(*base), me.RuleMD5HashConditions(*base)
		kept := func(q *me.Rule, what string) {
			if me.RuleMD5Hash(*q) != hash {
				d["other"], d["texts"] = what, []string{me.RuleToString(*base), me.RuleToString(*q)}
				t.Fail("the hash depends on something it must not depend on: "+what, d)
			}
			if me.RuleMD5HashConditions(*q) != chash || !q.ConditionsEqual(*base) || !base.ConditionsEqual(*q) {
				d["other"] = what
				t.Fail("the conditions hash depends on something it must not depend on: "+what, d)
			}
			t.Obs("kept")
			t.Eval(what + me.RuleToString(*q) + d["rule"].(string))
		}
		// rewritings
		y := *x
		if cond != nil {
			y.Cond = keepHash(r, cond)
		}
		d["rewritten"] = jsonText(ruleGeneric(&y, nil))
		kept(one(&y, d), "order of operands, single-operand groups")
		z := y
		z.Decision, z.Protocol, z.Operation = flipCase(r, z.Decision), flipCase(r, z.Protocol), flipCase(r, z.Operation)
		z.SenderType, z.ReceiverType = flipCase(r, z.SenderType), flipCase(r, z.ReceiverType)
		d["rewritten"] = jsonText(ruleGeneric(&z, nil))
		kept(one(&z, d), "letter case")
		w := z
		w.ID = "another id"
		w.Meta = map[string]string{"description": "something", "k": "v"}
		d["rewritten"] = jsonText(ruleGeneric(&w, nil))
		kept(one(&w, d), "identifier and metadata")
		delete(d, "rewritten")
		// preparation and use
		used := one(x, d)
		msg := buildMsg(m, pick(r, docForms), r)
		for k := 1 + r.Intn(3); k > 0; k-- {
			switch r.Intn(5) {
			case 0:
				t.Call("rule.Check", d, func() { used.Check(msg) })
			case 1:
				t.Call("SetPredefinedStringsAndLists", d, func() { used.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) })
			case 2:
				t.Call("ToMongoQuery", d, func() { used.ToMongoQuery("raw") })
			case 3:
				t.Call("ValidateRule", d, func() { me.ValidateRule(used) })
			default:
				t.Call("Check", d, func() { me.Check(msg, &me.Rules{Rules: []me.Rule{*used}}) })
			}
			kept(used, "preparation and use")
		}
		if p := used.GetPreparedRule(); p != nil && p.Decision != "" {
			kept(p, "prepared form")
		}
		// single changes
		changed := func(q *me.Rule, what string, condChanged bool) {
			d["change"] = what
			if me.RuleMD5Hash(*q) == hash {
				d["changed rule"] = me.RuleToString(*q)
				t.Fail("the hash does not reflect a change: "+what, d)
			}
			same := me.RuleMD5HashConditions(*q) == chash
			if same == condChanged || q.ConditionsEqual(*base) == condChanged || base.ConditionsEqual(*q) == condChanged {
				d["changed rule"] = me.RuleToString(*q)
				t.Fail("the comparison of conditions is wrong after a change: "+what, d)
			}
			t.Obs("changed")
			t.Obs("change " + what)
			t.Eval(what + me.RuleToString(*q) + d["rule"].(string))
		}
		alter := func(s string) string {
			if s == "" {
				return "x"
			}
			i := r.Intn(len(s) + 1)
			return pick(r, []string{s + "x", "x" + s, s + ",b", s[:len(s)-1], s[:i] + "q" + s[i:], s + " ", s + strings.Repeat("y", 40)})
		}
		for _, p := range []func(y *ref.Rule) *string{func(y *ref.Rule) *string { return &y.SenderName }, func(y *ref.Rule) *string { return &y.ReceiverName }, func(y *ref.Rule) *string { return &y.ResName }, func(y *ref.Rule) *string { return &y.ResType }} {
			c := *x
			f := p(&c)
			if *f == strings.ToUpper(*f) {
				continue
			}
			*f = strings.ToUpper(*f)
			d["changed to"] = jsonText(ruleGeneric(&c, nil))
			changed(one(&c, d), "letter case of a name", false)
		}
		for k := 0; k < 2; k++ {
			c := *x
			var what string
			switch r.Intn(9) {
			case 0:
				c.SenderName, what = alter(c.SenderName), "sender name"
			case 1:
				c.ReceiverName, what = alter(c.ReceiverName), "receiver name"
			case 2:
				c.SenderType, what = alter(c.SenderType), "sender type"
			case 3:
				c.ReceiverType, what = alter(c.ReceiverType), "receiver type"
			case 4:
				c.Protocol, what = alter(c.Protocol), "protocol"
			case 5:
				c.ResName, what = alter(c.ResName), "resource name"
			case 6:
				c.ResType, what = alter(c.ResType), "resource type"
			case 7:
				c.Operation, what = alter(c.Operation), "operation"
			default:
				c.Decision, what = map[string]string{"allow": "block", "block": "alert", "alert": "allow"}[strings.ToLower(c.Decision)], "decision"
				if chance(r, 0.3) {
					c.Decision = alter(x.Decision)
				}
			}
			if (what == "sender type" || what == "receiver type") && strings.EqualFold(c.SenderType, x.SenderType) && strings.EqualFold(c.ReceiverType, x.ReceiverType) {
				continue
			}
			d["changed to"] = jsonText(ruleGeneric(&c, nil))
			changed(one(&c, d), what, false)
		}
		if x.SenderName != x.ReceiverName && x.SenderType == x.ReceiverType {
			c := *x
			c.SenderName, c.ReceiverName = x.ReceiverName, x.SenderName
			changed(one(&c, d), "sender and receiver exchanged", false)
		}
		if cond != nil {
			for k := 0; k < 3; k++ {
				t2, what := changeTree(r, cond)
				if t2 == nil || canon(t2) == canon(cond) {
					continue
				}
				c := *x
				c.Cond = t2
				d["changed to"] = jsonText(ruleGeneric(&c, nil))
				rs, err := t.load(jsonText(M{"rules": L{ruleGeneric(&c, nil)}}), d)
				if err != nil {
					continue // the change left the language
				}
				changed(&rs.Rules[0], what, true)
			}
			c := *x
			c.Cond = nil
			changed(one(&c, d), "conditions removed", true)
		}
		// unrelated rules: equal conditions iff equal canonical forms
		cc := "none"
		if cond != nil {
			cc = canon(cond)
		}
		if prev != nil {
			eq := prev.ConditionsEqual(*base)
			if eq != (cc == prevCanon) {
				d["other"] = me.RuleToString(*prev)
				t.Fail("conditions of two rules compared wrongly", d)
			}
			if eq {
				t.Obs("equal conditions")
			} else {
				t.Obs("different conditions")
			}
		}
		if y.Cond != nil && canon(y.Cond) != cc {
			panic("harness: rewriting changed the canonical form")
		}
		if chance(r, 0.3) {
			prev, prevCanon = base, cc
		} else if cond != nil {
			prev, prevCanon = one(&y, d), cc
		}
		if prev != nil && prev.ConditionsEqual(*base) == (prevCanon == cc) {
			if prevCanon == cc {
				t.Obs("equal conditions")
			}
		} else if prev != nil {
			t.Fail("conditions of two rules compared wrongly", d)
		}
		t.Sample("rule", d)
	}
}
