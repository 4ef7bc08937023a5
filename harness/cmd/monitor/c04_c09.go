package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"

	"verif/harness/ref"
)

func init() {
	checks["C04"] = &check{run: c04, rule: "all AND/OR/NOT trees up to a bound over constant conditions, then random trees over message and document conditions with equivalent rewritings; non-trivial: the tree has at least one operator", minQuick: 6000,
		need: map[string]int{"true": 2000, "false": 2000, "rewritten": 5000, "parts": 2000, "no conditions": 100, "wide or deep": 500}}
	checks["C05"] = &check{run: c05, rule: "product of attributes, methods (both cases), values and messages, then random ones; non-trivial: every case is decided by the reference comparison", minQuick: 8000,
		need: map[string]int{"true": 2000, "false": 2000, "negation pair": 500, "missing label": 100, "missing encryption version": 50, "big": 900}}
	checks["C06"] = &check{run: c06, rule: "product of document values (all types), methods and rule values in all document forms and path spellings, then random documents and paths; non-trivial: every case is decided by the reference comparison", minQuick: 8000,
		need: map[string]int{"true": 2000, "false": 2000, "missing": 500, "no document": 100, "high index": 300, "bare": 1000, "big": 700, "method RE": 200, "method IN": 200, "method EQ": 200, "method GT": 200, "method NEX": 200}}
	checks["C07"] = &check{run: c07, rule: "random documents (arrays of objects, texts, numbers, arrays; objects) and nested ANY/ALL trees with relative, key/value and absolute inner paths, also rewritten by the quantifier laws; non-trivial: the tree contains a quantifier and the oracle decided it", minQuick: 8000,
		need: map[string]int{"true": 2000, "false": 2000, "law": 2000, "nested": 2000, "pairs": 1000, "union": 500, "union with an empty part": 100, "array of arrays": 300, "long array": 300, "descent": 300, "empty selection": 300}}
	checks["C08"] = &check{run: c08, rule: "random trees with return values on random documents; data compared with the reference as lists where the order is defined; non-trivial: the rule applies and returns data", minQuick: 4000,
		need: map[string]int{"returned values": 3000, "several returned values": 1000, "ordered": 2000, "long array": 300}}
	checks["C09"] = &check{run: c09, rule: "random rules and documents: the engine's answers for several textual layouts, the decoded document and both are compared with each other; non-trivial: the tree reads the document", minQuick: 4000,
		need: map[string]int{"true": 1000, "false": 1000, "layouts": 10000, "data": 1000, "container true": 200, "container false": 200, "long": 100}}
	checks["C21"] = &check{run: c21, rule: "product of unit suffixes on both sides with equal, neighbouring and unrelated quantities, all order methods, document value as text or number, raw or decoded; non-trivial: every case is decided by exact rational arithmetic", minQuick: 8000,
		need: map[string]int{"cmp -1": 1000, "cmp 0": 1000, "cmp 1": 1000, "not a number": 300}}
}

func boolLeaf(b bool) *ref.Node {
	return &ref.Node{Op: "LEAF", Attr: fmt.Sprint(b), Method: "EQ", Value: "1"}
}

// allTrees enumerates trees over constants up to a height
func allTrees(h int) []*ref.Node {
	leaves := []*ref.Node{boolLeaf(true), boolLeaf(false)}
	if h == 0 {
		return leaves
	}
	sub := allTrees(h - 1)
	out := append([]*ref.Node{}, leaves...)
	for _, a := range sub {
		out = append(out, &ref.Node{Op: "NOT", Kids: []*ref.Node{a}})
		for _, op := range []string{"AND", "OR"} {
			out = append(out, &ref.Node{Op: op, Kids: []*ref.Node{a}})
			for _, b := range sub {
				out = append(out, &ref.Node{Op: op, Kids: []*ref.Node{a, b}})
			}
		}
	}
	return out
}

// rewrite gives an equivalent tree
func rewrite(r *rand.Rand, n *ref.Node) *ref.Node {
	c := n.Clone()
	for i := range c.Kids {
		c.Kids[i] = rewrite(r, c.Kids[i])
	}
	not := func(k *ref.Node) *ref.Node { return &ref.Node{Op: "NOT", Kids: []*ref.Node{k}} }
	if c.Op == "AND" || c.Op == "OR" {
		r.Shuffle(len(c.Kids), func(i, j int) { c.Kids[i], c.Kids[j] = c.Kids[j], c.Kids[i] })
		if chance(r, 0.25) { // De Morgan
			d := &ref.Node{Op: map[string]string{"AND": "OR", "OR": "AND"}[c.Op]}
			for _, k := range c.Kids {
				d.Kids = append(d.Kids, not(k))
			}
			return not(d)
		}
		if len(c.Kids) > 2 && chance(r, 0.3) { // regroup
			i := 1 + r.Intn(len(c.Kids)-1)
			return &ref.Node{Op: c.Op, Kids: []*ref.Node{{Op: c.Op, Kids: c.Kids[:i]}, {Op: c.Op, Kids: c.Kids[i:]}}}
		}
	}
	if chance(r, 0.12) {
		return not(not(c))
	}
	if chance(r, 0.1) {
		return &ref.Node{Op: pick(r, []string{"AND", "OR"}), Kids: []*ref.Node{c}}
	}
	if chance(r, 0.05) { // idempotence
		return &ref.Node{Op: pick(r, []string{"AND", "OR"}), Kids: []*ref.Node{c, c.Clone()}}
	}
	return c
}

func mixedMsg(r *rand.Rand) *ref.Msg {
	m := &ref.Msg{}
	genMsgAttrs(r, m)
	if chance(r, 0.8) {
		m.Doc, m.HasDoc = genDoc(r), true
	}
	return m
}

func c04(t *T) {
	r := t.R
	// every tree of height 2 (about 1000), every form
	trees := allTrees(2)
	for i, n := range trees {
		if t.Mine(i) {
			t.diffTree(n, &ref.Msg{}, formNone, diffOpts{})
			if t.Thorough() {
				for k := 0; k < 10; k++ {
					t.diffTree(rewrite(r, n), &ref.Msg{}, formNone, diffOpts{})
				}
			}
		}
	}
	// all height-3 combinations under one operator, sampled
	for i := t.N(3000, 60000); i > 0; i-- {
		op := pick(r, []string{"AND", "OR", "NOT"})
		n := &ref.Node{Op: op}
		k := 1
		if op != "NOT" {
			k = 1 + r.Intn(4)
		}
		for ; k > 0; k-- {
			n.Kids = append(n.Kids, pick(r, trees))
		}
		t.diffTree(n, &ref.Msg{}, formNone, diffOpts{})
	}
	// groups with many operands and deeply nested ones
	docBool := func(b bool) *ref.Node {
		if chance(r, 0.5) {
			return boolLeaf(b)
		}
		return &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Abs, Segs: []ref.Seg{ref.N(pick(r, []string{"a", "b", "c"}))}}, Method: "EQ", Value: map[bool]interface{}{true: "x", false: noReference(genText(r) + "y")}[b]}
	}
	for i := t.N(800, 8000); i > 0; i-- {
		n := wideGroup(r, docBool)
		k := len(n.Kids)
		if chance(r, 0.4) && k <= 500 {
			n = deepChain(r, n, 5+r.Intn(40))
			if chance(r, 0.05) && k < 70 {
				n = deepChain(r, n, bigSize(r, 129))
				t.Obs("very deep")
			}
		}
		if k > 500 {
			t.Obs("very wide")
		}
		form := pick(r, docForms)
		m := &ref.Msg{Doc: M{"a": "x", "b": "x", "c": "x"}, HasDoc: true}
		t.diffTree(n, m, form, diffOpts{})
		t.diffTree(rewrite(r, n), m, form, diffOpts{})
		t.Obs("wide or deep")
	}
	for i := t.N(10000, 160000); i > 0; i-- {
		m := mixedMsg(r)
		o := treeOpts{attrs: true, mapOrder: true, multi: true, absInside: true, ret: chance(r, 0.3)}
		tree := genNode(r, m, nil, false, 1+r.Intn(4), o)
		form := pick(r, docForms)
		want, ok := t.diffTree(tree, m, form, diffOpts{})
		if !ok {
			continue
		}
		// equivalent trees
		t.diffTree(rewrite(r, tree), m, form, diffOpts{})
		t.Obs("rewritten")
		// the value computed from the engine's own answers for the individual parts
		if tree.Op == "AND" || tree.Op == "OR" || tree.Op == "NOT" {
			t.parts(tree, m, form, want)
		}
		if chance(r, 0.02) {
			t.noConditions(m)
		}
	}
}

// parts evaluates every operand as a rule of its own
func (t *T) parts(tree *ref.Node, m *ref.Msg, form string, want bool) {
	and, or := true, false
	d := D{"message": msgDetail(m), "form": form}
	for _, k := range tree.Kids {
		text := rulesText([]*ref.Rule{plainRule(k)}, t.R)
		d["rules"] = text
		t.Begin(text)
		rules := t.mustLoad(text, d)
		var got int
		msg := buildMsg(m, form, t.R)
		t.Call("rule.Check", d, func() { got, _ = rules.Rules[0].Check(msg) })
		and = and && got != 0
		or = or || got != 0
	}
	v := map[string]bool{"AND": and, "OR": or, "NOT": !and}[tree.Op]
	if v != want {
		d["rules"], d["expected"], d["got"] = rulesText([]*ref.Rule{plainRule(tree)}, nil), v, want
		t.Fail("the outcome of a tree disagrees with the outcomes of its operands", d)
	}
	t.Obs("parts")
}

func (t *T) noConditions(m *ref.Msg) {
	g := ruleGeneric(plainRule(nil), nil)
	if chance(t.R, 0.5) {
		g["conditions"] = nil
	}
	text := jsonText(M{"rules": L{g}})
	d := D{"rules": text, "message": msgDetail(m)}
	t.Begin(text)
	rules := t.mustLoad(text, d)
	msg := buildMsg(m, pick(t.R, docForms), t.R)
	var got int
	t.Call("rule.Check", d, func() { got, _ = rules.Rules[0].Check(msg) })
	if got != me.BLOCK {
		d["got"] = got
		t.Fail("a rule without conditions does not apply", d)
	}
	t.Obs("no conditions")
}

func c05(t *T) {
	r := t.R
	for i := t.N(1000, 10000); i > 0; i-- {
		t.bigAttr()
	}
	// product over two messages
	one, onePoint2 := 1.0, 1.2
	msgs := []*ref.Msg{
		{Size: 1024, UserAgent: "Mozilla/5.0", Hours: 13.5, EncType: "tls", EncVersion: &onePoint2, Domain: "a.example.com", SenderNamespace: "prod", ReceiverNamespace: "prod", SenderCluster: "c1", ReceiverCluster: "c2",
			SenderLabels: map[string]string{"app": "web", "ver": "v1", "e": ""}, ReceiverLabels: map[string]string{"app": "web", "ver": "v2", "app2": "w*b"}},
		{Size: 0, Hours: 0, EncVersion: &one, SenderNamespace: "a.b", SenderLabels: map[string]string{"app": "10"}},
		{Size: -5, Hours: 23.75, UserAgent: "aXb", EncType: "a.b", Domain: "axb", SenderNamespace: "axb", ReceiverNamespace: "a.b", SenderCluster: "A", ReceiverCluster: "a"},
	}
	numVals := []interface{}{0, 1024, "1024", "1Ki", "1023.5", 1025, -5, "-4.5", "1.024K", "102400%", "1024000m", 13.5, "13.25", "13", 14, "23.75", "1.2", 1.2, "1.20", 1, "1.0", "1.25", "2"}
	textVals := []interface{}{"Mozilla/5.0", "Mozilla*", "mozilla/5.0", "*", "?", "tls", "t?s", "TLS", "prod", "pro", "prod?", "*od", "a.b", "a?b", "axb", "a*", "web", "w*b", "v1", "v?", "10", "", "a.example.com", "*.example.com", "c1", "c2", "A", "a"}
	reVals := []interface{}{"^prod$", "od", "^w", "b$", "a.b", "a\\.b", "[0-9]+", "^$", "(?i)PROD", "v1|v2", "tls|x"}
	inVals := []interface{}{"prod,tls", "[a.b,web]", "axb", "web,v1,10", "[tls]", "pro", "prod1,2prod", "c1,c2", "Mozilla/5.0", "a.example.com,x", "A,B"}
	attrs := []string{"payloadSize", "utcHoursFromMidnight", "encryptionVersion", "requestUseragent", "encryptionType", "domain", "$sender.namespace", "$sender.cluster", "$receiver.namespace", "$receiver.cluster",
		"senderLabel[app]", "senderLabel[ver]", "senderLabel[e]", "senderLabel[none]", "receiverLabel[app]", "receiverLabel[ver]", "receiverLabel[app2]", "receiverLabel[none]", "true", "TRUE", "false", "FALSE"}
	idx := 0
	for _, attr := range attrs {
		var methods []string
		switch attr {
		case "payloadSize", "utcHoursFromMidnight":
			methods = numAttrMethods
		case "encryptionVersion":
			methods = encVersionMethods
		default:
			methods = textAttrMethods
		}
		for _, meth := range methods {
			vals := textVals
			switch {
			case attr == "payloadSize" || attr == "utcHoursFromMidnight" || attr == "encryptionVersion":
				vals = numVals
			case meth == "RE" || meth == "NRE":
				vals = reVals
			case meth == "IN" || meth == "NIN":
				vals = inVals
			case meth == "EX" || meth == "NEX":
				vals = []interface{}{"", "x"}
			}
			if (meth == "EQ" || meth == "NEQ" || meth == "NE") && strings.HasPrefix(attr, "$sender.") {
				vals = append(append([]interface{}{}, vals...), "$receiver.namespace", "$receiver.cluster")
			}
			if (meth == "EQ" || meth == "NEQ" || meth == "NE") && strings.HasPrefix(attr, "senderLabel[") {
				vals = append(append([]interface{}{}, vals...), "receiverLabel[app]", "receiverLabel[ver]", "receiverLabel[app2]", "receiverLabel[none]")
			}
			for _, v := range vals {
				for _, m := range msgs {
					idx++
					if !t.Mine(idx) {
						continue
					}
					mm := meth
					if idx/8%2 == 1 {
						mm = strings.ToLower(meth)
					}
					t.attrCase(&ref.Node{Op: "LEAF", Attr: attr, Method: mm, Value: v}, m)
				}
			}
		}
	}
	for i := t.N(20000, 300000); i > 0; i-- {
		m := &ref.Msg{}
		genMsgAttrs(r, m)
		t.attrCase(attrLeaf(r, m), m)
	}
}

var negations = map[string]string{"EQ": "NEQ", "NEQ": "EQ", "NE": "EQ", "RE": "NRE", "NRE": "RE", "IN": "NIN", "NIN": "IN", "EX": "NEX", "NEX": "EX"}

func (t *T) attrCase(n *ref.Node, m *ref.Msg) {
	want, ok := t.diffTree(n, m, formNone, diffOpts{})
	if !ok {
		return
	}
	present := true
	for prefix, labels := range map[string]map[string]string{"senderLabel[": m.SenderLabels, "receiverLabel[": m.ReceiverLabels} {
		if strings.HasPrefix(n.Attr, prefix) {
			k := strings.TrimSuffix(strings.TrimPrefix(n.Attr, prefix), "]")
			if _, present = labels[k]; !present {
				t.Obs("missing label")
			}
		}
	}
	if n.Attr == "encryptionVersion" && m.EncVersion == nil {
		t.Obs("missing encryption version")
		present = false
	}
	if v, is := n.Value.(string); is && strings.HasPrefix(v, "receiverLabel[") {
		return // the other label may be missing
	}
	neg, has := negations[strings.ToUpper(n.Method)]
	if !present || !has || n.Attr == "encryptionVersion" || strings.ToUpper(n.Attr) == "TRUE" || strings.ToUpper(n.Attr) == "FALSE" || !chance(t.R, 0.3) {
		return
	}
	// the negated method, through the engine
	c := n.Clone()
	c.Method = caseOf(t.R, neg)
	text := rulesText([]*ref.Rule{plainRule(c)}, t.R)
	d := D{"rules": text, "message": msgDetail(m)}
	t.Begin(text)
	rules := t.mustLoad(text, d)
	var got int
	msg := buildMsg(m, formNone, t.R)
	t.Call("rule.Check", d, func() { got, _ = rules.Rules[0].Check(msg) })
	if (got != 0) == want {
		d["expected"], d["got"] = !want, got
		t.Fail("a method and its negation give the same outcome", d)
	}
	t.Obs("negation pair")
}

func c06(t *T) {
	r := t.R
	for i := t.N(800, 8000); i > 0; i-- {
		t.bigDoc()
	}
	vals := []interface{}{"a", "b", "", "abc", "10", "1.5", "1Ki", "true", "x y", "a\"b", "é", "[a]", "a,b", num("0"), num("10"), num("1.5"), num("-3"), num("1024"), true, false, nil, M{"k": "v"}, M{}, L{"a", "b"}, L{}, L{num("1"), "a"}, L{M{"a": "b"}}, num("123456789012"), num("0.001"), "null", "false", "a\\b", "\"a\"", "日本"}
	ruleVals := map[string][]interface{}{
		"eq":  {"a", "abc", "10", 10, "10.0", 1.5, "1500m", "1Ki", 1024, true, "false", "x y", "a\"b", "é", "[a]", "A", "", "1024", "null", "a\\b", "\"a\"", "a*", "?", "日本"},
		"ord": {"10", 10, "9.5", 1.5, "1Ki", -3, 0, "1025", "1023", "a", "1.5"},
		"re":  {"a", "^a$", "^[0-9.]+$", "b", "^$", "true", "x y", "é", "\\[a\\]", "."},
		"in":  {"a,b", "[abc,10]", "1.5", "true,false", "[a]", "ab,c", "10,20", "1024", "x,é"},
		"ex":  {"", "a"},
	}
	idx := 0
	wrap := func(v interface{}, k int) (interface{}, []ref.Seg) {
		switch k {
		case 0:
			return M{"f": v}, []ref.Seg{ref.N("f")}
		case 1:
			return M{"o": M{"f": v, "g": "z"}}, []ref.Seg{ref.N("o"), ref.N("f")}
		case 2:
			return M{"l": L{"first", v}}, []ref.Seg{ref.N("l"), ref.I(1)}
		case 3:
			return M{"o": M{"a.b/c": v, "a": M{"b": "no"}}}, []ref.Seg{ref.N("o"), ref.N("a.b/c")}
		case 4:
			return M{"l": L{M{"f": "other"}, M{"f": v}}}, []ref.Seg{ref.N("l"), ref.I(1), ref.N("f")}
		default:
			return M{"o": M{"h-i": v, "h": "z"}}, []ref.Seg{ref.N("o"), ref.N("h-i")}
		}
	}
	for _, v := range vals {
		for _, meth := range append(append([]string{}, docMethods...), "IS") {
			var rv []interface{}
			switch meth {
			case "EQ", "NEQ", "NE":
				rv = ruleVals["eq"]
			case "RE", "NRE":
				rv = ruleVals["re"]
			case "IN", "NIN", "IS":
				rv = ruleVals["in"]
			case "EX", "NEX":
				rv = ruleVals["ex"]
			default:
				rv = ruleVals["ord"]
				rv = rv[:len(rv)-2] // without the text
			}
			for _, x := range rv {
				for form := range docForms {
					idx++
					if !t.Mine(idx) {
						continue
					}
					mm := meth
					if meth != "IS" && idx/8%3 == 1 {
						mm = strings.ToLower(meth)
					}
					doc, segs := wrap(v, r.Intn(6))
					t.docCase(&ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Abs, Segs: segs}, Method: mm, Value: x}, doc, docForms[form])
				}
			}
		}
	}
	// missing values and documents
	for i := t.N(1600, 20000); i > 0; i-- {
		doc := genDoc(r)
		n := docLeaf(r, ref.Abs, doc, 4)
		segs := append([]ref.Seg{}, n.Path.Segs...)
		segs = append(segs[:r.Intn(len(segs)+1)], pick(r, []ref.Seg{ref.N("nothere"), ref.I(9)}))
		if segs[0].IsIdx {
			segs = []ref.Seg{ref.N("nothere"), ref.N("x")}
		}
		n.Path.Segs = segs
		if chance(r, 0.1) {
			n.Path.Segs = []ref.Seg{ref.N(pick(r, []string{"a", "b"}))}
			t.docCase(n, pick(r, []interface{}{M{}, M{"c": num("1")}, L{}, L{M{"a": "b"}}, "text", num("5"), true}), pick(r, docForms))
		} else {
			t.docCase(n, doc, pick(r, docForms))
		}
		t.Obs("missing")
		if chance(r, 0.3) {
			n.Method = caseOf(r, pick(r, []string{"NEX", "EX", "EQ", "NEQ"}))
			t.diffTree(n, &ref.Msg{}, pick(r, []string{formNone, formEmpty}), diffOpts{})
			t.Obs("no document")
		}
	}
	// bare documents: empty, scalar, or nothing but empty parts
	bare := []interface{}{M{}, L{}, M{"a": M{}}, M{"a": L{}}, M{"a": M{"b": M{}}}, M{"b": num("1")}, M{"a": M{"c": num("1")}}, M{"a": L{M{}}}, M{"a": "x"}, M{"a": num("5")}, "a", num("5")}
	for i := t.N(2400, 20000); i > 0; i-- {
		meth := docMethods[i%len(docMethods)]
		if chance(r, 0.4) {
			meth = pick(r, []string{"EX", "NEX", "NEQ"})
		}
		var v interface{} = pick(r, []interface{}{"x", "5", 5, "", "{}", "[]", "[x,y]", "a"})
		switch meth {
		case "GT", "GE", "LT", "LE":
			v = pick(r, []interface{}{"5", 4})
		case "RE", "NRE":
			v = pick(r, []interface{}{"x", "^$", "5"})
		case "IN", "NIN":
			v = "[x,5]"
		case "EX", "NEX":
			v = ""
		}
		segs := pick(r, [][]ref.Seg{{ref.N("a")}, {ref.N("a"), ref.N("b")}, {ref.N("a"), ref.I(0)}, {ref.N("a"), ref.N("b"), ref.N("c")}, {ref.N("a"), ref.I(0), ref.N("b")}})
		t.docCase(&ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Abs, Segs: segs}, Method: caseOf(r, meth), Value: v}, pick(r, bare), pick(r, docForms))
		t.Obs("bare")
	}
	// long arrays and objects
	for i := t.N(1200, 12000); i > 0; i-- {
		n := 90 + r.Intn(250)
		l := genScalars(r, n, r.Intn(3))
		at := r.Intn(n + 3)
		if chance(r, 0.3) {
			at = pick(r, []int{9, 10, 11, 99, 100, 101, n - 1, n})
		}
		var doc interface{} = M{"l": l}
		segs := []ref.Seg{ref.N("l"), ref.I(at)}
		if chance(r, 0.5) {
			for j := range l {
				l[j] = M{"v": l[j], "w": num(fmt.Sprint(j))}
			}
			segs = append(segs, ref.N(pick(r, []string{"v", "w"})))
		}
		v, found := ref.Find(doc, segs)
		m, val := genMethodValue(r, v, found)
		t.docCase(&ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Abs, Segs: segs}, Method: m, Value: val}, doc, pick(r, docForms))
		if at >= 100 {
			t.Obs("high index")
		}
	}
	for i := t.N(20000, 300000); i > 0; i-- {
		doc := genDoc(r)
		t.docCase(docLeaf(r, ref.Abs, doc, 5), doc, pick(r, docForms))
	}
}

func (t *T) docCase(n *ref.Node, doc interface{}, form string) {
	if _, ok := t.diffTree(n, &ref.Msg{Doc: doc, HasDoc: true}, form, diffOpts{}); ok {
		t.Obs("method " + strings.ToUpper(n.Method))
	}
}

func c07(t *T) {
	r := t.R
	for i := t.N(400, 6000); i > 0; i-- {
		tree, m := longCase(r)
		t.diffTree(tree, m, pick(r, docForms), diffOpts{data: true, order: true})
		t.diffTree(quantLaw(r, tree), m, pick(r, docForms), diffOpts{})
		t.Obs("long array")
	}
	n := t.N(20000, 320000)
	for i := 0; i < n; i++ {
		m := &ref.Msg{Doc: genDoc(r), HasDoc: true}
		o := treeOpts{absInside: true, deep: true, multi: true, mapOrder: true, star: true}
		tree := genQuant(r, m, nil, false, 1+r.Intn(4), o)
		if tree == nil {
			continue
		}
		if chance(r, 0.2) { // a second tree after it: the element of the first one must be forgotten
			if b := genNode(r, m, nil, false, 2, o); b != nil {
				tree = &ref.Node{Op: pick(r, []string{"AND", "OR"}), Kids: []*ref.Node{tree, b}}
			}
		}
		form := pick(r, docForms)
		if _, ok := t.diffTree(tree, m, form, diffOpts{}); !ok {
			continue
		}
		depth := 0
		tree.Walk(func(k *ref.Node) {
			if k.Op != "ANY" && k.Op != "ALL" {
				return
			}
			depth++
			if len(k.Parent) > 1 {
				t.Obs("union")
				for _, p := range k.Parent {
					if p.Root == ref.Abs && len(selectSafe(m.Doc, p.Segs)) == 0 {
						t.Obs("union with an empty part")
					}
				}
			}
			for _, sg := range k.Parent[0].Segs {
				if sg.Name == "mat" {
					t.Obs("array of arrays")
				}
			}
			if k.Parent[0].Whole {
				t.Obs("pairs")
			}
			if hasDeep(k.Parent[0].Segs) {
				t.Obs("descent")
			}
			if k.Parent[0].Root == ref.Abs {
				es := selectSafe(m.Doc, k.Parent[0].Segs)
				if len(es) == 0 {
					t.Obs("empty selection")
				}
				if v, ok := findSafe(m.Doc, k.Parent[0].Segs); ok {
					if _, isObj := v.(map[string]interface{}); isObj {
						t.Obs("pairs")
					}
				}
			}
		})
		if depth > 1 {
			t.Obs("nested")
		}
		// laws
		if chance(r, 0.5) {
			t.diffTree(quantLaw(r, tree), m, form, diffOpts{})
			t.Obs("law")
		}
	}
}

func findSafe(v interface{}, segs []ref.Seg) (interface{}, bool) {
	if hasAll(segs) {
		return nil, false
	}
	return ref.Find(v, segs)
}

// quantLaw rewrites quantifiers into equivalent trees
func quantLaw(r *rand.Rand, n *ref.Node) *ref.Node {
	c := n.Clone()
	for i := range c.Kids {
		c.Kids[i] = quantLaw(r, c.Kids[i])
	}
	not := func(k *ref.Node) *ref.Node { return &ref.Node{Op: "NOT", Kids: []*ref.Node{k}} }
	if c.Op != "ANY" && c.Op != "ALL" {
		return c
	}
	dual := map[string]string{"ANY": "ALL", "ALL": "ANY"}
	k := c.Kids[0]
	if c.Op == "ANY" && k.Op == "OR" || c.Op == "ALL" && k.Op == "AND" {
		out := &ref.Node{Op: k.Op}
		for _, x := range k.Kids {
			q := *c
			q.Kids = []*ref.Node{x}
			out.Kids = append(out.Kids, &q)
		}
		return out
	}
	if len(c.Parent) > 1 { // union
		op := "OR"
		if c.Op == "ALL" {
			op = "AND"
		}
		out := &ref.Node{Op: op}
		for _, p := range c.Parent {
			q := *c
			q.Parent = []ref.Path{p}
			out.Kids = append(out.Kids, &q)
		}
		return out
	}
	if chance(r, 0.7) {
		q := *c
		q.Op = dual[c.Op]
		q.Kids = []*ref.Node{not(k)}
		return not(&q)
	}
	return c
}

func c08(t *T) {
	r := t.R
	for i := t.N(400, 6000); i > 0; i-- {
		tree, m := longCase(r)
		t.diffTree(tree, m, pick(r, docForms), diffOpts{data: true, order: true})
		t.Obs("long array")
	}
	n := t.N(24000, 300000)
	for i := 0; i < n; i++ {
		m := &ref.Msg{Doc: genDoc(r), HasDoc: true}
		if chance(r, 0.2) {
			genMsgAttrs(r, m)
		}
		o := treeOpts{ret: true, multi: true, mapOrder: chance(r, 0.3), deep: chance(r, 0.2), star: chance(r, 0.2), absInside: true, attrs: chance(r, 0.2)}
		var tree *ref.Node
		switch r.Intn(3) {
		case 0:
			tree = genQuant(r, m, nil, false, 1+r.Intn(3), o)
		case 1:
			tree = &ref.Node{Op: pick(r, []string{"OR", "AND"})}
			for k := 2 + r.Intn(3); k > 0; k-- {
				x := genQuant(r, m, nil, false, 1+r.Intn(2), o)
				if x == nil || chance(r, 0.3) {
					x = genLeaf(r, m, nil, false, o)
				}
				tree.Kids = append(tree.Kids, x)
			}
		default:
			tree = genTree(r, m, 1+r.Intn(3), o)
		}
		if tree == nil {
			continue
		}
		ordered := true
		tree.Walk(func(k *ref.Node) {
			for _, p := range k.Parent {
				if p.Whole || hasDeep(p.Segs) {
					ordered = false
				}
				if v, ok := findSafe(m.Doc, p.Segs); ok || p.Root == ref.Rel {
					if _, isArr := v.([]interface{}); !isArr && !(len(p.Segs) > 0 && p.Segs[len(p.Segs)-1].All) {
						ordered = false
					}
				}
			}
		})
		if _, ok := t.diffTree(tree, m, pick(r, docForms), diffOpts{data: true, order: ordered}); ok && ordered {
			t.Obs("ordered")
		}
	}
}

type ans struct {
	dec  int
	data []string
	form string
	raw  string
}

// sameForms gives one document in several layouts and forms and requires one outcome
func (t *T) sameForms(rule *me.Rule, m *ref.Msg, d D) *ans {
	r := t.R
	var first *ans
	for k := 0; k < 6; k++ {
		form := []string{formRaw, formDecoded, formRaw, formBoth, formRaw, formDecoded}[k]
		rr := r
		if k == 0 {
			rr = nil
		}
		msg := buildMsg(m, form, rr)
		a := &ans{form: form}
		if msg.RequestJsonRaw != nil {
			a.raw = string(*msg.RequestJsonRaw)
		}
		var data []map[string]interface{}
		t.Call("rule.Check", d, func() { a.dec, data = rule.Check(msg) })
		a.data = sortedCopy(normData(data))
		if a.dec == 0 {
			a.data = nil
		}
		if first == nil {
			first = a
		}
		if a.dec != first.dec || !sameList(a.data, first.data) {
			d["first"], d["first raw"], d["first decision"], d["first data"] = first.form, first.raw, first.dec, first.data
			d["second"], d["second raw"], d["second decision"], d["second data"] = a.form, a.raw, a.dec, a.data
			t.Fail("two representations of one document give different outcomes", d)
		}
		t.Obs("layouts")
	}
	return first
}

// containers uses whole objects and arrays as values of conditions: the outcome is only compared across forms
func (t *T) containers() {
	r := t.R
	n := t.N(4000, 60000)
	for i := 0; i < n; i++ {
		doc := genDoc(r).(map[string]interface{})
		m := &ref.Msg{Doc: doc, HasDoc: true}
		var segs []ref.Seg
		var cur interface{} = doc
		inAny := chance(r, 0.4)
		key := ""
		var elem interface{} // the document the path starts in
		if inAny {
			key = pick(r, []string{"items", "map"})
			if key == "map" {
				doc["items"] = L{M{"map": genMap(r)}}
				key = "items"
			}
			arr, _ := doc[key].([]interface{})
			if len(arr) == 0 {
				continue
			}
			elem = pick(r, arr)
			cur = elem
		}
		var found interface{}
		var at []ref.Seg
		for depth := 0; depth < 4; depth++ {
			obj, ok := cur.(map[string]interface{})
			if !ok {
				if arr, isArr := cur.([]interface{}); isArr && len(arr) > 0 && chance(r, 0.5) {
					k := r.Intn(len(arr))
					segs = append(segs, ref.I(k))
					cur = arr[k]
				} else {
					break
				}
			} else {
				ks := sortedKeys(obj)
				if len(ks) == 0 {
					break
				}
				var cs []string
				for _, k := range ks {
					switch obj[k].(type) {
					case map[string]interface{}, []interface{}:
						cs = append(cs, k)
					}
				}
				if len(cs) == 0 {
					break
				}
				k := pick(r, cs)
				segs = append(segs, ref.N(k))
				cur = obj[k]
			}
			switch cur.(type) {
			case map[string]interface{}, []interface{}:
				if found == nil || chance(r, 0.6) {
					found, at = cur, append([]ref.Seg{}, segs...)
				}
			}
		}
		if found == nil {
			continue
		}
		b, err := json.Marshal(decodeDoc(found))
		if err != nil {
			panic(err)
		}
		c := string(b)
		lf := &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Abs, Segs: at}, Method: pick(r, []string{"RE", "NRE", "EQ", "NEQ", "IN", "NIN", "EX", "NEX", "re", "eq"})}
		frag := c
		if k := r.Intn(len(c)); chance(r, 0.7) {
			frag = c[k : k+r.Intn(len(c)-k)+1]
		}
		frag = strings.ToValidUTF8(frag, "")
		switch strings.ToUpper(lf.Method) {
		case "RE", "NRE":
			lf.Value = pick(r, []string{regexp.QuoteMeta(frag), "^" + regexp.QuoteMeta(c) + "$", ".*name.*", "^.name", "a.*n", " ", ": "})
			if strings.HasPrefix(lf.Value.(string), "#") {
				continue
			}
		case "IN", "NIN":
			lf.Value = pick(r, []string{"a,b", "[a,b]", "n,name"})
		case "EX", "NEX":
			lf.Value = ""
		default:
			lf.Value = pick(r, []string{c, frag, "{}", "[]"})
			if strings.HasPrefix(lf.Value.(string), "#") {
				continue
			}
		}
		tree := lf
		if inAny {
			lf.Path.Root = ref.Rel
			tree = &ref.Node{Op: pick(r, []string{"ANY", "ALL"}), Parent: []ref.Path{{Root: ref.Abs, Segs: []ref.Seg{ref.N(key), ref.A()}}}, Kids: []*ref.Node{lf}}
		}
		text := rulesText([]*ref.Rule{plainRule(tree)}, r)
		d := D{"rules": text, "message": msgDetail(m)}
		t.Begin(text)
		rules, err := t.load(text, d)
		if err != nil {
			continue
		}
		a := t.sameForms(&rules.Rules[0], m, d)
		t.Obs(fmt.Sprintf("container %v", a.dec != 0))
		t.Eval("container" + text + d["message"].(D)["Doc"].(string))
	}
}

func c09(t *T) {
	r := t.R
	t.plusExponent()
	t.containers()
	n := t.N(8000, 120000)
	for i := 0; i < n; i++ {
		m := &ref.Msg{Doc: genDoc(r), HasDoc: true}
		if chance(r, 0.3) {
			oddNumbers(r, m.Doc)
		}
		o := treeOpts{ret: true, multi: true, mapOrder: true, deep: true, star: true, absInside: true}
		tree := genTree(r, m, r.Intn(4), o)
		if chance(r, 0.03) {
			tree, m = longCase(r)
			if chance(r, 0.2) { // a raw document of some hundred kilobytes
				m.Doc.(M)["before"] = bigText(r, 70000)
				m.Doc.(M)["zafter"] = bigText(r, 70000)
			}
			if chance(r, 0.5) {
				lf := &ref.Node{Op: "LEAF", Method: "EQ", Value: "long", Path: &ref.Path{Root: ref.Abs, Segs: []ref.Seg{ref.N("kind")}}}
				tree = &ref.Node{Op: "AND", Kids: []*ref.Node{lf, tree}}
			}
			t.Obs("long")
		}
		var want bool
		if !t.InDomain(func() { want, _ = ref.Eval(tree, m) }) {
			continue
		}
		text := rulesText([]*ref.Rule{plainRule(tree)}, r)
		d := D{"rules": text, "message": msgDetail(m)}
		t.Begin(text)
		rules := t.mustLoad(text, d)
		first := t.sameForms(&rules.Rules[0], m, d)
		if (first.dec != 0) != want {
			d["expected"], d["got"] = want, first.dec
			t.Fail("decision differs from the reference", d)
		}
		if len(first.data) > 0 {
			t.Obs("data")
		}
		t.Obs(fmt.Sprint(want))
		t.Eval(text + d["message"].(D)["Doc"].(string))
		t.Sample(fmt.Sprint(want), d)
	}
}

// plusExponent reproduces a known finding: the raw JSON reader cuts numbers written with an explicit plus in the exponent
func (t *T) plusExponent() {
	if t.Shard != 0 {
		return
	}
	n := &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Abs, Segs: []ref.Seg{ref.N("n")}}, Method: "EQ", Value: 25}
	text := rulesText([]*ref.Rule{plainRule(n)}, nil)
	d := D{"rules": text}
	rules := t.mustLoad(text, d)
	raw := []byte(`{"n":2.5E+1}`)
	msg := &me.MessageAttributes{RequestJsonRaw: &raw}
	var a, b int
	t.Call("rule.Check", d, func() { a, _ = rules.Rules[0].Check(msg) })
	msg2 := buildMsg(&ref.Msg{Doc: M{"n": num("25")}, HasDoc: true}, formDecoded, nil)
	t.Call("rule.Check", d, func() { b, _ = rules.Rules[0].Check(msg2) })
	if b != me.BLOCK {
		t.Fail("decision differs from the reference", d)
	}
	if a != b {
		t.Known("numbers written with a plus sign in the exponent (2.5E+1) are cut in raw documents")
	}
	t.Eval("plus exponent")
}

// oddNumbers writes some numbers of a document in other ways
func oddNumbers(r *rand.Rand, v interface{}) {
	set := func(x interface{}) interface{} {
		if n, ok := x.(interface{ String() string }); ok && chance(r, 0.4) {
			s := n.String()
			switch r.Intn(4) {
			case 0:
				if !strings.ContainsAny(s, ".eE") {
					return num(s + ".0")
				}
			case 1:
				if !strings.ContainsAny(s, "eE") {
					return num(s + "e0")
				}
			case 2:
				return num(pick(r, []string{"1e3", "1E2", "5e-1", "1.50", "100000000000", "1e6", "12345678901234", "0.30"}))
			}
		}
		return x
	}
	switch x := v.(type) {
	case map[string]interface{}:
		for _, k := range sortedKeys(x) {
			x[k] = set(x[k])
			oddNumbers(r, x[k])
		}
	case []interface{}:
		for i := range x {
			x[i] = set(x[i])
			oddNumbers(r, x[i])
		}
	}
}
