package main

import (
	"fmt"
	"math/rand"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"

	"verif/harness/mongoref"
	"verif/harness/ref"
)

func init() {
	checks["C17"] = &check{run: c17, rule: "random translatable trees (AND/OR/NOT/ANY/ALL/key-value, depth 0-4) translated under several base fields; the query runs in an independent query evaluator over 6 documents each and is compared with the engine's outcome; non-trivial: the query selects some but not all documents of the case", minQuick: 4000,
		need: map[string]int{"selected": 10000, "not selected": 10000, "filter": 5000, "pipeline": 1000, "ANY": 3000, "ALL": 2000, "NOT": 3000, "nested quantifier": 1000, "missing field": 1000, "elements of lists of lists": 1000, "base ''": 1000, "no conditions": 50}}
	need := map[string]int{"translated": 2000, "reloaded": 1000, "used before": 1000, "written out": 500, "nested": 2000}
	for _, k := range refusalKinds {
		need["refused: "+k] = 200
	}
	checks["C18"] = &check{run: c18, rule: "random translatable trees, and the same trees with one untranslatable construct of every kind planted at a random place; translatable ones are translated repeatedly, reloaded and used in between; non-trivial: all", minQuick: 5000, need: need}
}

// ---- documents and trees within what the query language can express ---------------------------------

var mTexts = []string{"a", "b", "ab", "abc", "foo", "bar", "x y", "a.b", "A", "true", "false", "é", "[a]", "a\"b", "a\\b", "v1", "{}", "$a", "a*c", "^a", "nan", "inf", "Infinity", "-inf"}
var mNums = []string{"0", "1", "2", "3", "5", "10", "100", "-1", "0.5", "1.5", "1000"}

func mScalar(r *rand.Rand) interface{} {
	switch r.Intn(5) {
	case 0, 1:
		if chance(r, 0.2) {
			if s := genText(r); s != "" && !strings.ContainsAny(s[:1], "+-.0123456789") {
				return s
			}
		}
		return pick(r, mTexts)
	case 2, 3:
		if chance(r, 0.2) {
			return genNum(r)
		}
		return num(pick(r, mNums))
	}
	return chance(r, 0.5)
}

var mKeys = []string{"a", "b", "c", "app", "tier", "k-1"}

func mKey(r *rand.Rand) string {
	if chance(r, 0.1) {
		return genKey(r)
	}
	return pick(r, mKeys)
}

func mMap(r *rand.Rand) M {
	m := M{}
	objs := chance(r, 0.3)
	for i := genLen(r, 4); i > 0; i-- {
		if objs {
			o := M{}
			if chance(r, 0.7) {
				o["x"] = mScalar(r)
			}
			if chance(r, 0.5) {
				o["y"] = M{"z": mScalar(r)}
			}
			m[mKey(r)] = o
		} else {
			m[mKey(r)] = mScalar(r)
		}
	}
	return m
}

func mElem(r *rand.Rand, depth int) M {
	o := M{}
	if chance(r, 0.8) {
		o["name"] = pick(r, mTexts[:6])
	}
	if chance(r, 0.8) {
		o["n"] = num(pick(r, mNums))
	}
	if chance(r, 0.5) {
		o["s"] = mScalar(r)
	}
	if chance(r, 0.5) {
		sub := M{}
		if chance(r, 0.7) {
			sub["x"] = mScalar(r)
		}
		if chance(r, 0.7) {
			sub["y"] = num(pick(r, mNums))
		}
		o["sub"] = sub
	} else if chance(r, 0.1) {
		o["sub"] = mScalar(r)
	}
	if depth > 0 && chance(r, 0.8) {
		l := L{}
		for i := genLen(r, 4) % 20; i > 0; i-- {
			l = append(l, mElem(r, depth-1))
		}
		o["list"] = l
	}
	return o
}

func mDoc(r *rand.Rand) M {
	d := mElem(r, 0)
	if chance(r, 0.3) { // named like the field documents are stored under
		d["raw"] = M{"x": mScalar(r), "name": pick(r, mTexts[:6])}
	}
	d["kind"] = pick(r, []string{"Pod", "Deployment", "a"})
	if chance(r, 0.8) {
		meta := M{"name": pick(r, mTexts)}
		if chance(r, 0.8) {
			meta["labels"] = mMap(r)
		}
		d["meta"] = meta
	}
	for _, k := range []string{"items", "more"} {
		if chance(r, 0.8) {
			l := L{}
			for i := r.Intn(4); i > 0; i-- {
				l = append(l, mElem(r, 2))
			}
			d[k] = l
		}
	}
	if chance(r, 0.7) {
		d["map"] = mMap(r)
	}
	return d
}

// mPath gives the path to a scalar (or a missing field) of an element or document
func mPath(r *rand.Rand, doc bool) []ref.Seg {
	base := [][]ref.Seg{{ref.N("name")}, {ref.N("n")}, {ref.N("s")}, {ref.N("sub"), ref.N("x")}, {ref.N("sub"), ref.N("y")}, {ref.N("missing")}, {ref.N("sub"), ref.N("missing")}, {ref.N("list"), ref.I(r.Intn(3)), ref.N(pick(r, []string{"name", "n", "s"}))}}
	if doc {
		base = append(base, [][]ref.Seg{{ref.N("raw"), ref.N("x")}, {ref.N("kind")}, {ref.N("meta"), ref.N("name")}, {ref.N("meta"), ref.N("labels"), ref.N(pick(r, mKeys))}, {ref.N("map"), ref.N(pick(r, mKeys))}, {ref.N("items"), ref.I(r.Intn(3)), ref.N(pick(r, []string{"name", "n", "s"}))}, {ref.N("items"), ref.I(r.Intn(2)), ref.N("sub"), ref.N("x")}, {ref.N("items"), ref.I(0), ref.N("list"), ref.I(0), ref.N("n")}}...)
	}
	return pick(r, base)
}

func mLeaf(r *rand.Rand, root string, segs []ref.Seg, docs []interface{}) *ref.Node {
	// look at a value that really is there
	var v interface{}
	found := false
	for i := 0; i < 6 && !found && len(docs) > 0; i++ {
		v, found = ref.Find(pick(r, docs), segs)
	}
	switch v.(type) {
	case M, L, nil:
		v, found = nil, false
	}
	m := pick(r, []string{"EQ", "EQ", "EQ", "NEQ", "NE", "GT", "GE", "LT", "LE", "RE", "NRE", "IN", "NIN", "EX", "NEX"})
	if _, isNum := v.(interface{ Float64() (float64, error) }); found && !isNum && (m == "GT" || m == "GE" || m == "LT" || m == "LE") && chance(r, 0.7) {
		m = "EQ"
	} else if _, isText := v.(string); found && !isText && (m == "RE" || m == "NRE" || m == "IN" || m == "NIN") {
		m = pick(r, []string{"EQ", "NEQ", "LT", "GE", "EX"})
	}
	n := &ref.Node{Op: "LEAF", Path: &ref.Path{Root: root, Segs: segs}, Method: caseOf(r, m)}
	switch m {
	case "EX", "NEX":
		n.Value = ""
	case "RE", "NRE":
		n.Value = pick(r, []string{"a", "^a", "b$", "^a$", "^foo|bar$", ".", "(?i)A", "^(a|b)$", "\\.", "[a-c]+"})
		if s, ok := v.(string); ok && !strings.ContainsAny(s, "\n\r") {
			n.Value = genRegex(r, s)
		}
	case "IN", "NIN":
		items := []string{pick(r, itemPool), pick(r, []string{"a.b", "v1", "a", "x-y"})}
		for k := genLen(r, 2); k > 0; k-- {
			items = append(items, pick(r, []string{"a.b", "v1", "a", "x-y", "ab", "foo"}))
		}
		if s, ok := v.(string); ok && chance(r, 0.6) && !strings.ContainsAny(s, ",[]#\n\r") {
			items[r.Intn(len(items))] = s
		}
		n.Value = strings.Join(items, ",")
		if chance(r, 0.4) {
			n.Value = "[" + n.Value.(string) + "]"
		}
	case "GT", "GE", "LT", "LE":
		n.Value = pick(r, []interface{}{"0", 1, "2", 3, "0.5", 1.5, -1, "10", "5"})
		if found && chance(r, 0.5) {
			if _, ok := ref.Quantity(ref.Text(v)); ok {
				n.Value = spellNum(r, ref.Text(v))
			}
		}
	default:
		n.Value = pick(r, []interface{}{"a", "b", "foo", 1, "2", 0.5, "true", false, "x y"})
		if found && chance(r, 0.6) {
			n.Value = noReference(ref.Text(v))
			if _, isNum := v.(interface{ Float64() (float64, error) }); isNum {
				n.Value = spellNum(r, ref.Text(v))
			}
		}
	}
	return n
}

// spellNum writes a number in another way
func spellNum(r *rand.Rand, s string) string {
	if !chance(r, 0.3) || strings.ContainsAny(s, "eE") {
		return s
	}
	dot := strings.Contains(s, ".")
	switch r.Intn(4) {
	case 0:
		if dot {
			return s + "0"
		}
		return s + ".0"
	case 1:
		if strings.HasPrefix(s, "-") {
			return "-0" + s[1:]
		}
		return "0" + s
	case 2:
		if !strings.HasPrefix(s, "-") {
			return "+" + s
		}
	}
	return s
}

// mTree makes a translatable tree; docs are sample values of the current element
func mTree(r *rand.Rand, docs []interface{}, inElem bool, depth int) *ref.Node {
	root := ref.Abs
	if inElem {
		root = ref.Rel
	}
	leaf := func() *ref.Node { return mLeaf(r, root, mPath(r, !inElem), docs) }
	if depth <= 0 {
		return leaf()
	}
	x := r.Intn(100)
	switch {
	case x < 22, x < 44:
		n := &ref.Node{Op: "AND"}
		if x >= 22 {
			n.Op = "OR"
		}
		k := 1 + r.Intn(3)
		if chance(r, 0.1) {
			k, depth = 4+r.Intn(6), 1+depth/3
		}
		for ; k > 0; k-- {
			n.Kids = append(n.Kids, mTree(r, docs, inElem, depth-1))
		}
		return n
	case x < 58:
		return &ref.Node{Op: "NOT", Kids: []*ref.Node{mTree(r, docs, inElem, depth-1)}}
	case x < 68 && !inElem:
		return mKeyValue(r, docs)
	case x < 92:
		segs := []ref.Seg{ref.N("list")}
		if !inElem {
			segs = []ref.Seg{ref.N(pick(r, []string{"items", "items", "more", "missing"}))}
			switch r.Intn(6) {
			case 0:
				segs = append(segs, ref.A(), ref.N("list"))
			case 1:
				segs = append(segs, ref.I(r.Intn(2)), ref.N("list"))
			case 2:
				segs = append(segs, ref.A(), ref.N("list"), ref.A(), ref.N("list"))
			}
		} else if chance(r, 0.3) {
			segs = append(segs, ref.A(), ref.N("list"))
		}
		segs = append(segs, ref.A())
		var inner []interface{}
		for _, d := range docs {
			inner = append(inner, selectSafe(d, segs)...)
		}
		if len(segs) == 2 && chance(r, 0.15) {
			segs = segs[:1]
		}
		return &ref.Node{Op: pick(r, []string{"ANY", "ANY", "ALL"}), Parent: []ref.Path{{Root: root, Segs: segs}},
			Kids: []*ref.Node{mTree(r, inner, true, depth-1)}}
	}
	return leaf()
}

// mKeyValue makes a condition on the pairs of an object
func mKeyValue(r *rand.Rand, docs []interface{}) *ref.Node {
	segs := pick(r, [][]ref.Seg{{ref.N("map")}, {ref.N("meta"), ref.N("labels")}, {ref.N("missing")}})
	var keys, vals []interface{}
	for _, d := range docs {
		if v, ok := ref.Find(d, segs); ok {
			if o, isObj := v.(M); isObj {
				for _, k := range sortedKeys(o) {
					keys = append(keys, k)
					vals = append(vals, o[k])
				}
			}
		}
	}
	var leaf *ref.Node
	if chance(r, 0.5) {
		leaf = mLeaf(r, ref.Key, nil, keys)
	} else {
		sub := pick(r, [][]ref.Seg{nil, nil, {ref.N("x")}, {ref.N("y"), ref.N("z")}})
		leaf = mLeaf(r, ref.Value, sub, vals)
	}
	return &ref.Node{Op: "ANY", Parent: []ref.Path{{Root: ref.Abs, Segs: segs}}, Kids: []*ref.Node{leaf}}
}

// mDomain panics OutOfDomain when the query language and the engine are known to see a value differently
func mDomain(n *ref.Node, doc, elem interface{}, key string) {
	out := func(why string) { panic(ref.OutOfDomain{Why: why}) }
	switch n.Op {
	case "LEAF":
		var v interface{}
		found := true
		switch n.Path.Root {
		case ref.Key:
			v = key
		case ref.Value, ref.Rel:
			v, found = ref.Find(elem, n.Path.Segs)
		default:
			v, found = ref.Find(doc, n.Path.Segs)
		}
		if !found {
			return
		}
		m := strings.ToUpper(n.Method)
		switch x := v.(type) {
		case nil:
			out("null")
		case M:
			if m != "EX" && m != "NEX" {
				out("object value")
			}
			return
		case L:
			out("array value")
		case string:
			if x == "" {
				out("empty text")
			}
			if _, isQ := ref.Quantity(x); isQ {
				out("numeric text")
			}
			if strings.ContainsAny(x, "\n\r") {
				out("newline")
			}
			return
		}
		switch m {
		case "RE", "NRE", "IN", "NIN":
			out("regular expression on a value which is not a text")
		}
		if _, isBool := v.(bool); isBool {
			return
		}
	case "ANY", "ALL":
		base := doc
		if n.Parent[0].Root == ref.Rel {
			base = elem
		}
		segs := n.Parent[0].Segs
		var v interface{}
		found := false
		if !hasAll(cut(segs)) {
			v, found = ref.Find(base, cut(segs))
		}
		if found {
			kv := false
			n.Kids[0].Walk(func(k *ref.Node) {
				if k.Path != nil && (k.Path.Root == ref.Key || k.Path.Root == ref.Value) {
					kv = true
				}
			})
			if kv {
				o, isObj := v.(M)
				if !isObj {
					out("key/value condition on something else than an object")
				}
				for _, k := range sortedKeys(o) {
					mDomain(n.Kids[0], doc, o[k], k)
				}
				return
			}
			if _, isArr := v.(L); !isArr {
				out("quantifier over something else than an array")
			}
		}
		for _, e := range ref.Select(base, segs) {
			if _, isObj := e.(M); !isObj {
				out("element which is not an object")
			}
			mDomain(n.Kids[0], doc, e, "")
		}
	default:
		for _, k := range n.Kids {
			mDomain(k, doc, elem, key)
		}
	}
}

// cut removes a trailing [:]
func cut(segs []ref.Seg) []ref.Seg {
	if len(segs) > 0 && segs[len(segs)-1].All {
		return segs[:len(segs)-1]
	}
	return segs
}

// overlap tells whether two key/value conditions use parents of which one contains the other
func overlap(n *ref.Node) bool {
	var ps []string
	n.Walk(func(k *ref.Node) {
		if k.Op == "ANY" && k.Kids[0].Op == "LEAF" && k.Kids[0].Path != nil && (k.Kids[0].Path.Root == ref.Key || k.Kids[0].Path.Root == ref.Value) {
			ps = append(ps, segsText(k.Parent[0].Segs, nil)+".")
		}
	})
	for i := range ps {
		for j := range ps {
			if i != j && ps[i] != ps[j] && strings.HasPrefix(ps[i], ps[j]) {
				return true
			}
		}
	}
	return false
}

func stored(base string, doc interface{}) mongoref.M {
	v := decodeDoc(doc)
	if base == "" {
		m := v.(mongoref.M)
		m["_id"] = "x"
		return m
	}
	parts := strings.Split(base, ".")
	for i := len(parts) - 1; i >= 0; i-- {
		v = mongoref.M{parts[i]: v}
	}
	m := v.(mongoref.M)
	m["_id"] = "x"
	return m
}

func (t *T) translate(rule *me.Rule, base string, d D) (interface{}, me.MaplToMongoResult, error) {
	var res me.MaplToMongoResult
	var err error
	t.Call("ToMongoQuery", d, func() { res, err = rule.ToMongoQuery(base) })
	if err != nil {
		return nil, res, err
	}
	q, gerr := mongoref.Generic(res.Query)
	if gerr != nil {
		d["error"] = gerr.Error()
		t.Fail("the query cannot be written as BSON", d)
	}
	d["query"] = jsonText(q)
	return q, res, nil
}

var bases = []string{"raw", "", "a.b", "doc_1"}

func c17(t *T) {
	r := t.R
	selfTest()
	n := t.N(16000, 250000)
	for i := 0; i < n; i++ {
		var docs []interface{}
		for k := 0; k < 6; k++ {
			docs = append(docs, mDoc(r))
		}
		var tree *ref.Node
		if !chance(r, 0.02) {
			tree = mTree(r, docs, false, r.Intn(5))
			if overlap(tree) {
				continue
			}
			if chance(r, 0.003) {
				tree = widen(r, tree, 257)
				t.Obs("big")
			}
		} else {
			t.Obs("no conditions")
		}
		t.mongoCase(r, tree, docs)
	}
}

type mongoMismatch struct {
	what string
	d    D
}

func (t *T) mongoOne(tree *ref.Node, doc interface{}, base, form string, spell int64) (bad *mongoMismatch, want, ok bool) {
	if tree != nil && !t.InDomain(func() { mDomain(tree, doc, doc, "") }) {
		return nil, false, false
	}
	var r *rand.Rand
	if spell != 0 {
		r = rand.New(rand.NewSource(spell))
	}
	text := rulesText([]*ref.Rule{plainRule(tree)}, r)
	d := D{"rules": text, "base": base, "document": docText(doc, nil)}
	t.Begin(text)
	rules := t.mustLoad(text, d)
	rule := &rules.Rules[0]
	q, res, err := t.translate(rule, base, d)
	if err != nil {
		d["error"] = err.Error()
		return &mongoMismatch{"a translatable rule was refused", d}, false, true
	}
	msg := buildMsg(&ref.Msg{Doc: doc, HasDoc: true}, form, r)
	var dec int
	t.Call("rule.Check", d, func() { dec, _ = rule.Check(msg) })
	want = dec > 0
	got := false
	ok = true
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case mongoref.Unknown:
				t.Obs("unknown operator: " + x.What)
				ok = false
			case mongoref.Invalid:
				d["error"] = x.What
				bad = &mongoMismatch{"the database would refuse the query", d}
			default:
				panic(x)
			}
		}()
		got = mongoref.Select(q, stored(base, doc))
	}()
	if bad != nil || !ok {
		return
	}
	if got != want {
		d["engine"], d["selected"] = want, got
		return &mongoMismatch{"the query and the engine disagree on a document", d}, want, true
	}
	switch res.Type {
	case me.QueryTypeSimple:
		t.Obs("filter")
		if _, isM := q.(mongoref.M); !isM {
			return &mongoMismatch{"a query of type simple is not a filter", d}, want, true
		}
	case me.QueryTypeAggregate:
		t.Obs("pipeline")
		if _, isA := q.(mongoref.A); !isA {
			return &mongoMismatch{"a query of type aggregate is not a pipeline", d}, want, true
		}
	default:
		return &mongoMismatch{"query type", d}, want, true
	}
	return nil, want, true
}

func (t *T) mongoCase(r *rand.Rand, tree *ref.Node, docs []interface{}) {
	base := pick(r, bases)
	yes, no := 0, 0
	key := ""
	for _, doc := range docs {
		form := pick(r, docForms)
		spell := int64(0)
		if chance(r, 0.5) {
			spell = 1 + r.Int63n(1<<40)
		}
		bad, want, ok := t.mongoOne(tree, doc, base, form, spell)
		if bad != nil {
			what := bad.what
			if tree != nil {
				t2, m2 := shrink(tree, &ref.Msg{Doc: doc, HasDoc: true}, func(n *ref.Node, m *ref.Msg) bool {
					b, _, _ := t.mongoOne(n, m.Doc, base, form, spell)
					return b != nil && b.what == what
				})
				bad, _, _ = t.mongoOne(t2, m2.Doc, base, form, spell)
			}
			t.Fail(what, bad.d)
		}
		if !ok {
			continue
		}
		if want {
			yes++
			t.Obs("selected")
		} else {
			no++
			t.Obs("not selected")
		}
		t.Eval("")
		if tree != nil {
			tree.Walk(func(n *ref.Node) {
				if (n.Op == "ANY" || n.Op == "ALL") && n.Parent[0].Root == ref.Abs && hasAll(cut(n.Parent[0].Segs)) && len(ref.Select(doc, n.Parent[0].Segs)) > 0 {
					t.Obs("elements of lists of lists")
				}
				if n.Op == "LEAF" && n.Path.Root == ref.Abs {
					if _, found := ref.Find(doc, n.Path.Segs); !found {
						t.Obs("missing field")
					}
				}
			})
		}
	}
	if tree != nil {
		tree.Walk(func(n *ref.Node) {
			t.Obs(n.Op)
			if n.Op == "ANY" || n.Op == "ALL" {
				n.Kids[0].Walk(func(k *ref.Node) {
					if k.Op == "ANY" || k.Op == "ALL" {
						t.Obs("nested quantifier")
					}
				})
			}
		})
	}
	t.Obs("base '" + base + "'")
	if yes > 0 && no > 0 {
		key = jsonText(treeGeneric(tree, nil)) + jsonText(docs)
		t.Sample("mixed", D{"conditions": treeGeneric(tree, nil), "base": base, "selected": yes, "not selected": no})
	}
	t.Eval(key)
}

// selfTest checks the query evaluator on facts of the MongoDB manual
func selfTest() {
	type M = mongoref.M
	type A = mongoref.A
	doc := M{"a": 1.0, "t": "x", "l": A{M{"n": 1.0, "k": A{M{"m": 1.0}}}, M{"n": 5.0}}, "s": A{"p", "q"}, "o": M{"x": "y"}}
	for i, c := range []struct {
		q    M
		want bool
	}{
		{M{}, true}, {M{"a": 1.0}, true}, {M{"a": M{"$gt": 0.0, "$lt": 2.0}}, true}, {M{"t": M{"$gt": 0.0}}, false},
		{M{"z": M{"$ne": 1.0}}, true}, {M{"z": M{"$exists": false}}, true}, {M{"z": nil}, true}, {M{"l.n": 5.0}, true}, {M{"l.0.n": 5.0}, false}, {M{"l.1.n": 5.0}, true},
		{M{"l": M{"$elemMatch": M{"n": M{"$gt": 1.0, "$lt": 5.0}}}}, false}, {M{"l.n": M{"$gt": 1.0}, "l.0.n": M{"$lt": 5.0}}, true},
		{M{"l.k": M{"$elemMatch": M{"m": 1.0}}}, true}, {M{"s": "p"}, true}, {M{"s": M{"$elemMatch": M{"$eq": "q"}}}, true}, {M{"s": M{"$elemMatch": M{"x": M{"$exists": false}}}}, false},
		{M{"o": M{"$elemMatch": M{"x": "y"}}}, false}, {M{"$nor": A{M{"a": 1.0}}}, false}, {M{"t": M{"$not": M{"$regex": "^x"}}}, false}, {M{"a": M{"$not": M{"$regex": "1"}}}, true}, {M{"z": M{"$nin": A{1.0}}}, true},
		{M{"s": M{"$ne": "p"}}, false},
	} {
		if mongoref.Match(c.q, doc) != c.want {
			panic(fmt.Sprintf("query evaluator self test %d", i))
		}
	}
}

// ---- C18 -------------------------------------------------------------------------------------------------

var refusalKinds = []string{"attribute", "recursive descent", "several parents", "key/value in array", "key/value under ALL", "key/value in group", "outside the element", "outside parent", "whole element", "whole element parent", "recursive descent leaf"}

// refusal makes an untranslatable node
func refusal(r *rand.Rand, kind string, inElem bool, docs []interface{}) *ref.Node {
	root := ref.Abs
	if inElem {
		root = ref.Rel
	}
	in := mLeaf(r, ref.Rel, mPath(r, false), nil)
	kv := func() *ref.Node {
		if chance(r, 0.5) {
			return mLeaf(r, ref.Key, nil, nil)
		}
		return mLeaf(r, ref.Value, pick(r, [][]ref.Seg{nil, {ref.N("x")}}), nil)
	}
	q := pick(r, []string{"ANY", "ALL"})
	list := "items"
	if inElem {
		list = "list"
	}
	switch kind {
	case "attribute":
		m := &ref.Msg{}
		return attrLeaf(r, m)
	case "recursive descent":
		segs := pick(r, [][]ref.Seg{{ref.D("list"), ref.A()}, {ref.N("items"), ref.D("list"), ref.A()}, {ref.D("items")}})
		return &ref.Node{Op: q, Parent: []ref.Path{{Root: root, Segs: segs}}, Kids: []*ref.Node{in}}
	case "recursive descent leaf":
		l := mLeaf(r, root, []ref.Seg{ref.N("meta"), ref.D("name")}, nil)
		return l
	case "several parents":
		return &ref.Node{Op: q, Parent: []ref.Path{{Root: root, Segs: []ref.Seg{ref.N(list), ref.A()}}, {Root: root, Segs: []ref.Seg{ref.N("more"), ref.A()}}}, Kids: []*ref.Node{in}}
	case "key/value in array":
		if chance(r, 0.25) { // the pairs of the elements themselves
			return &ref.Node{Op: "ANY", Parent: []ref.Path{{Root: root, Segs: []ref.Seg{ref.N(list), ref.A()}}}, Kids: []*ref.Node{kv()}}
		}
		if chance(r, 0.4) {
			return &ref.Node{Op: "ANY", Parent: []ref.Path{{Root: root, Segs: []ref.Seg{ref.N(list), ref.A(), ref.N("map")}}}, Kids: []*ref.Node{kv()}}
		}
		return &ref.Node{Op: pick(r, []string{"ANY", "ALL"}), Parent: []ref.Path{{Root: root, Segs: []ref.Seg{ref.N(list), ref.A()}}},
			Kids: []*ref.Node{{Op: "ANY", Parent: []ref.Path{{Root: ref.Rel, Segs: []ref.Seg{ref.N("map")}}}, Kids: []*ref.Node{kv()}}}}
	case "key/value under ALL":
		return &ref.Node{Op: "ALL", Parent: []ref.Path{{Root: root, Segs: []ref.Seg{ref.N("map")}}}, Kids: []*ref.Node{kv()}}
	case "key/value in group":
		g := &ref.Node{Op: pick(r, []string{"AND", "OR"}), Kids: []*ref.Node{kv(), kv()}}
		if chance(r, 0.3) {
			g = &ref.Node{Op: "NOT", Kids: []*ref.Node{kv()}}
		}
		return &ref.Node{Op: "ANY", Parent: []ref.Path{{Root: root, Segs: []ref.Seg{ref.N("map")}}}, Kids: []*ref.Node{g}}
	case "outside the element":
		l := mLeaf(r, ref.Abs, mPath(r, true), nil)
		if chance(r, 0.5) {
			l = &ref.Node{Op: pick(r, []string{"AND", "OR"}), Kids: []*ref.Node{in, l}}
		}
		if inElem {
			return l
		}
		return &ref.Node{Op: q, Parent: []ref.Path{{Root: root, Segs: []ref.Seg{ref.N(list), ref.A()}}}, Kids: []*ref.Node{l}}
	case "outside parent":
		inner := &ref.Node{Op: q, Parent: []ref.Path{{Root: ref.Abs, Segs: []ref.Seg{ref.N("items"), ref.A()}}}, Kids: []*ref.Node{in}}
		if inElem {
			return inner
		}
		return &ref.Node{Op: pick(r, []string{"ANY", "ALL"}), Parent: []ref.Path{{Root: root, Segs: []ref.Seg{ref.N(list), ref.A()}}}, Kids: []*ref.Node{inner}}
	case "whole element":
		l := mLeaf(r, ref.Rel, nil, nil)
		if inElem && chance(r, 0.5) {
			return l
		}
		return &ref.Node{Op: q, Parent: []ref.Path{{Root: root, Segs: []ref.Seg{ref.N(pick(r, []string{"strs", list})), ref.A()}}}, Kids: []*ref.Node{l}}
	case "whole element parent":
		inner := &ref.Node{Op: q, Parent: []ref.Path{{Root: ref.Rel, Whole: true}}, Kids: []*ref.Node{in}}
		if inElem {
			return inner
		}
		return &ref.Node{Op: pick(r, []string{"ANY", "ALL"}), Parent: []ref.Path{{Root: root, Segs: []ref.Seg{ref.N(list), ref.A()}}}, Kids: []*ref.Node{inner}}
	}
	panic(kind)
}

// plantNode puts a node somewhere into a copy of the tree
func plantNode(r *rand.Rand, n *ref.Node, kind string, depth int, inElem bool, docs []interface{}) (*ref.Node, int) {
	kv := len(n.Kids) == 1 && n.Kids[0].Path != nil && (n.Kids[0].Path.Root == ref.Key || n.Kids[0].Path.Root == ref.Value)
	if len(n.Kids) == 0 || kv || chance(r, 0.2) {
		x := refusal(r, kind, inElem, docs)
		if chance(r, 0.3) {
			x = &ref.Node{Op: pick(r, []string{"AND", "OR"}), Kids: []*ref.Node{x, n.Clone()}}
			if chance(r, 0.5) {
				x.Kids[0], x.Kids[1] = x.Kids[1], x.Kids[0]
			}
		}
		return x, depth
	}
	c := *n
	c.Kids = append([]*ref.Node{}, n.Kids...)
	k := r.Intn(len(c.Kids))
	if len(c.Kids) > 16 && chance(r, 0.5) {
		k = len(c.Kids) - 1
	}
	sub, at := plantNode(r, c.Kids[k], kind, depth+1, inElem || n.Op == "ANY" || n.Op == "ALL", docs)
	c.Kids[k] = sub
	return &c, at
}

func c18(t *T) {
	r := t.R
	n := t.N(24000, 350000)
	for i := 0; i < n; i++ {
		var docs []interface{}
		for k := 0; k < 3; k++ {
			docs = append(docs, mDoc(r))
		}
		tree := mTree(r, docs, false, r.Intn(5))
		if chance(r, 0.005) {
			tree = widen(r, tree, 1025)
			t.Obs("big")
		}
		base := pick(r, bases)
		if chance(r, 0.35) {
			t.c18ok(r, tree, docs, base)
			continue
		}
		kind := pick(r, refusalKinds)
		bad, at := plantNode(r, tree, kind, 0, false, docs)
		text := rulesText([]*ref.Rule{plainRule(bad)}, pick(r, []*rand.Rand{nil, r}))
		d := D{"rules": text, "base": base, "construct": kind}
		t.Begin(text)
		rules := t.mustLoad(text, d)
		rule := &rules.Rules[0]
		if chance(r, 0.3) {
			msg := buildMsg(&ref.Msg{Doc: docs[0], HasDoc: true}, pick(r, docForms), nil)
			t.Call("rule.Check", d, func() { rule.Check(msg) })
		}
		for k := 0; k < 2; k++ {
			_, res, err := t.translate(rule, base, d)
			if err == nil {
				t.Fail("an untranslatable rule was translated", d)
			}
			if res.Query != nil {
				d["query"] = fmt.Sprint(res.Query)
				t.Fail("a refused translation gave a query", d)
			}
		}
		if at > 0 {
			t.Obs("nested")
		}
		t.Obs("refused: " + kind)
		t.Eval(text)
		t.Sample(kind, d)
	}
}

func (t *T) c18ok(r *rand.Rand, tree *ref.Node, docs []interface{}, base string) {
	text := rulesText([]*ref.Rule{plainRule(tree)}, r)
	d := D{"rules": text, "base": base}
	t.Begin(text)
	rules := t.mustLoad(text, d)
	rule := &rules.Rules[0]
	var msgs []*me.MessageAttributes
	for _, doc := range docs {
		msgs = append(msgs, buildMsg(&ref.Msg{Doc: doc, HasDoc: true}, pick(r, docForms), r))
	}
	outcome := func(rule *me.Rule) string {
		s := ""
		for _, m := range msgs {
			t.Call("rule.Check", d, func() {
				dec, data := rule.Check(m)
				s += fmt.Sprint(dec, len(data), ";")
			})
		}
		return s
	}
	query := func(rule *me.Rule, when string) string {
		q, res, err := t.translate(rule, base, d)
		if err != nil {
			d["error"], d["when"] = err.Error(), when
			t.Fail("a translatable rule was refused", d)
		}
		return string(res.Type) + " " + jsonText(q)
	}
	fresh := t.mustLoad(text, d)
	before := outcome(&fresh.Rules[0])
	first := query(rule, "first")
	same := func(q, when string) {
		if q != first {
			d["first"], d["later"], d["when"] = first, q, when
			t.Fail("translating a rule again gave another query", d)
		}
	}
	for k := 0; k < 3; k++ {
		switch r.Intn(7) {
		case 0:
			outcome(rule)
			t.Obs("used before")
		case 1:
			me.RuleMD5Hash(*rule)
			_ = rule.String()
		case 2:
			t.Call("ValidateRule", d, func() { me.ValidateRule(rule) })
		case 3:
			other := pick(r, bases)
			t.Call("ToMongoQuery", d, func() { rule.ToMongoQuery(other) })
		case 4:
			t.Call("SetPredefinedStringsAndLists", d, func() { rule.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) })
		case 5:
			rule = t.hopJSON(rule, d)
			t.Obs("reloaded")
		default:
			rule = t.hopBSON(rule, d)
			t.Obs("reloaded")
		}
		same(query(rule, "later"), "later")
	}
	same(query(&fresh.Rules[0], "used"), "after checking messages")
	after := outcome(rule)
	if after != before {
		d["expected"], d["got"] = before, after
		t.Fail("translation changed how a rule decides", d)
	}
	// a value given by reference gives the query of the value written out
	var leaves []*ref.Node
	refd := tree.Clone()
	refd.Walk(func(n *ref.Node) {
		if n.Op == "LEAF" && strings.Trim(strings.ToUpper(n.Method), "N") != "EX" {
			switch strings.ToUpper(n.Method) {
			case "GT", "GE", "LT", "LE", "EX", "NEX":
			default:
				leaves = append(leaves, n)
			}
		}
	})
	if len(leaves) > 0 && chance(r, 0.5) {
		l := pick(r, leaves)
		v := l.ValueText()
		if v != "" && !strings.HasPrefix(v, "#") {
			l.Value = "#s1"
			defs := me.PredefinedStringsAndLists{PredefinedStrings: map[string]string{"s1": v, "s2": "zzz"}}
			rt := rulesText([]*ref.Rule{plainRule(refd)}, nil)
			d2 := D{"rules": rt, "base": base, "definition": v, "written out": text}
			rr := t.mustLoad(rt, d2)
			var err error
			t.Call("SetPredefinedStringsAndLists", d2, func() { err = rr.Rules[0].SetPredefinedStringsAndLists(defs) })
			if err != nil {
				d2["error"] = err.Error()
				t.Fail("preparing failed", d2)
			}
			q, res, err := t.translate(&rr.Rules[0], base, d2)
			if err != nil {
				d2["error"] = err.Error()
				t.Fail("a translatable rule was refused", d2)
			}
			plain := t.mustLoad(rulesText([]*ref.Rule{plainRule(tree)}, nil), d2)
			want := query(&plain.Rules[0], "written out")
			if g := string(res.Type) + " " + jsonText(q); g != want {
				d2["expected"], d2["got"] = want, g
				t.Fail("a rule with a reference is translated differently from the rule written out", d2)
			}
			t.Obs("written out")
		}
	}
	t.Obs("translated")
	t.Eval(text)
	t.Sample("translated", d)
}
