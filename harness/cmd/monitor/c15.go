package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"

	"verif/harness/ref"
)

func init() {
	checks["C15"] = &check{run: c15, rule: "rule, message and definition texts made from valid ones by structural and textual mutation (and raw garbage), hostile documents in raw and decoded form; every public operation runs on whatever loads; non-trivial: a mutated text that loads, or a hostile document that is checked", minQuick: 4000,
		need: map[string]int{"rules loaded": 4000, "rules rejected": 4000, "unprepared rule checked": 300, "malformed document": 2000, "odd decoded document": 2000, "definitions rejected": 300, "definitions loaded": 300, "messages loaded": 300, "messages rejected": 300, "deep": 20, "json loaded": 500, "bson loaded": 300}}
}

var junk = []interface{}{nil, "", "x", 0, 1, -1, 1.5, true, L{}, M{}, L{nil}, M{"": nil}, L{L{}}, M{"AND": nil}, M{"x": M{}}, "#x", "#", "$", "jsonpath:", "jsonpath:$", "jsonpath:$.", "jsonpath:.", "jsonpath:$RELATIVE", "jsonpath:$RELATIVE*", "jsonpath:$RELATIVE.", "jsonpath:$KEY", "jsonpath:$VALUE", "jsonpath:$VALUE.", "jsonpath:$.a[", "jsonpath:$.a]", "jsonpath:$.[\"", "jsonpath:$.a['", "jsonpath:$..", "jsonpath:$..*", "jsonpath:$.*", "jsonpath:$.a[?(@.b)]", "jsonpath:$.a[:].b", "jsonpath:$.a,$.b", "jsonpath:,", "jsonpath:$.a[:],", "senderLabel[", "senderLabel[]", "senderLabel[a]b", "receiverLabel[", "receiverLabel[x", "$sender.", "$receiver.", "$sender.x", "[", "]", "[]", "(", "*", "?", "**", "\\", "\"", "'", "\x00", "é ", "10.0.0.0/33", "1e400", "-", ",", ",,", "NaN", int64(math.MaxInt64), math.MaxFloat64, "subnet", "tcp", "IS", "encryptionVersion", "payloadSize", "jsonpath:$.a[0]]", "jsonpath:$[0]", "jsonpath:$.a[99999999999999999999]", "jsonpath:$.a[1:2", "jsonpath:$.a.", "jsonpath:$.a..b", "jsonpath:$. a", "jsonpath:$.a b", "jsonpath:$.\"a\"", "jsonpath:$.'a'.b", "jsonpath:$RELATIVE[0]", "jsonpath:$RELATIVE[:]", "jsonpath:$RELATIVE.[\"a.b\"]", "jsonpath:$KEYx", "jsonpath:$VALUEx", "jsonpath:$VALUE[0]", "jsonpath:$VALUE[:]", "jsonpath:$VALUE*"}

// mutate changes one random place of a generic value
func mutate(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		if len(x) > 0 && !chance(r, 0.08) {
			k := pick(r, sortedKeys(x))
			c := M{}
			for a, b := range x {
				c[a] = b
			}
			switch r.Intn(12) {
			case 0:
				delete(c, k)
			case 1:
				delete(c, k)
				c[pick(r, []string{"", "AND", "OR", "NOT", "ANY", "ALL", "condition", "conditions", "conditionsTree", "attribute", "value", "method", "x", "parentJsonpathAttribute", "returnValueJsonpath", "Attribute", "valueInt", "ValueFloat"})] = x[k]
			case 2:
				c[pick(r, []string{"AND", "OR", "NOT", "ANY", "ALL", "condition", "conditionsTree", "attribute", "value", "valueInt", "valueFloat", "returnValueJsonpath", "hash", "operationRegex"})] = pick(r, junk)
			default:
				c[k] = mutate(r, x[k])
			}
			return c
		}
	case L:
		if len(x) > 0 && !chance(r, 0.08) {
			i := r.Intn(len(x))
			c := append(L{}, x...)
			switch r.Intn(8) {
			case 0:
				return append(c[:i], c[i+1:]...)
			case 1:
				return append(c, x[i])
			case 2:
				c[i] = L{x[i]}
				return c
			default:
				c[i] = mutate(r, x[i])
				return c
			}
		}
	case string:
		if chance(r, 0.5) && len(x) > 0 {
			i := r.Intn(len(x) + 1)
			switch r.Intn(4) {
			case 0:
				return x[:i]
			case 1:
				return x[i:]
			case 2:
				return x[:i] + pick(r, []string{"[", "]", ".", "\"", "'", "$", "*", "#", ",", ":", "(", "\\", " ", "[:]", "..", "%", "{", "\x00", "é"}) + x[i:]
			default:
				return x + x
			}
		}
	}
	return pick(r, junk)
}

var keyText = regexp.MustCompile(`"[A-Za-z]+":`)

// oddKey writes one key of a JSON text as a YAML key which is not a text
func oddKey(r *rand.Rand, s string) string {
	at := keyText.FindAllStringIndex(s, -1)
	if len(at) == 0 {
		return s
	}
	p := pick(r, at)
	return s[:p[0]] + pick(r, []string{"1: ", "true: ", "null: ", "~: ", "1.5: ", "? [a] : ", "? {a: b} : ", "2001-01-01: ", "? : "}) + s[p[1]:]
}

// confuse makes conditions refer to something else than what is there
func confuse(r *rand.Rand, tree *ref.Node) {
	tree.Walk(func(n *ref.Node) {
		if n.Op == "LEAF" && n.Path != nil && chance(r, 0.4) {
			p := *n.Path
			p.Root = pick(r, []string{ref.Abs, ref.Rel, ref.Key, ref.Value})
			if p.Root == ref.Key || p.Root == ref.Value && chance(r, 0.5) || p.Root == ref.Rel && chance(r, 0.2) {
				p.Segs = nil
			}
			if p.Root == ref.Abs && len(p.Segs) == 0 {
				p.Segs = []ref.Seg{ref.N("items")}
			}
			n.Path = &p
		}
	})
}

func mutText(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + r.Intn(3); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		j := i + r.Intn(20)
		if j > len(b) {
			j = len(b)
		}
		switch r.Intn(6) {
		case 0:
			b = append(b[:i:i], b[j:]...)
		case 1:
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 2:
			b[i] = byte(r.Intn(256))
		case 3:
			b[i] = pick(r, []byte("{}[]\",:'#&*!|>%@`\\\n\t -?0$."))
		case 4:
			b = append(b[:i:i], append([]byte(pick(r, []string{"{", "}", "[", "]", "\"", ": ", "\n", "- ", "null", "&a ", "*a", "!!binary ", "<<: ", "~", "...", "---\n", "\\u0000", "\xff"})), b[i:]...)...)
		default:
			b = b[:i]
		}
	}
	return string(b)
}

// hostileRaw gives document texts
func hostileRaw(r *rand.Rand, doc interface{}) string {
	switch r.Intn(5) {
	case 0:
		return pick(r, []string{"", " ", "null", "true", "1", "\"a\"", "[]", "{}", "[[]]", "[[1],[2]]", "{", "[", "\"", "{\"a\":", "{\"a\":}", "{\"items\":[", "{\"items\":[{}", "{\"items\":[,]}", "{\"items\":null}", "nul", "\x00", "\xff\xfe", "{\"items\":{}}", "{\"items\":\"[\"}", "{\"a\":1}{\"a\":2}", "[{\"name\":\"a\"}]", "{\"items\":[[{\"name\":\"a\"}]]}", "{\"items\":[null]}", "{\"items\":[1,\"a\",null,true,{},[]]}", "{\"n\":1e999}", "{\"n\":-}", "{\"n\":2.5E+1}", "{\"map\":[1]}", "{\"map\":null,\"meta\":[]}", "{\"meta\":{\"labels\":\"x\"}}", "//", "{\"\":\"\"}", "{\"\":{\"\":[]}}"})
	case 1:
		return mutText(r, docText(doc, r))
	default:
		return docText(oddDoc(r, doc), r)
	}
}

var docJunk = []interface{}{nil, "", "a", num("1"), true, L{}, M{}, L{nil}, L{L{}}, L{L{num("1")}, L{}}, L{num("1"), "a", nil, M{}}, M{"": ""}, M{"a": nil}, L{""}, L{"", "a"}, L{M{}}, num("1e300"), num("-0"), "[", "]", "{", "\"", L{L{M{"name": "a"}}}}

// oddDoc puts unexpected values at random places of a document
func oddDoc(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		if len(x) > 0 && !chance(r, 0.1) {
			k := pick(r, sortedKeys(x))
			c := M{}
			for a, b := range x {
				c[a] = b
			}
			c[k] = oddDoc(r, x[k])
			if chance(r, 0.3) {
				c[pick(r, sortedKeys(x))] = pick(r, docJunk)
			}
			return c
		}
	case L:
		if len(x) > 0 && !chance(r, 0.1) {
			i := r.Intn(len(x))
			c := append(L{}, x...)
			c[i] = oddDoc(r, x[i])
			return c
		}
	}
	return pick(r, docJunk)
}

// oddGo gives decoded documents of Go types the engine may not expect
func oddGo(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		switch r.Intn(12) {
		case 0:
			return primitive.M(x)
		case 1:
			d := primitive.D{}
			for _, k := range sortedKeys(x) {
				d = append(d, primitive.E{Key: k, Value: x[k]})
			}
			return d
		case 2:
			m := map[interface{}]interface{}{}
			for k, e := range x {
				m[k] = e
			}
			return m
		}
		c := M{}
		for _, k := range sortedKeys(x) {
			c[k] = oddGo(r, x[k])
		}
		return c
	case []interface{}:
		switch r.Intn(8) {
		case 0:
			return primitive.A(x)
		case 1:
			l := []map[string]interface{}{}
			for _, e := range x {
				if m, ok := e.(map[string]interface{}); ok {
					l = append(l, m)
				}
			}
			return l
		case 2:
			return []string{"a", "b"}
		}
		c := L{}
		for _, e := range x {
			c = append(c, oddGo(r, e))
		}
		return c
	case float64:
		return pick(r, []interface{}{x, int(x), int64(x), int32(x), uint8(x), json.Number("5"), float32(x), math.NaN(), math.Inf(1)})
	case string:
		if chance(r, 0.1) {
			return []byte(x)
		}
	}
	return v
}

func (t *T) hostileMsg(r *rand.Rand, m *ref.Msg) (*me.MessageAttributes, D) {
	msg := buildMsg(m, formNone, nil)
	d := D{}
	if chance(r, 0.3) {
		msg.SourceLabels = nil
		msg.DestinationLabels = nil
	}
	if chance(r, 0.2) {
		msg.SourceIp, msg.DestinationIp = pick(r, badIPs), pick(r, badIPs)
		msg.SourceNetIp, msg.DestinationNetIp = nil, nil
		if chance(r, 0.5) {
			msg.SourceNetIp = []byte{1, 2}
		}
	}
	if chance(r, 0.1) {
		msg = &me.MessageAttributes{}
	}
	doc := m.Doc
	if doc == nil {
		doc = genDoc(r)
	}
	switch r.Intn(7) {
	case 0:
		return msg, D{"document": "none"}
	case 1, 2, 3:
		b := []byte(hostileRaw(r, doc))
		msg.RequestJsonRaw = &b
		d["raw"] = fmt.Sprintf("%q", b)
		t.Obs("malformed document")
		if chance(r, 0.2) {
			var nilb []byte
			msg.RequestJsonRaw = &nilb
			d["raw"] = "nil"
		}
	}
	if msg.RequestJsonRaw == nil || chance(r, 0.2) {
		var v interface{}
		switch r.Intn(3) {
		case 0:
			v = decodeDoc(oddDoc(r, doc))
		case 1:
			v = oddGo(r, decodeDoc(doc))
		default:
			v = oddGo(r, decodeDoc(oddDoc(r, doc)))
		}
		if chance(r, 0.1) {
			v = pick(r, []interface{}{nil, 1, "x", true, []int{1}, map[string]string{"a": "b"}, struct{}{}, L{}, L{L{}}, M{}})
		}
		msg.RequestRawInterface = &v
		d["decoded"] = fmt.Sprintf("%#v", v)
		t.Obs("odd decoded document")
	}
	return msg, d
}

// exercise runs every public operation on a rule
func (t *T) exercise(r *rand.Rand, rule *me.Rule, msgs []*me.MessageAttributes, md []D, d D) {
	var perr error
	fresh := chance(r, 0.5)
	if !fresh {
		t.Call("SetPredefinedStringsAndLists", d, func() {
			perr = rule.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{})
		})
	} else {
		cp := *rule
		t.Call("SetPredefinedStringsAndLists", d, func() {
			perr = cp.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{})
		})
	}
	t.Call("ValidateRule", d, func() { me.ValidateRule(rule) })
	for i, m := range msgs {
		d["message"] = md[i]
		dec := 0
		switch r.Intn(3) {
		case 0:
			t.Call("rule.Check", d, func() { dec, _ = rule.Check(m) })
		case 1:
			t.Call("CheckOneRule", d, func() { dec, _ = me.CheckOneRule(m, rule) })
		default:
			t.Call("Check", d, func() { dec, _, _, _, _, _, _ = me.Check(m, &me.Rules{Rules: []me.Rule{*rule}}) })
		}
		if perr != nil && dec > 0 {
			d["error"] = perr.Error()
			t.Fail("a rule which cannot be prepared applied to a message", d)
		}
		t.Call("TestConditions", d, func() { rule.TestConditions(m) })
		t.Eval("")
	}
	if perr != nil {
		t.Obs("unprepared rule checked")
	}
	delete(d, "message")
	t.Call("ToMongoQuery", d, func() { rule.ToMongoQuery(pick(r, bases)) })
	t.Call("RuleMD5Hash", d, func() { me.RuleMD5Hash(*rule) })
	t.Call("RuleMD5HashConditions", d, func() { me.RuleMD5HashConditions(*rule) })
	t.Call("rule.String", d, func() { _ = rule.String() })
	t.Call("GetRuleStrings", d, func() { me.GetRuleStrings(rule) })
	t.Call("ConditionsEqual", d, func() { rule.ConditionsEqual(*rule) })
	var b []byte
	var err error
	t.Call("json.Marshal", d, func() { b, err = json.Marshal(rule) })
	if err == nil {
		var back me.Rule
		t.Call("json.Unmarshal", d, func() { err = json.Unmarshal(b, &back) })
		if err == nil {
			t.Call("rule.String", d, func() { _ = back.String() })
			if len(msgs) > 0 {
				d["message"] = md[0]
				t.Call("rule.Check of a reloaded rule", d, func() { back.Check(msgs[0]) })
				delete(d, "message")
			}
		}
	}
	t.Call("bson.Marshal", d, func() { b, err = bson.Marshal(rule) })
	if err == nil {
		var back me.Rule
		t.Call("bson.Unmarshal", d, func() { err = bson.Unmarshal(b, &back) })
		if err == nil && len(msgs) > 0 {
			d["message"] = md[0]
			t.Call("rule.Check of a reloaded rule", d, func() { back.Check(msgs[0]) })
			delete(d, "message")
		}
	}
	t.Call("ToLower", d, func() { cp := *rule; cp.ToLower() })
}

func c15(t *T) {
	r := t.R
	dir, err := os.MkdirTemp("", "c15")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	opts := treeOpts{ret: true, attrs: true, absInside: true, deep: true, multi: true, mapOrder: true, star: true}
	n := t.N(28000, 400000)
	for i := 0; i < n; i++ {
		switch {
		case i%10 == 9:
			t.c15messages(r, dir)
			continue
		case i%20 == 8:
			t.c15definitions(r, dir)
			continue
		case i%300 == 50:
			t.c15deep(r)
			continue
		}
		m := genBasicMsg(r)
		genMsgAttrs(r, m)
		m.Doc, m.HasDoc = genDoc(r), true
		tree := genTree(r, m, r.Intn(4), opts)
		if chance(r, 0.2) {
			confuse(r, tree)
		}
		g := ruleGeneric(genRule(r, m, "r", tree), r)
		if chance(r, 0.6) { // reach the conditions more often
			g = ruleGeneric(plainRule(tree), r)
		}
		if chance(r, 0.15) {
			g["conditions"], _, _ = plant(r, tree, pick(r, defectKinds[:19]), 0, false)
		}
		switch r.Intn(12) { // loads, but cannot be prepared
		case 0:
			g["sender"] = M{"senderName": pick(r, badSubnets), "senderType": "subnet"}
		case 1:
			g["receiver"] = M{"receiverName": "#nope", "receiverType": "workload"}
		case 2:
			g["conditions"], _, _ = plant(r, tree, pick(r, []string{"reference", "empty group"}), 0, false)
		}
		var all interface{} = M{"rules": L{g}}
		for k := r.Intn(4); k > 0; k-- {
			if chance(r, 0.7) {
				g["conditions"] = mutate(r, g["conditions"])
			} else {
				all = mutate(r, all)
			}
		}
		text := rulesTextOf(all, r)
		if chance(r, 0.1) {
			text = oddKey(r, jsonText(all))
		}
		if chance(r, 0.2) {
			text = mutText(r, text)
		}
		d := D{"rules": fmt.Sprintf("%q", text)}
		t.Begin(text)
		var rules me.Rules
		var lerr error
		switch r.Intn(10) {
		case 0:
			f := filepath.Join(dir, "rules.yaml")
			os.WriteFile(f, []byte(text), 0644)
			t.Call("YamlReadRulesFromFile", d, func() { rules, lerr = me.YamlReadRulesFromFile(f) })
		case 1:
			t.Call("YamlReadRulesFromStringWithPredefinedStrings", d, func() {
				rules, lerr = me.YamlReadRulesFromStringWithPredefinedStrings(text, me.PredefinedStringsAndLists{})
			})
		case 2, 3:
			var rule me.Rule
			b := []byte(jsonText(mutate(r, interface{}(g))))
			if chance(r, 0.3) {
				b = []byte(mutText(r, string(b)))
			}
			d["rules"] = fmt.Sprintf("%q", b)
			t.Call("json.Unmarshal", d, func() { lerr = json.Unmarshal(b, &rule) })
			rules.Rules = []me.Rule{rule}
			if lerr == nil {
				t.Obs("json loaded")
			}
		case 4, 5:
			var rule me.Rule
			gm, _ := mutate(r, interface{}(g)).(M)
			b, berr := bson.Marshal(gm)
			if berr != nil || gm == nil {
				continue
			}
			damaged := chance(r, 0.2)
			if damaged {
				b = []byte(mutText(r, string(b)))
				if bson.Raw(b).Validate() != nil { // the BSON library itself does not accept this
					t.Obs("broken bson")
					continue
				}
			}
			d["rules"] = fmt.Sprintf("bson of %q", jsonText(gm))
			if damaged { // the BSON library panics on some such bytes before they reach the engine
				if p := try(func() { bson.Unmarshal(b, new(me.Rule)) }); p != nil && !fromEngine(p.stack) {
					t.Obs("broken bson")
					continue
				}
			}
			t.Call("bson.Unmarshal", d, func() { lerr = bson.Unmarshal(b, &rule) })
			rules.Rules = []me.Rule{rule}
			if lerr == nil {
				t.Obs("bson loaded")
			}
		default:
			rules, lerr = t.load(text, d)
		}
		if lerr != nil {
			t.Obs("rules rejected")
			t.Eval("")
			continue
		}
		t.Obs("rules loaded")
		var msgs []*me.MessageAttributes
		var md []D
		for k := 0; k < 3; k++ {
			a, b := t.hostileMsg(r, m)
			msgs = append(msgs, a)
			md = append(md, b)
		}
		for k := range rules.Rules {
			t.exercise(r, &rules.Rules[k], msgs, md, d)
		}
		if chance(r, 0.1) {
			t.Call("Coverage", d, func() {
				ms := me.Messages{}
				for _, m := range msgs {
					ms.Messages = append(ms.Messages, *m)
				}
				me.Coverage(&ms, &rules)
			})
		}
		t.Eval(text)
		t.Sample("rules", d)
	}
}

func (t *T) c15messages(r *rand.Rand, dir string) {
	l := L{}
	for k := 1 + r.Intn(3); k > 0; k-- {
		g, _ := genWantMsg(t, r, k)
		l = append(l, g)
	}
	var all interface{} = M{"messages": l}
	for k := r.Intn(3); k > 0; k-- {
		all = mutate(r, all)
	}
	if chance(r, 0.3) {
		key := pick(r, []string{"sender_labels", "receiver_labels"})
		l[0].(M)[key] = pick(r, []interface{}{"", "{", "}", "{}", "{a}", "{a:}", "{:a}", "{a:b,", "{a:b:c}", "{,}", "{a:b,a:c}", "x", "[]", "{\"a\":\"b\"}", "{a:{b:c}}", ":", ",", "{a:b}}", nil, 5, M{"a": "b"}})
	}
	text := rulesTextOf(all, r)
	if chance(r, 0.2) {
		text = mutText(r, text)
	}
	d := D{"messages": fmt.Sprintf("%q", text)}
	t.Begin(text)
	var msgs me.Messages
	var err error
	if chance(r, 0.2) {
		f := filepath.Join(dir, "messages.yaml")
		os.WriteFile(f, []byte(text), 0644)
		t.Call("YamlReadMessagesFromFile", d, func() { msgs, err = me.YamlReadMessagesFromFile(f) })
	} else {
		t.Call("YamlReadMessagesFromString", d, func() { msgs, err = me.YamlReadMessagesFromString(text) })
	}
	one := rulesTextOf(mutate(r, l[0]), r)
	t.Call("YamlReadMessageAttributes", D{"message": one}, func() { me.YamlReadMessageAttributes(one) })
	if err != nil {
		t.Obs("messages rejected")
		t.Eval("")
		return
	}
	t.Obs("messages loaded")
	m := &ref.Msg{}
	x := genRule(r, m, "r", attrLeaf(r, m))
	rt := rulesText([]*ref.Rule{x, plainRule(attrLeaf(r, m))}, nil)
	d["rules"] = rt
	rules := t.mustLoad(rt, d)
	for k := range msgs.Messages {
		t.Call("Check", d, func() { me.Check(&msgs.Messages[k], &rules) })
	}
	t.Call("Coverage", d, func() { me.Coverage(&msgs, &rules) })
	t.Eval(text)
}

func (t *T) c15definitions(r *rand.Rand, dir string) {
	strs, lists := M{}, M{}
	for k := r.Intn(3); k >= 0; k-- {
		strs[fmt.Sprintf("s%d", k)] = pick(r, []interface{}{"a", "^a", "[", "", 5, "#s0", "a,b"})
		lists[fmt.Sprintf("l%d", k)] = pick(r, []interface{}{L{"a", "b"}, L{"#s0"}, L{"#nope"}, L{}, L{"(", "b"}, L{"*"}, nil, "x", L{nil}, L{1, 2}, L{"#"}})
	}
	var all interface{} = M{"predefinedStrings": strs, "predefinedLists": lists, "predefined_strings": strs, "predefined_lists": lists}
	if chance(r, 0.4) {
		all = mutate(r, all)
	}
	text := rulesTextOf(all, r)
	if chance(r, 0.2) {
		text = mutText(r, text)
	}
	d := D{"definitions": fmt.Sprintf("%q", text)}
	t.Begin(text)
	var defs me.PredefinedStringsAndLists
	var err error
	if chance(r, 0.2) {
		f := filepath.Join(dir, "defs.yaml")
		os.WriteFile(f, []byte(text), 0644)
		t.Call("YamlReadStringListsFromFile", d, func() { defs, err = me.YamlReadStringListsFromFile(f) })
	} else {
		t.Call("YamlReadStringListsFromString", d, func() { defs, err = me.YamlReadStringListsFromString(text) })
	}
	if err != nil {
		t.Obs("definitions rejected")
		t.Eval("")
		return
	}
	t.Obs("definitions loaded")
	m := genBasicMsg(r)
	genMsgAttrs(r, m)
	m.Doc, m.HasDoc = genDoc(r), true
	tree := genTree(r, m, r.Intn(3), treeOpts{attrs: true})
	tree.Walk(func(n *ref.Node) {
		if n.Op == "LEAF" && chance(r, 0.6) {
			n.Value = pick(r, []interface{}{"#s0", "#l0", "#l1", "#nope", "#", "#s1"})
		}
	})
	x := plainRule(tree)
	if chance(r, 0.4) {
		x.SenderName, x.SenderType = pick(r, []string{"#l0", "#s0", "#x", "#"}), pick(r, []string{"subnet", "workload"})
	}
	if chance(r, 0.4) {
		x.ReceiverName, x.ReceiverType = pick(r, []string{"#l0", "#s0", "#x"}), pick(r, []string{"subnet", "hostname", "workload"})
	}
	rt := rulesText([]*ref.Rule{x}, nil)
	d["rules"] = rt
	rules, lerr := t.load(rt, d)
	if lerr != nil {
		return
	}
	rule := &rules.Rules[0]
	var perr error
	t.Call("SetPredefinedStringsAndLists", d, func() { perr = rule.SetPredefinedStringsAndLists(defs) })
	msg := buildMsg(m, pick(r, docForms), nil)
	dec := 0
	t.Call("rule.Check", d, func() { dec, _ = rule.Check(msg) })
	if perr != nil && dec > 0 {
		d["error"] = perr.Error()
		t.Fail("a rule which cannot be prepared applied to a message", d)
	}
	t.Call("ToMongoQuery", d, func() { rule.ToMongoQuery("raw") })
	t.Call("rule.String", d, func() { _ = rule.String() })
	t.Eval(text + rt)
}

// c15deep uses deeply nested conditions and documents
func (t *T) c15deep(r *rand.Rand) {
	depth := 50 + r.Intn(200)
	if chance(r, 0.2) {
		depth = 1500
	}
	cond := `{"attribute":"jsonpath:$.a","method":"EQ","value":"1"}`
	kind := r.Intn(4)
	var sb strings.Builder
	for i := 0; i < depth; i++ {
		switch kind {
		case 0:
			sb.WriteString(`{"NOT":`)
		case 1:
			sb.WriteString(`{"AND":[`)
		case 2:
			sb.WriteString(`{"ANY":{"parentJsonpathAttribute":"jsonpath:$RELATIVE.a[:]","condition":`)
			if i == 60 {
				depth = 61 // every level copies the text below it
			}
		default:
			sb.WriteString(`[`)
		}
	}
	sb.WriteString(cond)
	for i := 0; i < depth; i++ {
		sb.WriteString([]string{"}", "]}", "}}", "]"}[kind])
	}
	text := `{"rules":[{"sender":{"senderName":"*","senderType":"*"},"receiver":{"receiverName":"*","receiverType":"*"},"protocol":"*","resource":{"resourceName":"*","resourceType":"*"},"operation":"*","decision":"block","conditions":` + sb.String() + `}]}`
	d := D{"depth": depth, "kind": kind}
	t.Begin(fmt.Sprint("deep", kind, depth))
	rules, err := t.load(text, d)
	doc := strings.Repeat(`{"a":[`, depth) + "1" + strings.Repeat("]}", depth)
	b := []byte(doc)
	msg := &me.MessageAttributes{RequestJsonRaw: &b}
	if chance(r, 0.5) {
		var v interface{}
		if json.Unmarshal(b, &v) == nil {
			msg = &me.MessageAttributes{RequestRawInterface: &v}
		}
	}
	t.Obs("deep")
	if err != nil {
		t.Eval("")
	} else {
		t.exercise(r, &rules.Rules[0], []*me.MessageAttributes{msg}, []D{{}}, d)
		t.Eval(fmt.Sprint("deep", kind, depth))
	}
	flat := t.mustLoad(`{"rules":[{"sender":{"senderName":"*","senderType":"*"},"receiver":{"receiverName":"*","receiverType":"*"},"protocol":"*","resource":{"resourceName":"*","resourceType":"*"},"operation":"*","decision":"block","conditions":{"ANY":{"parentJsonpathAttribute":"jsonpath:$..a[:]","condition":{"attribute":"jsonpath:$RELATIVE.a","method":"EX","value":""}}}}]}`, d)
	t.Call("rule.Check", d, func() { flat.Rules[0].Check(msg) })
}
