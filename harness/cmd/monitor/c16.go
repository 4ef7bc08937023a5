package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"

	"verif/harness/ref"
)

func init() {
	need := map[string]int{"accepted": 4000, "duplicate key": 500, "systematic": 2000, "from file": 500, "as JSON": 1500, "among others": 1500, "inside ANY/ALL": 1000, "nested": 3000}
	for _, k := range defectKinds {
		need["rejected: "+k] = 100
	}
	checks["C16"] = &check{run: c16, rule: "systematic: every attribute x method x spelling with supported values; random: rules with trees of depth 0-4 which are valid by construction, and the same rules with one defect of every kind planted at a random place, read from text, file or JSON, alone or among valid rules; non-trivial: a rule with at least two nodes or a planted defect", minQuick: 8000, need: need}
}

var defectKinds = []string{"attribute", "method", "number", "number on text attribute", "encryption version method", "regular expression", "empty membership value", "path prefix", "key sub-path", "index", "label format", "parent", "inner", "not operands", "return value", "ungrouped list", "empty group", "node type", "condition fields", "subnet", "reference"}

func jsonpathAttr(r *rand.Rand) string {
	return "jsonpath:" + pick(r, []string{"$.a", "$.a.b", ".a", "$.a[0].b", `$.a["b"]`, "$.a['b/c']", "$RELATIVE.a", "$VALUE", "$KEY", "$RELATIVE", "$VALUE.a", "$.a[10]"})
}

func textAttrName(r *rand.Rand) string {
	return pick(r, []string{"requestUseragent", "encryptionType", "domain", "$sender.namespace", "$sender.cluster", "$receiver.namespace", "$receiver.cluster", "senderLabel[app]", "receiverLabel[app]"})
}

func numAttrName(r *rand.Rand) string {
	return pick(r, []string{"payloadSize", "utcHoursFromMidnight", "encryptionVersion"})
}

var knownMethods = map[string]bool{"EQ": true, "NEQ": true, "NE": true, "GT": true, "GE": true, "LT": true, "LE": true, "RE": true, "NRE": true, "IN": true, "NIN": true, "EX": true, "NEX": true, "IS": true}

// badMethod makes a word which is not a method
func badMethod(r *rand.Rand, pool []string) string {
	for {
		var s string
		switch r.Intn(4) {
		case 0:
			return pick(r, pool)
		case 1:
			s = pick(r, []string{"HAS", "CONTAINS", "STARTSWITH", "ENDSWITH", "PREFIX", "SUFFIX", "BETWEEN", "MATCH", "MATCHES", "LIKE", "ILIKE", "NOTIN", "NOT IN", "NIS", "ISNOT", "IS NOT", "ANY", "ALL", "NGT", "NGE", "NLE", "EQUALS", "EQUAL", "SIZE", "LEN", "EMPTY", "NULL", "TRUE", "AND", "OR", "GREATER", "LESS", "MIN", "MAX", "SUBSET", "CIDR", "IP", "GLOB", "WILDCARD", "WithWildcards", "HASNOT", "NHAS", "NEXT", "ISIN", "<", ">", "<=", ">=", "<>", "~", "=~"})
		case 2:
			s = nearName(r, sortedKeys(knownMethods)[r.Intn(len(knownMethods))])
		default:
			for n := 1 + r.Intn(6); n > 0; n-- {
				s += string(rune('A' + r.Intn(26)))
			}
		}
		if chance(r, 0.3) {
			s = strings.ToLower(s)
		}
		if !knownMethods[strings.ToUpper(s)] {
			return s
		}
	}
}

var nonNumbers = []string{"abc", "", "1x", "1 K", "K", "1KK", "1.2.3", "--1", "1,5", "ten", "0x", "1Kb", "e3", "%", "5 %", "1mm", "nan", "inf", "-inf", "+Inf", "-Infinity", "-", "."}
var badRegexes = []string{"[", "(", "a{2,1}", "*a", "?", "(?P<", "\\", "a)", "[z-a]", "(?<!a)b", "a**", "x{1001}", "(a", "[[:foo:]]", "a\\"}
var badSubnets = []string{"10.0.0.256", "10.0.0.0/33", "x", "10.0.0.1/", "/8", "10.0.0.0/-1", "1.2.3.4.5", "2001:db8::/129", "10.0.0/24", "10.0.0.0/8/8", "10.0.0.*", "2001:::1", "host.example", "10.0.0.0/x", "10.0.0.1-10.0.0.9"}

// leafDefect makes a defective condition
func leafDefect(r *rand.Rand, kind string) M {
	numM := func() string { return caseOf(r, pick(r, []string{"GT", "GE", "LT", "LE"})) }
	anyM := func() (string, interface{}) {
		m := pick(r, docMethods)
		switch m {
		case "GT", "GE", "LT", "LE":
			return caseOf(r, m), pick(r, []interface{}{"1", 5, "1Ki"})
		}
		return caseOf(r, m), pick(r, []interface{}{"a", "a,b", 1})
	}
	m, v := anyM()
	switch kind {
	case "attribute":
		a := pick(r, []string{"payloadsize", "PayloadSize", "foo", "", "senderlabel[a]", "jsonpath", "$send.namespace", "sender.namespace", "Domain", "receiverLabels[a]", "true1", "xtrue", "$receiverx.namespace", "label[a]", "request_size", "jsonpath$.a", "JSONPATH:$.a", "json path:$.a", "$.a", "$RELATIVE.a", "utcHours", " domain", "domain ", "xjsonpath:$.a", "xsenderLabel[a]", "xreceiverLabel[a]", "x$sender.namespace", " $receiver.cluster", "x.jsonpath:.a", "a$sender.cluster", "$sender.", "$sender.foo", "$receiver.Namespace", "$sender.namespace.x", "$receiver.clusters", "domain.x", "xdomain", "payloadSizes", "true ", "True"})
		return M{"attribute": a, "method": m, "value": v}
	case "method":
		a := pick(r, []string{jsonpathAttr(r), textAttrName(r), "payloadSize", "true"})
		return M{"attribute": a, "method": badMethod(r, []string{"EQQ", "==", "", "like", "GTE", "LTE", "REGEX", "=", "NLT", "NOT", "E", "EQ ", " EQ", "contains", "INN", "NINN", "XIN", "NRE|RE", "EXISTS", "eqq", "!="}), "value": v}
	case "number":
		a := pick(r, []string{jsonpathAttr(r), numAttrName(r), "true", "FALSE"})
		return M{"attribute": a, "method": numM(), "value": pick(r, nonNumbers)}
	case "number on text attribute":
		a := pick(r, []string{"senderLabel[app]", "receiverLabel[a.b/c]", "$sender.namespace", "$receiver.cluster", "$sender.cluster", "$receiver.namespace", "senderLabel[x]", "receiverLabel[y]"})
		return M{"attribute": a, "method": numM(), "value": pick(r, []interface{}{"1", 5, "0.5", "1Ki"})}
	case "encryption version method":
		return M{"attribute": "encryptionVersion", "method": caseOf(r, pick(r, []string{"NEQ", "NE", "RE", "NRE", "IN", "NIN", "EX", "NEX"})), "value": pick(r, []interface{}{"1", 1.2, "1.3"})}
	case "regular expression":
		return M{"attribute": pick(r, []string{jsonpathAttr(r), textAttrName(r)}), "method": caseOf(r, pick(r, []string{"RE", "NRE"})), "value": pick(r, badRegexes)}
	case "empty membership value":
		return M{"attribute": pick(r, []string{jsonpathAttr(r), textAttrName(r)}), "method": caseOf(r, pick(r, []string{"IN", "NIN"})), "value": ""}
	case "path prefix":
		return M{"attribute": "jsonpath:" + pick(r, []string{"a.b", "$a", "$$", "$RELATIVEx", "", "$", `$["a"]`, "RELATIVE.a", " $.a", "a", "/a/b", "@.a", "*", "$relative.a", "$PARENT.a"}), "method": m, "value": v}
	case "key sub-path":
		return M{"attribute": "jsonpath:$KEY." + pick(r, []string{"a", "b.c", "length"}), "method": m, "value": v}
	case "index":
		ix := pick(r, []string{"[:]", "[*]", "[-1]", "[x]", "[1.5]", "[]", "[1:2]", "[:1]", "[1:]", "[0,1]", "[-10]", "[ 1]", "[?(@.a==1)]", "[1e1]", "[a b]", "[+1]", `["a]`, `[a"]`, "['a]", `["a']`, "[--1]", "[0x1]", "[1 ]"})
		return M{"attribute": "jsonpath:" + pick(r, []string{"$.a" + ix, "$.a" + ix + ".b", "$.a[0].b" + ix, "$RELATIVE.a" + ix, ".a" + ix, "$.a" + ix + "[0]", "$VALUE.a" + ix, "$.a[\"b\"]" + ix + ".c", "$.a['b']" + ix, "$.a['b/c'].d" + ix, "$RELATIVE['b']" + ix, "$.a[0]['b']" + ix + "['c']", "$RELATIVE.a" + ix + ".b.c"}), "method": m, "value": v}
	case "label format":
		who := pick(r, []string{"senderLabel[", "receiverLabel["})
		tm, tv := caseOf(r, pick(r, []string{"EQ", "NEQ", "RE", "EX"})), "a"
		if chance(r, 0.3) {
			return M{"attribute": "senderLabel[app]", "method": caseOf(r, pick(r, []string{"EQ", "NEQ"})), "value": "receiverLabel[" + pick(r, []string{"app", "app]x", "app].y", ""})}
		}
		return M{"attribute": who + pick(r, []string{"app", "app]x", "app].y", "", "app]]"}), "method": tm, "value": tv}
	case "condition fields":
		a := pick(r, []string{jsonpathAttr(r), "domain"})
		switch r.Intn(5) {
		case 0:
			return M{"attribute": a, "value": "a"}
		case 1:
			return M{"method": "EQ", "value": "a"}
		case 2:
			return M{"attribute": a, "method": "EQ", "value": "a", pick(r, []string{"extra", "AND", "comment", "values", "not"}): "x"}
		case 3:
			return M{"attribute": a, "method": "EQ", "val": "a"}
		default:
			return M{"value": "a"}
		}
	case "reference":
		return M{"attribute": pick(r, []string{jsonpathAttr(r), textAttrName(r)}), "method": caseOf(r, pick(r, []string{"EQ", "NEQ", "NE", "RE", "NRE", "IN", "NIN"})), "value": "#" + pick(r, []string{"x", "list", "", "a b", "#x"})}
	}
	panic(kind)
}

func okLeaf(r *rand.Rand) M {
	return treeGeneric(attrLeaf(r, &ref.Msg{}), nil)
}

func okLeafIn(r *rand.Rand, inElem bool) M {
	if inElem && chance(r, 0.5) {
		return M{"attribute": "jsonpath:$RELATIVE.a", "method": "EQ", "value": "a"}
	}
	return okLeaf(r)
}

// nodeDefect makes a defective node which is not a single condition; g is the (valid) node at the place
func nodeDefect(r *rand.Rand, kind string, g M, inElem bool) interface{} {
	leaf := okLeafIn(r, inElem)
	q := pick(r, []string{"ANY", "ALL"})
	par := "jsonpath:$.items[:]"
	if inElem {
		par = "jsonpath:$RELATIVE.list[:]"
	}
	inner := M{"attribute": "jsonpath:$RELATIVE.a", "method": "EQ", "value": "a"}
	switch kind {
	case "parent":
		body := M{"condition": inner}
		switch r.Intn(4) {
		case 0:
		case 1:
			body["returnValueJsonpath"] = M{"p": "jsonpath:$RELATIVE.a"}
		default:
			body["parentJsonpathAttribute"] = pick(r, []interface{}{"jsonpath:a[:]", "$.a[:]", "jsonpath:$a", "", 5, nil, "jsonpath:", "jsonpath:RELATIVE.a[:]", "a", L{"jsonpath:$.a[:]"}, true, "jsonpath:$KEY", "jsonpath: $.a[:]", "jsonpath:$", "xjsonpath:$.a[:]", "xjsonpath:.a[:]", " jsonpath:$.a[:]", "jsonpath:jsonpath:$.a[:]", "a,jsonpath:$.a[:]", "jsonpath:x$RELATIVE.a[:]", "jsonpath:x.a[:]"})
			if chance(r, 0.3) {
				body["returnValueJsonpath"] = M{"p": "jsonpath:$RELATIVE.a"}
			}
		}
		return M{q: body}
	case "inner":
		body := M{"parentJsonpathAttribute": par}
		if chance(r, 0.3) {
			body["returnValueJsonpath"] = M{"p": "jsonpath:$RELATIVE.a"}
		}
		switch r.Intn(10) {
		case 8:
			body["condition"], body[pick(r, []string{"comment", "extra", "value", "attribute", "returnValue", "XOR"})] = inner, "x"
		case 9:
			body["AND"], body["OR"] = L{inner, leaf}, L{inner, leaf}
		case 0:
		case 1:
			body["condition"], body["AND"] = inner, L{inner, leaf}
		case 2:
			body["condition"] = nil
		case 3:
			body["condition"] = M{}
		case 4:
			body["OR"], body["NOT"] = L{inner, inner}, inner
		case 5:
			body["condition"] = "x"
		case 6:
			body["condition"], body["conditionsTree"] = inner, inner
		default:
			return M{q: pick(r, []interface{}{nil, "x", L{}, M{}, 5, L{body}, L{inner}, inner, L{L{}}})}
		}
		return M{q: body}
	case "not operands":
		return M{"NOT": pick(r, []interface{}{L{}, L{leaf, leaf}, nil, M{}, M{"condition": leaf, "AND": L{leaf}}, "x", L{leaf, g}, L{g, leaf, leaf}, M{"AND": L{leaf}, "OR": L{leaf}}, 1})}
	case "return value":
		bad := pick(r, []interface{}{"jsonpath:$.a", "$RELATIVE.a", 5, "", "RELATIVE.a", "jsonpath:RELATIVE.a", "a", nil, L{"jsonpath:$RELATIVE.a"}, M{"a": "b"}, "jsonpath:.a", true, "jsonpath:$ROOT.a", "jsonpath:$R.a", "jsonpath:$RELATIV.a", "jsonpath:$relative.a", "xjsonpath:$RELATIVE.a", " jsonpath:$RELATIVE.a", "jsonpath: $RELATIVE.a", "jsonpath:$a", "jsonpath:$"})
		rv := M{"p": bad}
		if chance(r, 0.4) {
			rv["q"] = "jsonpath:$RELATIVE.b"
			rv["a"] = "jsonpath:$RELATIVE*"
		}
		body := M{"parentJsonpathAttribute": par, "condition": inner, "returnValueJsonpath": rv}
		if chance(r, 0.15) {
			body["returnValueJsonpath"] = pick(r, []interface{}{"jsonpath:$RELATIVE.a", L{"jsonpath:$RELATIVE.a"}, 5})
		}
		return M{q: body}
	case "ungrouped list":
		l := pick(r, []L{{leaf, leaf}, {leaf, g}, {g, g}, {g, leaf, leaf}})
		if chance(r, 0.3) {
			return M{pick(r, []string{"condition", "conditionsTree"}): l}
		}
		return l
	case "empty group":
		return M{pick(r, []string{"AND", "OR"}): L{}}
	case "node type":
		return M{pick(r, []string{"XOR", "and", "or", "not", "any", "all", "NAND", "And", "IF", "NONE", "AND ", "Conditions", "foo", "LIST"}): pick(r, []interface{}{L{leaf, leaf}, L{leaf}, leaf, M{"AND": L{leaf}}})}
	}
	panic(kind)
}

// plant replaces a random node of a conditions section by a defective one; it reports the depth and whether the place is inside ANY/ALL
func plant(r *rand.Rand, n *ref.Node, kind string, depth int, inElem bool) (g interface{}, at int, in bool) {
	here := len(n.Kids) == 0 || chance(r, 0.25)
	if here {
		switch kind {
		case "parent", "inner", "not operands", "return value", "ungrouped list", "empty group", "node type":
			return nodeDefect(r, kind, treeGeneric(n, nil), inElem), depth, inElem
		}
		return leafDefect(r, kind), depth, inElem
	}
	k := r.Intn(len(n.Kids))
	if len(n.Kids) > 16 && chance(r, 0.5) {
		k = len(n.Kids) - 1
	}
	sub, at, in := plant(r, n.Kids[k], kind, depth+1, inElem || n.Op == "ANY" || n.Op == "ALL")
	switch n.Op {
	case "AND", "OR":
		l := L{}
		for i, kid := range n.Kids {
			if i == k {
				l = append(l, sub)
			} else {
				l = append(l, treeGeneric(kid, nil))
			}
		}
		return M{n.Op: l}, at, in
	case "NOT":
		if _, isList := sub.(L); isList || chance(r, 0.3) {
			return M{"NOT": L{sub}}, at, in
		}
		return M{"NOT": sub}, at, in
	default:
		body := M{"parentJsonpathAttribute": parentText(n.Parent, nil)}
		if n.Ret != nil {
			body["returnValueJsonpath"] = retGeneric(n.Ret, nil)
		}
		key := pick(r, []string{"condition", "conditionsTree"})
		if m, ok := sub.(M); ok && len(m) == 1 && m["attribute"] == nil {
			for kk, vv := range m {
				if kk == "AND" || kk == "OR" || kk == "NOT" || kk == "ANY" || kk == "ALL" {
					body[kk] = vv
					return M{n.Op: body}, at, in
				}
			}
		}
		body[key] = sub
		return M{n.Op: body}, at, in
	}
}

// verdict loads rules and validates each of them; the error is "" when everything was accepted
func (t *T) verdict(how, text string, g []M, dir string, d D) (loadErr string, ruleErrs []string) {
	var rules me.Rules
	var err error
	switch how {
	case "file":
		f := filepath.Join(dir, "rules.yaml")
		if e := os.WriteFile(f, []byte(text), 0644); e != nil {
			panic(e)
		}
		t.Call("YamlReadRulesFromFile", d, func() { rules, err = me.YamlReadRulesFromFile(f) })
	case "json":
		for _, x := range g {
			var rule me.Rule
			b := []byte(jsonText(x))
			t.Call("json.Unmarshal", d, func() { err = json.Unmarshal(b, &rule) })
			if err != nil {
				break
			}
			rules.Rules = append(rules.Rules, rule)
		}
	default:
		rules, err = t.load(text, d)
	}
	if err != nil {
		return "load: " + err.Error(), nil
	}
	for i := range rules.Rules {
		rule := &rules.Rules[i]
		before, bh := rule.String(), me.RuleMD5Hash(*rule)
		var first string
		for k := 0; k < 3; k++ {
			var e error
			t.Call("ValidateRule", d, func() { e = me.ValidateRule(rule) })
			s := ""
			if e != nil {
				s = "validation: " + e.Error()
			}
			if k > 0 && (s == "") != (first == "") {
				d["first"], d["later"] = first, s
				t.Fail("validation gave different verdicts for one rule", d)
			}
			first = s
		}
		if rule.String() != before || me.RuleMD5Hash(*rule) != bh {
			d["expected"], d["got"] = before, rule.String()
			t.Fail("validation changed the rule", d)
		}
		ruleErrs = append(ruleErrs, first)
	}
	return "", ruleErrs
}

func c16(t *T) {
	r := t.R
	dir, err := os.MkdirTemp("", "c16")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	t.c16systematic(dir)
	opts := treeOpts{ret: true, attrs: true, absInside: true, deep: true, multi: true, mapOrder: true, star: true}
	n := t.N(24000, 400000)
	for i := 0; i < n; i++ {
		m := genBasicMsg(r)
		genMsgAttrs(r, m)
		m.Doc, m.HasDoc = genDoc(r), true
		tree := genTree(r, m, r.Intn(5), opts)
		if chance(r, 0.005) {
			tree = widen(r, tree, 1025)
			t.Obs("big")
		}
		x := genRule(r, m, "r", tree)
		how := pick(r, []string{"text", "text", "text", "file", "json"})
		nodes := 0
		tree.Walk(func(*ref.Node) { nodes++ })
		if chance(r, 0.4) { // valid
			if chance(r, 0.05) {
				x.Cond = nil
			}
			g := []M{ruleGeneric(x, r)}
			text := rulesTextOf(M{"rules": L{g[0]}}, r)
			d := D{"rules": text, "read as": how}
			t.Begin(text)
			le, re := t.verdict(how, text, g, dir, d)
			if le != "" || re[0] != "" {
				d["error"] = le + strings.Join(re, "")
				t.Fail("a rule of the supported language was rejected", d)
			}
			t.Obs("accepted")
			key := ""
			if nodes > 1 {
				key = text
			}
			t.Eval(key)
			t.Sample("valid", d)
			if chance(r, 0.3) {
				t.dupKey(r, M{"rules": L{g[0]}}, dir)
			}
			continue
		}
		kind := pick(r, defectKinds)
		bad := ruleGeneric(x, nil)
		at, in := 0, false
		if kind == "subnet" {
			side := pick(r, []string{"sender", "receiver"})
			names := []string{}
			for k := r.Intn(3); k > 0; k-- {
				names = append(names, genSubnet(r, m.SenderIP))
			}
			p := r.Intn(len(names) + 1)
			names = append(names[:p], append([]string{pick(r, badSubnets)}, names[p:]...)...)
			bad[side] = M{side + "Name": strings.Join(names, ","), side + "Type": "subnet"}
		} else {
			bad["conditions"], at, in = plant(r, tree, kind, 0, false)
		}
		g := []M{bad}
		pos := 0
		if chance(r, 0.3) {
			for k := 1 + r.Intn(3); k > 0; k-- {
				ok := ruleGeneric(genRule(r, m, fmt.Sprintf("ok%d", k), genTree(r, m, r.Intn(3), opts)), nil)
				if chance(r, 0.5) {
					g = append(g, ok)
				} else {
					g = append([]M{ok}, g...)
					pos++
				}
			}
			t.Obs("among others")
		}
		l := L{}
		for _, y := range g {
			l = append(l, y)
		}
		text := rulesTextOf(M{"rules": l}, r)
		d := D{"rules": text, "read as": how, "defect": kind, "position": pos}
		t.Begin(text)
		for k := 0; k < 2; k++ {
			le, re := t.verdict(how, text, g, dir, d)
			if le != "" {
				continue
			}
			if re[pos] == "" {
				t.Fail("a rule with a defect was accepted by loading and by validation", d)
			}
			for j, e := range re {
				if j != pos && e != "" {
					d["error"] = e
					t.Fail("a rule of the supported language was rejected", d)
				}
			}
			t.Obs("rejected by validation")
		}
		switch how {
		case "file":
			t.Obs("from file")
		case "json":
			t.Obs("as JSON")
		}
		if in {
			t.Obs("inside ANY/ALL")
		}
		if at > 0 {
			t.Obs("nested")
		}
		t.Obs("rejected: " + kind)
		t.Eval(text)
		t.Sample(kind, d)
	}
}

// dupKey writes a valid rules file with one key given twice; the file loaders must reject it
func (t *T) dupKey(r *rand.Rand, g M, dir string) {
	var maps []M
	var collect func(v interface{})
	collect = func(v interface{}) {
		switch x := v.(type) {
		case M:
			if len(x) > 0 {
				maps = append(maps, x)
			}
			for _, k := range sortedKeys(x) {
				collect(x[k])
			}
		case L:
			for _, e := range x {
				collect(e)
			}
		}
	}
	collect(g)
	at := r.Intn(len(maps))
	k := pick(r, sortedKeys(maps[at]))
	idx := -1
	var sb strings.Builder
	var write func(v interface{})
	write = func(v interface{}) {
		switch x := v.(type) {
		case M:
			mine := false
			if len(x) > 0 {
				idx++
				mine = idx == at
			}
			sb.WriteByte('{')
			for i, key := range sortedKeys(x) {
				if i > 0 {
					sb.WriteString(", ")
				}
				sb.WriteString(jsonText(key) + ": ")
				write(x[key])
			}
			if mine {
				sb.WriteString(", " + jsonText(k) + ": ")
				sb.WriteString(jsonText(x[k]))
			}
			sb.WriteByte('}')
		case L:
			sb.WriteByte('[')
			for i, e := range x {
				if i > 0 {
					sb.WriteString(", ")
				}
				write(e)
			}
			sb.WriteByte(']')
		default:
			sb.WriteString(jsonText(v))
		}
	}
	write(g)
	text := sb.String()
	f := filepath.Join(dir, "dup.yaml")
	if err := os.WriteFile(f, []byte(text), 0644); err != nil {
		panic(err)
	}
	d := D{"rules": text, "key": k}
	t.Begin(text)
	var e1, e2 error
	t.Call("YamlReadRulesFromFile", d, func() { _, e1 = me.YamlReadRulesFromFile(f) })
	t.Call("YamlReadRulesFromFileWithPredefinedStrings", d, func() {
		_, e2 = me.YamlReadRulesFromFileWithPredefinedStrings(f, me.PredefinedStringsAndLists{})
	})
	if e1 == nil || e2 == nil {
		t.Fail("a rules file with a duplicate key was accepted", d)
	}
	t.Obs("duplicate key")
	t.Eval(text)
	t.Sample("duplicate key", d)
}

// c16systematic accepts every supported attribute/method/value combination
func (t *T) c16systematic(dir string) {
	i := 0
	one := func(c M) {
		i++
		if !t.Mine(i) {
			return
		}
		for _, where := range []int{0, 1, 2, 3} {
			var cond interface{} = c
			inElem := strings.Contains(c["attribute"].(string), "$RELATIVE") || strings.Contains(c["attribute"].(string), "$KEY") || strings.Contains(c["attribute"].(string), "$VALUE")
			if inElem {
				cond = M{"ANY": M{"parentJsonpathAttribute": "jsonpath:$.items[:]", "condition": c}}
			}
			switch where {
			case 1:
				cond = M{"AND": L{cond, cond}}
			case 2:
				cond = M{"NOT": M{"OR": L{cond}}}
			case 3:
				if !inElem {
					continue
				}
				cond = M{"ALL": M{"parentJsonpathAttribute": "jsonpath:$.items[:]", "OR": L{c, c}}}
			}
			x := plainRule(nil)
			g := ruleGeneric(x, nil)
			g["conditions"] = cond
			text := jsonText(M{"rules": L{g}})
			d := D{"rules": text}
			t.Begin(text)
			le, re := t.verdict([]string{"text", "json"}[where%2], text, []M{g}, dir, d)
			if le != "" || re[0] != "" {
				d["error"] = le + strings.Join(re, "")
				t.Fail("a rule of the supported language was rejected", d)
			}
			t.Obs("systematic")
			t.Eval(text)
		}
	}
	both := func(ms []string, f func(string)) {
		for _, m := range ms {
			f(m)
			f(strings.ToLower(m))
		}
	}
	for _, a := range []string{"payloadSize", "utcHoursFromMidnight"} {
		both(numAttrMethods, func(m string) {
			for _, v := range []interface{}{0, 1, -1, 12, "5", "0.5", 1.5, "1Ki", "500m", "10%", "1e3"} {
				one(M{"attribute": a, "method": m, "value": v})
			}
		})
	}
	both(encVersionMethods, func(m string) {
		for _, v := range []interface{}{1, 1.2, "1.3", "0.5"} {
			one(M{"attribute": "encryptionVersion", "method": m, "value": v})
		}
	})
	for _, a := range []string{"requestUseragent", "encryptionType", "domain", "$sender.namespace", "$sender.cluster", "$receiver.namespace", "$receiver.cluster", "senderLabel[app]", "receiverLabel[app]", "senderLabel[a.b/c-d_e]", "receiverLabel[x]"} {
		both(textAttrMethods, func(m string) {
			for _, v := range []interface{}{"a", "a*b", "?", "a,b", "[a,b]", 5, true, "a.b-c/d"} {
				if s, ok := v.(string); ok && (s == "?" || s == "a*b") && (strings.EqualFold(m, "re") || strings.EqualFold(m, "nre") || strings.Contains(strings.ToLower(m), "in")) {
					continue
				}
				one(M{"attribute": a, "method": m, "value": v})
			}
		})
	}
	for _, a := range []string{"senderLabel[app]", "$sender.namespace"} {
		both([]string{"EQ", "NEQ", "NE"}, func(m string) {
			v := "$receiver.namespace"
			if strings.HasPrefix(a, "senderLabel") {
				v = "receiverLabel[app]"
			}
			one(M{"attribute": a, "method": m, "value": v})
		})
	}
	for _, a := range []string{"$.a", "$.a.b.c", ".a", "$.a[0]", "$.a[12].b", `$.a["b"]`, "$.a['b']", `$.a["b.c/d"].e`, `$.a.["b"]`, "$RELATIVE.a", "$RELATIVE", "$RELATIVE.a[0]", `$RELATIVE.a["b"]`, "$KEY", "$VALUE", "$VALUE.a"} {
		both(docMethods, func(m string) {
			vs := []interface{}{"a", 1, true, "a b", "5"}
			switch m {
			case "GT", "GE", "LT", "LE", "gt", "ge", "lt", "le":
				vs = []interface{}{1, "5", "1Ki", "0.5", "100m", "5%", "1e6", -3, 2.5, "1024Mi"}
			case "RE", "NRE", "re", "nre":
				vs = []interface{}{"a", "^a.*b$", "[a-z]+", "(a|b)", "\\d", "(?i)x", ""}
			case "IN", "NIN", "in", "nin":
				vs = []interface{}{"a", "a,b", "[a,b]", 5, "a.b", "1,2,3"}
			case "EX", "NEX", "ex", "nex":
				vs = []interface{}{"", "a", 1}
			default:
				vs = append(vs, "", "a\"b", "[", "(", "\\", "é", "*", 1.5, -1)
			}
			for _, v := range vs {
				one(M{"attribute": "jsonpath:" + a, "method": m, "value": v})
			}
		})
	}
	for _, a := range []string{"true", "TRUE", "false", "FALSE"} {
		one(M{"attribute": a, "method": "EQ", "value": "1"})
		one(M{"attribute": a, "method": "eq", "value": true})
	}
}
