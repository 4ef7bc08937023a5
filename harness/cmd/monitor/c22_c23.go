//go:build !only || c22 || c23

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"

	"verif/harness/ref"
)

func init() {
	checks["C22"] = &check{run: c22, rule: "random lists of rules (0-6, some of hundreds), messages, definitions and bytes written to files with assorted names, layouts and line endings, whole or cut; file loaders compared with text loaders and with the written rules; non-trivial: at least two rules, messages or definitions, or 5000 bytes", minQuick: 3000,
		need: map[string]int{"rules": 1000, "rules with definitions": 500, "rejected rules": 200, "messages": 500, "rejected messages": 100, "definitions": 500, "rejected definitions": 100, "bytes": 200, "no file": 200, "large file": 60, "cut text": 200, "single message": 300}}
	checks["C23"] = &check{run: c23, rule: "random rules with any of the fields absent and trees of depth 0-4, described before and after preparation, use and storage, and lower-cased; non-trivial: a rule with conditions or an absent field", minQuick: 4000,
		need: map[string]int{"absent": 3000, "conditions": 2000, "no conditions": 500, "upper case": 3000, "prepared": 1000, "used": 1000, "prepared in place": 1000, "printed": 800}}
}

var fileNames = []string{"a.yaml", "rules", "with space.yml", "x.y.z", "UPPER.YAML", "é.yaml", "-dash", "a#b.yaml", "1", ".hidden", "a.json"}

// putFile writes a file below dir under an assorted name
func putFile(r *rand.Rand, dir string, text []byte) string {
	sub := dir
	if chance(r, 0.3) {
		sub = filepath.Join(dir, pick(r, []string{"sub", "a b", "x.d"}))
		if err := os.MkdirAll(sub, 0755); err != nil {
			panic(err)
		}
	}
	f := filepath.Join(sub, pick(r, fileNames))
	if err := os.WriteFile(f, text, 0644); err != nil {
		panic(err)
	}
	return f
}

// sameRules compares loaded rules including their stored form
func sameRules(a, b me.Rules) string {
	if len(a.Rules) != len(b.Rules) {
		return fmt.Sprintf("%d rules and %d rules", len(a.Rules), len(b.Rules))
	}
	for i := range a.Rules {
		x, y := &a.Rules[i], &b.Rules[i]
		if !reflect.DeepEqual(viewOf(x), viewOf(y)) || me.RuleMD5Hash(*x) != me.RuleMD5Hash(*y) || x.String() != y.String() {
			return fmt.Sprintf("rule %d: %v and %v", i, x.String(), y.String())
		}
		jx, e1 := json.Marshal(x)
		jy, e2 := json.Marshal(y)
		if (e1 == nil) != (e2 == nil) || !sameJSON(jx, jy) {
			return fmt.Sprintf("rule %d: stored %s and %s", i, jx, jy)
		}
	}
	return ""
}

func sameJSON(a, b []byte) bool {
	var x, y interface{}
	e1, e2 := json.Unmarshal(a, &x), json.Unmarshal(b, &y)
	return (e1 == nil) == (e2 == nil) && reflect.DeepEqual(x, y)
}

func c22(t *T) {
	r := t.R
	dir, err := os.MkdirTemp("", "c22")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for i := t.N(9000, 120000); i > 0; i-- {
		switch k := r.Intn(20); {
		case k < 11:
			t.fileRules(dir)
		case k < 14:
			t.fileMessages(dir)
		case k < 17:
			t.fileDefinitions(dir)
		case k < 18:
			t.fileBytes(dir)
		case k < 19:
			t.singleMessage()
		default:
			t.noFile(dir)
		}
	}
}

// layout changes the text of a file without changing its meaning
func layout(r *rand.Rand, text string) string {
	switch r.Intn(8) {
	case 0:
		text = "# a comment: with a colon\n" + text
	case 1:
		text = text + "\n# the end"
	case 2:
		text = "---\n" + text
	case 3:
		text = strings.TrimRight(text, "\n")
	case 4:
		text = text + "\n\n\n"
	case 5:
		if !strings.Contains(text, "|") && !strings.Contains(text, ">") && !strings.Contains(text, "'") && !strings.Contains(text, "\"") {
			text = strings.Replace(text, "\n", "\r\n", -1)
		}
	case 6:
		if !strings.Contains(text, `\\`) {
			text = strings.Replace(text, `\t`, "\t", -1) // a plain tab within quotes
		}
	}
	return text
}

func (t *T) fileRules(dir string) {
	r := t.R
	m := genBasicMsg(r)
	genMsgAttrs(r, m)
	m.Doc, m.HasDoc = genDoc(r), true
	k := r.Intn(7)
	if chance(r, 0.02) {
		k = 100 + r.Intn(300)
	}
	withDefs := chance(r, 0.5)
	ds := newDefs()
	undefined := false
	var xs []*ref.Rule
	l := L{}
	for j := 0; j < k; j++ {
		var cond *ref.Node
		if chance(r, 0.7) {
			cond = genTree(r, m, r.Intn(3), treeOpts{ret: true, attrs: true, absInside: true, deep: true, multi: true, mapOrder: true, star: true})
		}
		x := genRule(r, m, fmt.Sprintf("r%d", j), cond)
		if chance(r, 0.3) {
			x.Meta = map[string]string{pick(r, []string{"k", "name"}): pick(r, []string{"v", "", "a b", "é", "tab\there", "cr\rhere", "two  spaces", " lead", "trail ", "line\nbreak", "# x", "a\\b", "$HOME ${x} %s"})}
		}
		if withDefs && chance(r, 0.3) && x.SenderType != "subnet" {
			name := fmt.Sprintf("%s%d", pick(r, refNames), j)
			x.SenderName = "#" + name
			if k < 100 && chance(r, 0.15) {
				undefined = true
			} else {
				ds.define(r, t, name, pick(r, []string{"svc1", "*", "a.b,svc2", m.SenderName}), chance(r, 0.5), ",")
			}
		}
		xs = append(xs, x)
		l = append(l, ruleGeneric(x, r))
	}
	text := layout(r, rulesTextOf(M{"rules": l}, r))
	cut := chance(r, 0.08) && len(text) > 3
	if cut {
		text = text[:1+r.Intn(len(text)-1)]
		t.Obs("cut text")
	}
	f := putFile(r, dir, []byte(text))
	d := D{"rules": text, "file": strings.TrimPrefix(f, dir)}
	t.Begin(text)
	var a, b me.Rules
	var ea, eb error
	t.Call("YamlReadRulesFromFile", d, func() { a, ea = me.YamlReadRulesFromFile(f) })
	t.Call("YamlReadRulesFromString", d, func() { b, eb = me.YamlReadRulesFromString(text) })
	t.sameLoad("rules", ea, eb, len(a.Rules), d)
	if ea == nil {
		if what := sameRules(a, b); what != "" {
			d["differ"] = what
			t.Fail("rules read from a file differ from those of its text", d)
		}
	}
	if !cut {
		if ea != nil {
			d["error"] = ea.Error()
			t.Fail("valid rules were rejected", d)
		}
		if len(a.Rules) != k {
			d["expected"], d["got"] = k, len(a.Rules)
			t.Fail("number of rules", d)
		}
		for j, x := range xs {
			want := ruleView{x.ID, x.SenderName, x.SenderType, x.ReceiverName, x.ReceiverType, x.Protocol, x.ResType, x.ResName, x.Operation, x.Decision, "", x.Meta}
			if got := viewOf(&a.Rules[j]); !reflect.DeepEqual(got, want) {
				d["expected"], d["got"] = want, got
				t.Fail("a field of a rule changed", d)
			}
		}
	}
	t.Obs("rules")
	if withDefs {
		p, err := t.loadDefs(ds, d)
		if err != nil {
			d["error"] = err.Error()
			t.Fail("valid definitions were rejected", d)
		}
		d["definitions"] = ds.detail()
		var pa, pb me.Rules
		var epa, epb, epc error
		t.Call("YamlReadRulesFromFileWithPredefinedStrings", d, func() { pa, epa = me.YamlReadRulesFromFileWithPredefinedStrings(f, p) })
		t.Call("YamlReadRulesFromStringWithPredefinedStrings", d, func() { pb, epb = me.YamlReadRulesFromStringWithPredefinedStrings(text, p) })
		t.sameLoad("rules with definitions", epa, epb, len(pa.Rules), d)
		if eb == nil {
			for j := range b.Rules { // prepared after loading
				var e error
				t.Call("SetPredefinedStringsAndLists", d, func() { e = b.Rules[j].SetPredefinedStringsAndLists(p) })
				if e != nil {
					epc = e
				}
			}
			if (epc == nil) != (epa == nil) {
				d["error"], d["prepared separately"] = errText(epa), errText(epc)
				t.Fail("reading rules with definitions differs from preparing them afterwards", d)
			}
		}
		if !cut && undefined != (epa != nil) {
			d["error"] = errText(epa)
			t.Fail("an undefined reference must be reported, defined ones must not", d)
		}
		if epa == nil {
			msg := buildMsg(m, pick(r, docForms), r)
			what := sameRules(pa, pb)
			if what == "" {
				what = sameRules(pa, b)
			}
			for j := range pa.Rules {
				var da, db, dc int
				t.Call("rule.Check", d, func() { da, _ = pa.Rules[j].Check(msg); db, _ = pb.Rules[j].Check(msg); dc, _ = b.Rules[j].Check(msg) })
				if what == "" && (da != db || da != dc) {
					what = fmt.Sprintf("rule %d decides %d, %d and %d", j, da, db, dc)
				}
			}
			if what != "" {
				d["differ"] = what
				t.Fail("rules read with definitions differ between file, text and separate preparation", d)
			}
			t.Obs("rules with definitions")
		} else {
			t.Obs("rejected rules")
		}
	}
	t.doneFile(text, k > 1, "rules", d)
}

func (t *T) doneFile(text string, several bool, kind string, d D) {
	key := ""
	if several {
		key = text
	}
	if len(text) > 60000 {
		t.Obs("large file")
		delete(d, "rules")
	}
	t.Eval(key)
	t.Sample(kind, d)
}

// sameLoad compares the verdicts of a file loader and a text loader
func (t *T) sameLoad(kind string, fromFile, fromText error, got int, d D) {
	if (fromFile == nil) != (fromText == nil) {
		d["file error"], d["text error"] = errText(fromFile), errText(fromText)
		t.Fail(kind+": the file and its text get different verdicts", d)
	}
	if fromFile != nil && got != 0 {
		d["file error"], d["got"] = errText(fromFile), got
		t.Fail(kind+": an error came with data", d)
	}
}

func (t *T) fileMessages(dir string) {
	r := t.R
	k := r.Intn(6)
	if chance(r, 0.02) {
		k = 150 + r.Intn(200)
	}
	l := L{}
	for j := 0; j < k; j++ {
		g, _ := genWantMsg(t, r, j)
		if k < 100 && chance(r, 0.05) {
			g["request_time"] = pick(r, badTimes)
		}
		l = append(l, g)
	}
	text := layout(r, rulesTextOf(M{"messages": l}, r))
	cut := chance(r, 0.08) && len(text) > 3
	if cut {
		text = text[:1+r.Intn(len(text)-1)]
		t.Obs("cut text")
	}
	f := putFile(r, dir, []byte(text))
	d := D{"messages": text, "file": strings.TrimPrefix(f, dir)}
	t.Begin(text)
	var a, b me.Messages
	var ea, eb error
	t.Call("YamlReadMessagesFromFile", d, func() { a, ea = me.YamlReadMessagesFromFile(f) })
	t.Call("YamlReadMessagesFromString", d, func() { b, eb = me.YamlReadMessagesFromString(text) })
	t.sameLoad("messages", ea, eb, len(a.Messages), d)
	if ea == nil {
		if len(a.Messages) != len(b.Messages) || !cut && len(a.Messages) != k {
			d["expected"], d["got"] = k, []int{len(a.Messages), len(b.Messages)}
			t.Fail("number of messages", d)
		}
		for j := range a.Messages {
			if !reflect.DeepEqual(a.Messages[j], b.Messages[j]) {
				d["position"] = j
				t.Fail("messages read from a file differ from those of its text", d)
			}
		}
		t.Obs("messages")
	} else {
		t.Obs("rejected messages")
	}
	t.doneFile(text, k > 1, "messages", d)
}

func (t *T) fileDefinitions(dir string) {
	r := t.R
	ds := newDefs()
	k := r.Intn(6)
	if chance(r, 0.02) {
		k = bigSize(r, 1025)
	}
	for j := 0; j < k; j++ {
		ds.define(r, t, fmt.Sprintf("%s%d", pick(r, refNames), j), pick(r, []string{"svc1", "*", "a.b,svc2", "", "x,y,z", "é", "^a$"}), chance(r, 0.5), ",")
	}
	bad := chance(r, 0.2)
	if bad {
		ds.lists["bad"] = []string{"a", "#nowhere"}
	}
	text := layout(r, ds.text(r))
	f := putFile(r, dir, []byte(text))
	d := D{"definitions": text, "file": strings.TrimPrefix(f, dir)}
	t.Begin(text)
	var a, b me.PredefinedStringsAndLists
	var ea, eb error
	t.Call("YamlReadStringListsFromFile", d, func() { a, ea = me.YamlReadStringListsFromFile(f) })
	t.Call("YamlReadStringListsFromString", d, func() { b, eb = me.YamlReadStringListsFromString(text) })
	t.sameLoad("definitions", ea, eb, len(a.PredefinedStrings)+len(a.PredefinedLists), d)
	if bad != (ea != nil) {
		d["error"] = errText(ea)
		t.Fail("definitions: wrong verdict", d)
	}
	if ea == nil {
		if !reflect.DeepEqual(a, b) {
			t.Fail("definitions read from a file differ from those of its text", d)
		}
		for name, s := range ds.strs {
			if a.PredefinedStrings[name] != s {
				d["name"], d["expected"], d["got"] = name, s, a.PredefinedStrings[name]
				t.Fail("a predefined string changed", d)
			}
		}
		for name, s := range ds.lists {
			if len(s)+len(a.PredefinedLists[name]) > 0 && !reflect.DeepEqual(a.PredefinedLists[name], s) {
				d["name"], d["expected"], d["got"] = name, s, a.PredefinedLists[name]
				t.Fail("a predefined list changed", d)
			}
		}
		if len(a.PredefinedStrings) != len(ds.strs) || len(a.PredefinedLists) != len(ds.lists) {
			t.Fail("number of definitions", d)
		}
		t.Obs("definitions")
	} else {
		t.Obs("rejected definitions")
	}
	t.doneFile(text, k > 1, "definitions", d)
}

func (t *T) fileBytes(dir string) {
	r := t.R
	n := r.Intn(300)
	if chance(r, 0.1) {
		n = 0
	}
	if chance(r, 0.5) {
		n = pick(r, []int{4095, 4096, 4097, 8192, 65536, 65537, 100000 + r.Intn(400000)})
	}
	b := make([]byte, n)
	r.Read(b)
	f := putFile(r, dir, b)
	d := D{"bytes": n, "file": strings.TrimPrefix(f, dir)}
	t.Begin(fmt.Sprint(n))
	var got []byte
	var err error
	t.Call("ReadBinaryFile", d, func() { got, err = me.ReadBinaryFile(f) })
	if err != nil || !bytes.Equal(got, b) {
		d["error"], d["got"] = errText(err), len(got)
		t.Fail("the bytes of a file", d)
	}
	t.Obs("bytes")
	key := ""
	if n > 5000 {
		key = fmt.Sprintf("%d %x", n, b[:8])
	}
	t.Eval(key)
	t.Sample("bytes", d)
}

// singleMessage reads one message on its own; every line holds one plain field
func (t *T) singleMessage() {
	r := t.R
	g, w := genWantMsg(t, r, 1)
	var sb strings.Builder
	fields := 0
	for _, key := range messageKeys[:17] {
		v := w.fields[key]
		if _, given := g[key]; !given || v == "" || strings.Contains(v, ": ") || !simpleWord(v) {
			delete(w.fields, key)
			continue
		}
		fmt.Fprintf(&sb, "%s: %s\n", key, v)
		fields++
	}
	text := sb.String()
	d := D{"message": text}
	t.Begin(text)
	var m me.MessageAttributes
	var err error
	t.Call("YamlReadMessageAttributes", d, func() { m, err = me.YamlReadMessageAttributes(text) })
	if err != nil {
		d["error"] = err.Error()
		t.Fail("a valid message was rejected", d)
	}
	for _, key := range messageKeys[:17] {
		if got := fieldOf(&m, key); got != w.fields[key] {
			d["field"], d["expected"], d["got"] = key, w.fields[key], got
			t.Fail("a field of a single message changed", d)
		}
	}
	typ := ""
	switch strings.ToLower(w.fields["request_protocol"]) {
	case "http":
		typ = "path"
	case "tcp":
		typ = "port"
	}
	if p := w.fields["request_protocol"]; p == strings.ToLower(p) || p == strings.ToUpper(p) {
		if m.ContextType != typ {
			d["expected"], d["got"] = typ, m.ContextType
			t.Fail("resource type of a single message", d)
		}
	}
	t.Obs("single message")
	key := ""
	if fields > 1 {
		key = text
	}
	t.Eval(key)
	t.Sample("single message", d)
}

// simpleWord: letters, which no reader takes for anything but text
func simpleWord(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '/' || c == '-' || c == '.' && !strings.ContainsAny(s, "0123456789")) {
			return false
		}
	}
	switch strings.ToLower(s) {
	case "y", "n", "yes", "no", "on", "off", "true", "false", "null", "-":
		return false
	}
	return !strings.HasPrefix(s, "-")
}

func (t *T) noFile(dir string) {
	r := t.R
	f := filepath.Join(dir, "none", pick(r, fileNames))
	if chance(r, 0.3) {
		f = dir // a directory
	}
	if chance(r, 0.1) {
		f = ""
	}
	d := D{"file": strings.TrimPrefix(f, dir)}
	t.Begin(f)
	n := 0
	var err error
	k := r.Intn(5)
	t.Call("reading", d, func() {
		switch k {
		case 0:
			var x me.Rules
			x, err = me.YamlReadRulesFromFile(f)
			n = len(x.Rules)
		case 1:
			var x me.Rules
			x, err = me.YamlReadRulesFromFileWithPredefinedStrings(f, me.PredefinedStringsAndLists{})
			n = len(x.Rules)
		case 2:
			var x me.Messages
			x, err = me.YamlReadMessagesFromFile(f)
			n = len(x.Messages)
		case 3:
			var x me.PredefinedStringsAndLists
			x, err = me.YamlReadStringListsFromFile(f)
			n = len(x.PredefinedLists) + len(x.PredefinedStrings)
		default:
			if f == dir {
				f = filepath.Join(dir, "none", "x")
			}
			var x []byte
			x, err = me.ReadBinaryFile(f)
			n = len(x)
		}
	})
	if err == nil || n != 0 {
		d["loader"], d["got"] = k, n
		t.Fail("a file that does not exist or cannot be read was not reported", d)
	}
	t.Obs("no file")
	t.Eval("")
}

// ---- C23 -------------------------------------------------------------------------------------------

func c23(t *T) {
	r := t.R
	for i := t.N(12000, 160000); i > 0; i-- {
		m := genBasicMsg(r)
		genMsgAttrs(r, m)
		m.Doc, m.HasDoc = genDoc(r), true
		var cond *ref.Node
		if chance(r, 0.7) {
			cond = genTree(r, m, r.Intn(5), treeOpts{ret: true, attrs: true, absInside: true, deep: true, multi: true, mapOrder: true, star: true})
			if chance(r, 0.005) {
				cond = widen(r, cond, 1025)
				t.Obs("large group")
			}
		}
		x := genRule(r, m, pick(r, []string{"r", "R1", "rule Ä"}), cond)
		if chance(r, 0.3) {
			x.Meta = map[string]string{"Key": "Value", "k": "V"}
		}
		absent := false
		for _, p := range []*string{&x.SenderType, &x.ReceiverType, &x.Protocol, &x.ResType, &x.Operation, &x.Decision} {
			switch {
			case chance(r, 0.15):
				*p = ""
				absent = true
			case chance(r, 0.3):
				*p = flipCase(r, *p)
			}
		}
		if absent {
			t.Obs("absent")
		}
		if cond != nil {
			t.Obs("conditions")
		} else {
			t.Obs("no conditions")
		}
		text := jsonText(M{"rules": L{ruleGeneric(x, nil)}})
		d := D{"rules": text}
		t.Begin(text)
		rules := t.mustLoad(text, d)
		q := &rules.Rules[0]
		t.described(q, x, "after loading", d)
		hist := "prepared"
		var prepErr error
		if chance(r, 0.3) {
			t.Call("PrepareOneRuleWithPredefinedStrings", d, func() {
				prepErr = me.PrepareOneRuleWithPredefinedStrings(q, me.PredefinedStringsAndLists{})
			})
			t.Obs("prepared in place")
			hist = "prepared in place"
		} else if chance(r, 0.5) {
			t.Call("SetPredefinedStringsAndLists", d, func() { prepErr = q.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) })
			t.Obs("prepared")
		} else {
			msg := buildMsg(m, pick(r, docForms), r)
			t.Call("rule.Check", d, func() { q.Check(msg) })
			t.Obs("used")
			hist = "used"
		}
		_ = prepErr
		t.described(q, x, "after the rule was "+hist, d)
		t.lowered(q, x, d)
		key := ""
		if absent || cond != nil {
			key = text
		}
		t.Eval(key)
		t.Sample(fmt.Sprint("absent ", absent, " conditions ", cond != nil), d)
	}
}

func orDefault(s string) string {
	if s == "" {
		return "default"
	}
	return s
}

func (t *T) described(q *me.Rule, x *ref.Rule, when string, d D) {
	var s me.RuleStrings
	t.Call("GetRuleStrings", d, func() { s = me.GetRuleStrings(q) })
	fail := func(what string, e, g interface{}) {
		d["when"], d["expected"], d["got"] = when, e, g
		t.Fail("description: "+what, d)
	}
	named := func(what, typ, name, got string) {
		if typ != "" {
			if got != typ+":"+name {
				fail(what, typ+":"+name, got)
			}
			return
		}
		if !strings.Contains(got, "default") || !strings.HasSuffix(got, ":"+name) {
			fail(what, "the default type and "+name, got)
		}
	}
	named("sender", x.SenderType, x.SenderName, s.SenderString)
	named("receiver", x.ReceiverType, x.ReceiverName, s.ReceiverString)
	if x.ResType != "" {
		named("resource", x.ResType, x.ResName, s.ResourceString)
	} else if !strings.Contains(s.ResourceString, "default") {
		fail("resource", "default", s.ResourceString)
	}
	if s.ProtocolString != orDefault(x.Protocol) {
		fail("protocol", orDefault(x.Protocol), s.ProtocolString)
	}
	if s.OperationString != orDefault(x.Operation) {
		fail("operation", orDefault(x.Operation), s.OperationString)
	}
	if s.DecisionString != orDefault(x.Decision) {
		fail("decision", orDefault(x.Decision), s.DecisionString)
	}
	if chance(t.R, 0.1) {
		printed := t.printed(q, d)
		for _, part := range []string{s.SenderString, s.ReceiverString, s.ProtocolString, s.ResourceString, s.OperationString, s.ConditionsString, s.DecisionString} {
			if !strings.Contains(printed, part) {
				fail("a part is not printed", part, printed)
			}
		}
		t.Obs("printed")
	}
	if x.Cond == nil {
		if s.ConditionsString != "" {
			fail("conditions", "", s.ConditionsString)
		}
		return
	}
	if all := me.RuleConditionsToString(*q); s.ConditionsString != all {
		fail("conditions", all, s.ConditionsString)
	}
	has := func(part string) {
		if !strings.Contains(s.ConditionsString, part) {
			fail("a part of the conditions is not shown", part, s.ConditionsString)
		}
	}
	x.Cond.Walk(func(n *ref.Node) {
		switch n.Op {
		case "LEAF":
			g := treeGeneric(n, nil)
			has(g["attribute"].(string))
			has(n.Method)
			switch v := n.Value.(type) {
			case string, int, bool:
				has(fmt.Sprint(v))
			}
		case "ANY", "ALL":
			has(n.Op)
			has(parentText(n.Parent, nil))
		}
	})
}

// printed returns what printing a rule writes to the standard output
func (t *T) printed(q *me.Rule, d D) string {
	f, err := os.CreateTemp("", "c23")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	out := os.Stdout
	os.Stdout = f
	defer func() { os.Stdout = out }()
	t.Call("Print", d, func() { q.Print() })
	b, err := os.ReadFile(f.Name())
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (t *T) lowered(q *me.Rule, x *ref.Rule, d D) {
	before := me.RuleConditionsToString(*q)
	for k := 0; k < 2; k++ {
		t.Call("ToLower", d, func() { q.ToLower() })
		want := ruleView{x.ID, x.SenderName, strings.ToLower(x.SenderType), x.ReceiverName, strings.ToLower(x.ReceiverType), strings.ToLower(x.Protocol), strings.ToLower(x.ResType), x.ResName, strings.ToLower(x.Operation), strings.ToLower(x.Decision), "", x.Meta}
		if got := viewOf(q); !reflect.DeepEqual(got, want) {
			d["expected"], d["got"] = want, got
			t.Fail("lower-casing a rule", d)
		}
		if after := me.RuleConditionsToString(*q); after != before {
			d["expected"], d["got"] = before, after
			t.Fail("lower-casing a rule changed its conditions", d)
		}
	}
	if x.SenderType+x.ReceiverType+x.Protocol+x.ResType+x.Operation+x.Decision != strings.ToLower(x.SenderType+x.ReceiverType+x.Protocol+x.ResType+x.Operation+x.Decision) {
		t.Obs("upper case")
	}
}
