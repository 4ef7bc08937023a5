//go:build !only || c24

package main

import (
	"encoding/json"
	"fmt"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"gopkg.in/yaml.v2"

	"verif/harness/ref"
)

func init() {
	checks["C24"] = &check{run: c24, rule: "random lists of 1-4 rules prepared in place (as a list, one by one, or only on first use), with and without references; sender, receiver and conditions tested alone and as rules in which all else is unrestricted; rules and trees built in code; non-trivial: a rule with at least two restricted parts", minQuick: 4000,
		need: map[string]int{"prepared list": 2000, "prepared one by one": 1000, "first use": 500, "reference": 1000, "undefined": 300, "sender holds": 2000, "sender fails": 500, "receiver holds": 2000, "receiver fails": 500, "conditions hold": 1000, "conditions fail": 1000, "applies": 1000, "does not apply": 1000, "built": 2000, "data": 200, "joined": 1000, "joined before preparing": 1000, "parsed as yaml": 1000, "parsed as json": 1000, "can't be prepared": 500}}
}

// part is a rule of which only one part is restricted
func part(x *ref.Rule, which string) *ref.Rule {
	p := plainRule(nil)
	switch which {
	case "sender":
		p.SenderName, p.SenderType = x.SenderName, x.SenderType
	case "receiver":
		p.ReceiverName, p.ReceiverType = x.ReceiverName, x.ReceiverType
	case "conditions":
		p.Cond = x.Cond
	case "rest":
		p.Protocol, p.ResType, p.ResName, p.Operation = x.Protocol, x.ResType, x.ResName, x.Operation
	}
	return p
}

var ruleParts = []string{"sender", "receiver", "conditions", "rest"}

func c24(t *T) {
	for i := t.N(8000, 110000); i > 0; i-- {
		t.partsCase()
	}
}

// alone checks the part of a rule which is written in full
func (t *T) alone(x *ref.Rule, which string, msg *me.MessageAttributes, d D) (bool, []string) {
	rules := t.mustLoad(jsonText(M{"rules": L{ruleGeneric(part(x, which), nil)}}), d)
	var got int
	var data []map[string]interface{}
	t.Call("rule.Check", d, func() { got, data = rules.Rules[0].Check(msg) })
	return got == me.BLOCK, normData(data)
}

func (t *T) partsCase() {
	r := t.R
	m := genBasicMsg(r)
	genMsgAttrs(r, m)
	m.Doc, m.HasDoc = genDoc(r), true
	k := 1 + r.Intn(4)
	if chance(r, 0.005) {
		k = bigSize(r, 129)
		t.Obs("many rules")
	}
	withDefs := chance(r, 0.4)
	undefined := -1
	lost := map[int]bool{}
	ds := newDefs()
	var xs, ys []*ref.Rule // written out and with references
	restricted := 0
	for j := 0; j < k; j++ {
		var cond *ref.Node
		if chance(r, 0.7) {
			cond = genTree(r, m, r.Intn(4), treeOpts{ret: true, attrs: true, absInside: true, deep: true, multi: true, star: true})
			if chance(r, 0.002) {
				cond = widen(r, cond, 513)
				t.Obs("large group")
			}
		}
		x := genRule(r, m, fmt.Sprintf("r%d", j), cond)
		y := *x
		if withDefs {
			name := func() string { return fmt.Sprintf("%s%d", pick(r, refNames), len(ds.strs)+len(ds.lists)) }
			if x.SenderType != "subnet" && chance(r, 0.4) && !strings.HasPrefix(x.SenderName, "#") {
				n := name()
				y.SenderName = "#" + n
				ds.define(r, t, n, x.SenderName, chance(r, 0.5), ",")
				t.Obs("reference")
			}
			if x.ReceiverType != "subnet" && chance(r, 0.4) && !strings.HasPrefix(x.ReceiverName, "#") {
				n := name()
				y.ReceiverName = "#" + n
				ds.define(r, t, n, x.ReceiverName, chance(r, 0.5), ",")
				t.Obs("reference")
			}
			if cond != nil {
				y.Cond = cond.Clone()
				y.Cond.Walk(func(l *ref.Node) {
					s, ok := l.Value.(string)
					if l.Op != "LEAF" || !ok || s == "" || strings.HasPrefix(s, "#") || strings.HasPrefix(s, "$") || strings.HasPrefix(s, "receiverLabel") || !chance(r, 0.3) {
						return
					}
					switch strings.ToUpper(l.Method) {
					case "EQ", "NEQ", "RE", "NRE":
						if l.Path == nil {
							return
						}
						n := name()
						ds.strs[n] = s
						l.Value = "#" + n
						t.Obs("reference")
					}
				})
			}
			if chance(r, 0.07) {
				undefined = j
				lost[j] = true
				switch r.Intn(3) {
				case 0:
					y.ReceiverName, y.ReceiverType = "#nowhere", "workload"
				case 1:
					y.SenderName, y.SenderType = "#nowhere", "workload"
				default:
					c := &ref.Node{Op: "LEAF", Attr: "domain", Method: pick(r, []string{"EQ", "NEQ", "RE"}), Value: "#nowhere"}
					if y.Cond != nil {
						c = &ref.Node{Op: pick(r, []string{"AND", "OR"}), Kids: []*ref.Node{y.Cond, c}}
					}
					y.Cond = c
				}
			}
		}
		if x.SenderName != "*" {
			restricted++
		}
		if x.ReceiverName != "*" {
			restricted++
		}
		if cond != nil {
			restricted++
		}
		xs, ys = append(xs, x), append(ys, &y)
	}
	if !t.InDomain(func() {
		for _, x := range xs {
			ref.Applies(x, m)
			if x.Cond != nil {
				ref.Eval(x.Cond, m)
			}
		}
	}) {
		return
	}
	text := rulesText(ys, r)
	msg := buildMsg(m, pick(r, docForms), r)
	d := D{"rules": text, "message": msgDetail(m)}
	t.Begin(text)
	var p me.PredefinedStringsAndLists
	if withDefs {
		d["definitions"] = ds.detail()
		var err error
		if p, err = t.loadDefs(ds, d); err != nil {
			d["error"] = err.Error()
			t.Fail("valid definitions were rejected", d)
		}
	}
	rules := t.mustLoad(text, d)
	firstUse := !withDefs && chance(r, 0.3)
	var err error
	switch {
	case firstUse:
		if chance(r, 0.5) {
			if chance(r, 0.5) {
				t.Call("PrepareRules", d, func() { err = me.PrepareRules(&rules) })
			} else {
				t.Call("PrepareOneRule", d, func() { err = me.PrepareOneRule(&rules.Rules[k-1]) })
			}
		}
		t.Obs("first use")
	case chance(r, 0.6):
		t.Call("PrepareRulesWithPredefinedStrings", d, func() { err = me.PrepareRulesWithPredefinedStrings(&rules, p) })
		t.Obs("prepared list")
	default:
		for j := range rules.Rules {
			var e error
			t.Call("PrepareOneRuleWithPredefinedStrings", d, func() { e = me.PrepareOneRuleWithPredefinedStrings(&rules.Rules[j], p) })
			if e != nil {
				err = e
			}
			if (e != nil) != lost[j] {
				d["rule"], d["error"] = j, errText(e)
				t.Fail("preparing a rule in place: wrong verdict", d)
			}
		}
		t.Obs("prepared one by one")
	}
	if (err != nil) != (undefined >= 0) {
		d["error"] = errText(err)
		t.Fail("preparing rules in place: wrong verdict", d)
	}
	if err != nil {
		for j := range ys {
			if !lost[j] {
				continue
			}
			var got int
			t.Call("rule.Check", d, func() { got, _ = rules.Rules[j].Check(msg) })
			if got != me.DEFAULT {
				d["rule"], d["got"] = j, got
				t.Fail("a rule which could not be prepared in place applies", d)
			}
			var holds bool
			t.Call("TestConditions", d, func() { holds, _ = rules.Rules[j].TestConditions(msg) })
			if holds {
				d["rule"] = j
				t.Fail("the conditions of a rule which could not be prepared in place hold", d)
			}
		}
		t.Obs("undefined")
		t.Eval(text)
		return
	}
	var trees []me.Node
	var values []bool
	for j, x := range xs {
		q := &rules.Rules[j]
		d["rule"] = j
		holds := map[string]bool{}
		var data []string
		for _, which := range ruleParts {
			ok, dd := t.alone(x, which, msg, d)
			holds[which] = ok
			if which == "conditions" {
				data = dd
			}
		}
		same := func(what string, got, want bool) {
			if got != want {
				d["part"], d["expected"], d["got"] = what, want, got
				t.Fail("a part of a rule tested alone differs from the rule with only that part", d)
			}
			if want {
				t.Obs(what + " holds")
			} else {
				t.Obs(what + " fails")
			}
		}
		for n := 1 + r.Intn(2); n > 0; n-- {
			var got bool
			for _, s := range r.Perm(2) {
				if s == 0 {
					t.Call("TestSender", d, func() { got = me.TestSender(q, msg) })
					same("sender", got, holds["sender"])
				} else {
					t.Call("TestReceiver", d, func() { got = me.TestReceiver(q, msg) })
					same("receiver", got, holds["receiver"])
				}
			}
			if x.Cond != nil && !firstUse {
				var raw []map[string]interface{}
				t.Call("Eval", d, func() { got, raw = q.Conditions.ConditionsTree.Eval(msg) })
				t.condPart(got, raw, holds["conditions"], data, "prepared in place", d)
			}
		}
		if x.Cond != nil {
			t.ownCopy(ys[j], p, msg, holds["conditions"], data, d)
			if n := t.builtTree(x, ys[j], p, msg, holds["conditions"], data, d); n != nil {
				trees, values = append(trees, n), append(values, holds["conditions"])
			}
		}
		// the whole
		applies := holds["sender"] && holds["receiver"] && holds["conditions"] && holds["rest"]
		want := me.DEFAULT
		if applies {
			want = map[string]int{"allow": me.ALLOW, "alert": me.ALERT, "block": me.BLOCK}[strings.ToLower(x.Decision)]
			t.Obs("applies")
		} else {
			t.Obs("does not apply")
		}
		whole := t.built(x, d)
		var got int
		t.Call("rule.Check", d, func() { got, _ = whole.Check(msg) })
		if got != want {
			d["expected"], d["got"], d["parts"] = want, got, holds
			t.Fail("a rule built in code decides otherwise than its parts", d)
		}
		t.Obs("built")
	}
	t.joined(trees, values, msg, d)
	if len(values) > 0 {
		t.joinedFirst(ys, values, p, msg, d)
	}
	key := ""
	if restricted > 1 {
		key = text
	}
	t.Eval(key)
	t.Sample(fmt.Sprint("definitions ", withDefs), d)
}

// ownCopy tests the conditions of a rule which keeps its prepared form to itself
func (t *T) ownCopy(y *ref.Rule, p me.PredefinedStringsAndLists, msg *me.MessageAttributes, want bool, data []string, d D) {
	r := t.R
	lost := chance(r, 0.15)
	if lost { // one more condition, which can't be prepared
		z := *y
		z.Cond = &ref.Node{Op: pick(r, []string{"AND", "OR"}), Kids: []*ref.Node{y.Cond, {Op: "LEAF", Attr: "domain", Method: "EQ", Value: "#nowhere"}}}
		if chance(r, 0.3) {
			z.Cond = &ref.Node{Op: "NOT", Kids: []*ref.Node{z.Cond}}
		}
		y = &z
	}
	text := rulesText([]*ref.Rule{y}, r)
	rules := t.mustLoad(text, d)
	q := &rules.Rules[0]
	var err error
	t.Call("SetPredefinedStringsAndLists", d, func() { err = q.SetPredefinedStringsAndLists(p) })
	if (err != nil) != lost {
		d["own"], d["error"] = text, errText(err)
		t.Fail("preparing a rule: wrong verdict", d)
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		var got bool
		var raw []map[string]interface{}
		t.Call("TestConditions", d, func() { got, raw = q.TestConditions(msg) })
		if lost {
			t.Obs("can't be prepared")
			if got || len(raw) > 0 {
				d["own"] = text
				t.Fail("the conditions of a rule which can't be prepared hold", d)
			}
			continue
		}
		t.condPart(got, raw, want, data, "of a rule with its own definitions", d)
	}
}

// condPart compares the outcome of a tree with the one of the rule holding it
func (t *T) condPart(got bool, raw []map[string]interface{}, want bool, data []string, how string, d D) {
	if got != want {
		d["conditions"], d["expected"], d["got"] = how, want, got
		t.Fail("conditions evaluated alone differ from the rule with these conditions", d)
	}
	if !want {
		t.Obs("conditions fail")
		return
	}
	t.Obs("conditions hold")
	if len(data) > 0 {
		t.Obs("data")
	}
	if g := normData(raw); !sameList(sortedCopy(g), sortedCopy(data)) {
		d["conditions"], d["expected"], d["got"] = how, data, g
		t.Fail("returned values of conditions evaluated alone differ from those of the rule", d)
	}
}

// built makes a rule from its fields, its conditions parsed from a decoded value
func (t *T) built(x *ref.Rule, d D) *me.Rule {
	q := &me.Rule{RuleID: x.ID, Protocol: x.Protocol, Operation: x.Operation, Decision: x.Decision}
	q.Sender.SenderName, q.Sender.SenderType = x.SenderName, x.SenderType
	q.Receiver.ReceiverName, q.Receiver.ReceiverType = x.ReceiverName, x.ReceiverType
	q.Resource.ResourceName, q.Resource.ResourceType = x.ResName, x.ResType
	if x.Cond != nil {
		n, _ := t.parsed(x, d)
		q.Conditions.ConditionsTree = n
	}
	return q
}

// parsed parses the conditions of a rule from a decoded value; full is the rule with these conditions as loaded
func (t *T) parsed(x *ref.Rule, d D) (n me.Node, full *me.Rule) {
	r := t.R
	g := condGeneric(x.Cond, r)
	rule := ruleGeneric(x, nil)
	rule["conditions"] = g
	text := jsonText(g)
	var aux interface{}
	if chance(r, 0.5) {
		if err := yaml.Unmarshal([]byte(text), &aux); err != nil {
			panic(err)
		}
		rules := t.mustLoad(jsonText(M{"rules": L{rule}}), d)
		full = &rules.Rules[0]
		t.Obs("parsed as yaml")
	} else {
		if err := json.Unmarshal([]byte(text), &aux); err != nil {
			panic(err)
		}
		full = &me.Rule{}
		var err error
		t.Call("json.Unmarshal", d, func() { err = json.Unmarshal([]byte(jsonText(rule)), full) })
		if err != nil {
			d["error"] = err.Error()
			t.Fail("a valid rule was rejected", d)
		}
		t.Obs("parsed as json")
	}
	var err error
	t.Call("ParseConditionsTree", d, func() { n, err = me.ParseConditionsTree(aux) })
	if err != nil || n == nil {
		d["tree"], d["error"] = text, errText(err)
		t.Fail("valid conditions were rejected", d)
	}
	return n, full
}

// builtTree prepares and evaluates conditions on their own
func (t *T) builtTree(x, y *ref.Rule, p me.PredefinedStringsAndLists, msg *me.MessageAttributes, want bool, data []string, d D) me.Node {
	n, full := t.parsed(y, d)
	if a, b := n.String(), me.RuleConditionsToString(*full); a != b {
		d["expected"], d["got"] = b, a
		t.Fail("text of parsed conditions", d)
	}
	var err error
	t.Call("PrepareAndValidate", d, func() { err = n.PrepareAndValidate(p) })
	if err != nil {
		d["error"] = err.Error()
		t.Fail("valid conditions could not be prepared", d)
	}
	var got bool
	var raw []map[string]interface{}
	t.Call("Eval", d, func() { got, raw = n.Eval(msg) })
	t.condPart(got, raw, want, data, "parsed", d)
	return n
}

// joined combines prepared trees in code
func (t *T) joined(trees []me.Node, values []bool, msg *me.MessageAttributes, d D) {
	if len(trees) == 0 {
		return
	}
	and, or, not := &me.And{}, &me.Or{}, &me.Not{}
	all, any := true, false
	for i, n := range trees {
		and.Append(n)
		or.Append(n)
		all = all && values[i]
		any = any || values[i]
	}
	not.Append(trees[0])
	var a, o, n bool
	t.Call("Eval", d, func() { a, _ = and.Eval(msg); o, _ = or.Eval(msg); n, _ = not.Eval(msg) })
	if a != all || o != any || n == values[0] {
		d["values"], d["and"], d["or"], d["not"] = values, a, o, n
		t.Fail("trees joined in code", d)
	}
	t.Obs("joined")
}

// joinedFirst joins parsed trees in code before they are prepared together
func (t *T) joinedFirst(ys []*ref.Rule, values []bool, p me.PredefinedStringsAndLists, msg *me.MessageAttributes, d D) {
	r := t.R
	op := pick(r, []string{"AND", "OR"})
	var group me.Node = &me.And{}
	want := true
	if op == "OR" {
		group, want = &me.Or{}, false
	}
	i := 0
	for _, y := range ys {
		if y.Cond == nil {
			continue
		}
		n, _ := t.parsed(y, d)
		v := values[i]
		i++
		if chance(r, 0.3) {
			not := &me.Not{}
			not.Append(n)
			n, v = not, !v
		}
		group.Append(n)
		if op == "AND" {
			want = want && v
		} else {
			want = want || v
		}
	}
	var err error
	t.Call("PrepareAndValidate", d, func() { err = group.PrepareAndValidate(p) })
	if err != nil {
		d["error"] = err.Error()
		t.Fail("conditions joined in code could not be prepared", d)
	}
	var got bool
	t.Call("Eval", d, func() { got, _ = group.Eval(msg) })
	if got != want {
		d["joined"], d["expected"], d["got"] = op, want, got
		t.Fail("trees joined in code before they were prepared", d)
	}
	t.Obs("joined before preparing")
}
