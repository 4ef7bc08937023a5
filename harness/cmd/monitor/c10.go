package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"

	"verif/harness/ref"
)

func init() {
	checks["C10"] = &check{run: c10, rule: "random rules whose sender name, receiver name and condition values refer to definitions; definitions given to the rule, at loading or globally, exchanged, withdrawn and given again; outcomes compared with the reference on the written-out rule; non-trivial: the rule has at least one reference", minQuick: 4000,
		need: map[string]int{"string": 2000, "list": 2000, "list item reference": 500, "same name": 200, "undefined": 1000, "exchanged": 1000, "global": 1000, "own over global": 1000, "applies": 1500, "does not apply": 1500, "regex list": 100, "bad definitions": 200, "empty list": 50, "empty string": 100, "text like a name": 1000, "big list": 200, "withdrawn globally": 500, "list of rules": 200}}
}

// defs is a set of definitions
type defs struct {
	strs  map[string]string
	lists map[string][]string
}

func newDefs() *defs { return &defs{map[string]string{}, map[string][]string{}} }

func (d *defs) text(r *rand.Rand) string {
	m := M{}
	if len(d.strs) > 0 {
		m["predefinedStrings"] = d.strs
	}
	if len(d.lists) > 0 {
		m["predefinedLists"] = d.lists
	}
	return rulesTextOf(m, r)
}

func (d *defs) detail() D { return D{"strings": d.strs, "lists": d.lists} }

// load gives the definitions to the engine's reader
func (t *T) loadDefs(d *defs, det D) (me.PredefinedStringsAndLists, error) {
	var out me.PredefinedStringsAndLists
	var err error
	text := d.text(t.R)
	if chance(t.R, 0.1) {
		dir, e := os.MkdirTemp("", "c10")
		if e != nil {
			panic(e)
		}
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, "defs.yaml")
		if e := os.WriteFile(f, []byte(text), 0644); e != nil {
			panic(e)
		}
		t.Call("YamlReadStringListsFromFile", det, func() { out, err = me.YamlReadStringListsFromFile(f) })
		return out, err
	}
	t.Call("YamlReadStringListsFromString", det, func() { out, err = me.YamlReadStringListsFromString(text) })
	return out, err
}

// refPos is a place in a rule that holds a reference
type refPos struct {
	kind string // sender receiver cond
	typ  string // type of the side, or upper case method
	leaf *ref.Node
	name string
	list bool
}

var refNames = []string{"n", "name", "my-name", "a.b", "A", "x#y", "long_name_1", "n/1"}

// define adds a definition for text under a fresh name and returns the reference
func (d *defs) define(r *rand.Rand, t *T, name, text string, list bool, sep string) {
	if !list {
		d.strs[name] = text
		return
	}
	items := strings.Split(text, sep)
	if text == "" && chance(r, 0.5) {
		items = nil
	}
	out := []string{}
	for _, it := range items {
		if chance(r, 0.25) {
			sn := fmt.Sprintf("%s_%d", pick(r, refNames), len(d.strs))
			d.strs[sn] = it
			out = append(out, "#"+sn)
			t.Obs("list item reference")
		} else {
			out = append(out, it)
		}
	}
	d.lists[name] = out
	if chance(r, 0.2) || text == "" {
		d.strs[name] = pick(r, []string{"other", "a", "*", "svc1"})
		t.Obs("same name")
	}
}

// decoys defines strings under names which are the texts of other definitions
func (d *defs) decoys(r *rand.Rand, t *T) {
	if !chance(r, 0.3) {
		return
	}
	var texts []string
	for _, k := range sortedKeys(d.strs) {
		texts = append(texts, d.strs[k])
	}
	for _, k := range sortedKeys(d.lists) {
		texts = append(texts, d.lists[k]...)
	}
	for _, s := range texts {
		if _, ok := d.strs[s]; ok || s == "" || len(s) > 200 || strings.HasPrefix(s, "#") || chance(r, 0.3) {
			continue
		}
		if chance(r, 0.3) {
			if _, ok := d.lists[s]; !ok {
				d.lists[s] = []string{"decoy"}
			}
		} else {
			d.strs[s] = pick(r, []string{"decoy", "*", "a", ".*"})
		}
		t.Obs("text like a name")
	}
}

// altText gives another text for a position
func altText(r *rand.Rand, p *refPos, m *ref.Msg) string {
	switch p.kind {
	case "sender", "receiver":
		name, ip, pool := m.SenderName, m.SenderIP, svcPool
		if p.kind == "receiver" {
			name, ip = m.ReceiverName, m.ReceiverIP
			if p.typ == "hostname" {
				name, pool = m.Host, hostPool
			}
		}
		if p.typ == "subnet" {
			s := genSubnet(r, ip)
			if p.list && chance(r, 0.5) {
				s += "," + genSubnet(r, ip)
			}
			return s
		}
		s := genNames(r, name, pool, false)
		if !p.list {
			return s
		}
		return s
	}
	switch p.typ {
	case "RE", "NRE":
		if p.list {
			return pick(r, []string{"a|b", "^a$|^b$", "foo|o{2}", "x", "^1|5"})
		}
		return pick(r, rePool)
	case "IN", "NIN":
		return pick(r, []string{"a,b", "foo", "v1,a,b", "default,tls", "1,10,a.b"})
	}
	return pick(r, []string{"a", "b", "foo", "default", "1", "true", "tls", "v1", " lead", "trail ", "a , b"})
}

func c10(t *T) {
	r := t.R
	n := t.N(16000, 250000)
	for i := 0; i < n; i++ {
		if chance(r, 0.03) {
			t.badDefinitions()
			continue
		}
		m := genBasicMsg(r)
		genMsgAttrs(r, m)
		if chance(r, 0.6) {
			m.Doc, m.HasDoc = genDoc(r), true
		}
		var cond *ref.Node
		if chance(r, 0.8) {
			cond = genTree(r, m, r.Intn(3), treeOpts{attrs: true, absInside: true})
		}
		x := genRule(r, m, "r", cond)
		big := chance(r, 0.03)
		if big { // long lists whose own entries come last
			t.bigLists(x)
		}
		// rule with references (refd) and its written-out forms under two sets of definitions
		d1, d2 := newDefs(), newDefs()
		refd := *x
		if cond != nil {
			refd.Cond = cond.Clone()
		}
		one, two := refd, refd
		if cond != nil {
			one.Cond, two.Cond = cond.Clone(), cond.Clone()
		}
		var ps []*refPos
		cnt := 0
		fresh := func() string { cnt++; return fmt.Sprintf("%s%d", pick(r, refNames), cnt) }
		place := func(p *refPos, text string, set func(*ref.Rule, string)) {
			p.name = fresh()
			sep := ","
			if p.kind == "cond" && (p.typ == "RE" || p.typ == "NRE") {
				sep = "|"
			}
			alt := altText(r, p, m)
			if strings.Contains(sep+text+sep+alt, sep+"#") { // an item would be taken as a reference
				p.list = false
			}
			d1.define(r, t, p.name, text, p.list, sep)
			d2.define(r, t, p.name, alt, p.list, sep)
			set(&refd, "#"+p.name)
			set(&one, text)
			set(&two, alt)
			ps = append(ps, p)
			if p.list {
				t.Obs("list")
				if sep == "|" {
					t.Obs("regex list")
				}
			} else {
				t.Obs("string")
			}
		}
		if chance(r, 0.4) {
			place(&refPos{kind: "sender", typ: x.SenderType, list: chance(r, 0.5)}, x.SenderName, func(y *ref.Rule, s string) { y.SenderName = s })
		}
		if chance(r, 0.4) {
			place(&refPos{kind: "receiver", typ: x.ReceiverType, list: chance(r, 0.5)}, x.ReceiverName, func(y *ref.Rule, s string) { y.ReceiverName = s })
		}
		if cond != nil {
			var l0, l1, l2 []*ref.Node
			leaves := func(n *ref.Node, out *[]*ref.Node) {
				n.Walk(func(k *ref.Node) {
					if k.Op == "LEAF" {
						*out = append(*out, k)
					}
				})
			}
			leaves(refd.Cond, &l0)
			leaves(one.Cond, &l1)
			leaves(two.Cond, &l2)
			for j, lf := range l0 {
				v, isText := lf.Value.(string)
				u := strings.ToUpper(lf.Method)
				if !isText || strings.HasPrefix(v, "#") || v == "" || !chance(r, 0.5) {
					continue
				}
				list := chance(r, 0.5)
				switch u {
				case "EQ", "NEQ", "NE":
					if lf.Path == nil && (lf.Attr == "payloadSize" || lf.Attr == "utcHoursFromMidnight" || lf.Attr == "encryptionVersion" || strings.EqualFold(lf.Attr, "true") || strings.EqualFold(lf.Attr, "false")) {
						continue
					}
					if strings.HasPrefix(v, "$receiver.") || strings.HasPrefix(v, "receiverLabel[") {
						continue
					}
					if list && chance(r, 0.12) {
						v = "" // a list without items
						t.Obs("empty list")
					}
					if !list && chance(r, 0.25) {
						v = ""
						t.Obs("empty string")
					}
				case "RE", "NRE":
					if strings.HasPrefix(v, "(") && strings.Contains(v, "|") {
						list = false
					}
				case "IN", "NIN":
					v = strings.Trim(v, "[]")
				default:
					continue
				}
				j := j
				place(&refPos{kind: "cond", typ: u, list: list}, v, func(y *ref.Rule, s string) {
					switch y {
					case &refd:
						l0[j].Value = s
					case &one:
						l1[j].Value = s
					default:
						l2[j].Value = s
					}
				})
			}
		}
		if len(ps) == 0 {
			continue
		}
		var w1, w2 int
		if !t.InDomain(func() { w1, _ = ref.Applies(&one, m); w2, _ = ref.Applies(&two, m) }) {
			continue
		}
		// definitions named like the texts of others: a text is never taken as a name
		for _, d := range []*defs{d1, d2} {
			d.decoys(r, t)
		}
		t.c10case(&refd, &one, d1, d2, ps, m, w1, w2)
	}
}

func (t *T) c10case(x, out *ref.Rule, d1, d2 *defs, ps []*refPos, m *ref.Msg, w1, w2 int) {
	r := t.R
	text := rulesText([]*ref.Rule{x}, r)
	d := D{"rules": text, "written out": jsonText(ruleGeneric(out, nil)), "definitions": d1.detail(), "other definitions": d2.detail(), "message": msgDetail(m)}
	t.Begin(text + d1.text(nil))
	defer func() { me.GlobalPredefinedStringsAndLists = me.PredefinedStringsAndLists{} }()
	p1, err := t.loadDefs(d1, d)
	if err != nil {
		d["error"] = err.Error()
		t.Fail("valid definitions were rejected", d)
	}
	p2, err := t.loadDefs(d2, d)
	if err != nil {
		d["error"] = err.Error()
		t.Fail("valid definitions were rejected", d)
	}
	msg := buildMsg(m, pick(r, docForms), r)
	steps := []string{}
	ask := func(rules *me.Rules, want int, what string) {
		steps = append(steps, what)
		for _, via := range r.Perm(3) {
			var got int
			switch via {
			case 0:
				t.Call("Check", d, func() { got, _, _, _, _, _, _ = me.Check(msg, rules) })
			case 1:
				t.Call("CheckOneRule", d, func() { got, _ = me.CheckOneRule(msg, &rules.Rules[0]) })
			default:
				t.Call("rule.Check", d, func() { got, _ = rules.Rules[0].Check(msg) })
			}
			if got != want {
				d["expected"], d["got"], d["steps"], d["via"] = want, got, steps, []string{"Check", "CheckOneRule", "rule.Check"}[via]
				t.Fail("a rule with references does not decide like the written-out rule ("+what+")", d)
			}
		}
	}
	set := func(rules *me.Rules, p me.PredefinedStringsAndLists, wantErr bool, what string) {
		var err error
		steps = append(steps, what)
		t.Call("SetPredefinedStringsAndLists", d, func() { err = rules.Rules[0].SetPredefinedStringsAndLists(p) })
		if (err != nil) != wantErr {
			d["error"], d["steps"] = fmt.Sprint(err), steps
			if wantErr {
				t.Fail("a reference to an undefined name was not reported", d)
			}
			t.Fail("a rule with defined references was rejected", d)
		}
	}
	global := func(p me.PredefinedStringsAndLists, what string) {
		var err error
		steps = append(steps, what)
		if chance(r, 0.5) {
			p = me.PredefinedStringsAndLists{PredefinedStrings: p.PredefinedStrings, PredefinedLists: p.PredefinedLists}
		}
		t.Call("SetGlobalPredefinedStringsAndLists", d, func() { err = me.SetGlobalPredefinedStringsAndLists(p) })
		if err != nil {
			d["error"] = err.Error()
			t.Fail("valid global definitions were rejected", d)
		}
	}
	load := func() me.Rules { return t.mustLoad(text, d) }
	loadWith := func(p me.PredefinedStringsAndLists, wantErr bool) me.Rules {
		var rules me.Rules
		var err error
		t.Call("YamlReadRulesFromStringWithPredefinedStrings", d, func() { rules, err = me.YamlReadRulesFromStringWithPredefinedStrings(text, p) })
		if (err != nil) != wantErr {
			d["error"] = fmt.Sprint(err)
			if wantErr {
				t.Fail("loading with a reference to an undefined name succeeded", d)
			}
			t.Fail("loading a rule with defined references failed", d)
		}
		return rules
	}
	fresh := load()
	f0 := &fresh.Rules[0]
	str0, hash0 := me.RuleToString(*f0), me.RuleMD5Hash(*f0)
	js0, _ := json.Marshal(f0)
	unchanged := func(rules *me.Rules) {
		q := &rules.Rules[0]
		js, _ := json.Marshal(q)
		if me.RuleToString(*q) != str0 || me.RuleMD5Hash(*q) != hash0 || string(js) != string(js0) {
			d["before"], d["after"], d["steps"] = string(js0), string(js), steps
			t.Fail("preparing changed the referring rule", d)
		}
	}
	kind := r.Intn(6)
	switch kind {
	case 0: // at loading, with other global definitions around
		global(p2, "global other")
		rules := loadWith(p1, false)
		ask(&rules, w1, "loaded with definitions")
		t.Obs("own over global")
		if chance(r, 0.2) {
			t.manyRules(x, p1, w1, msg, d)
		}
		unchanged(&rules)
	case 1: // given to the rule, then exchanged, then given again
		rules := load()
		set(&rules, p1, false, "set definitions")
		if chance(r, 0.7) {
			ask(&rules, w1, "definitions set")
		}
		set(&rules, p2, false, "set other definitions")
		ask(&rules, w2, "other definitions set")
		set(&rules, p1, false, "set definitions again")
		ask(&rules, w1, "definitions set again")
		unchanged(&rules)
		t.Obs("exchanged")
	case 2: // global
		global(p1, "global")
		rules := load()
		ask(&rules, w1, "global definitions")
		rules2 := load()
		global(p2, "global other")
		ask(&rules2, w2, "other global definitions")
		t.Obs("global")
		unchanged(&rules)
	case 3: // own over global, given after use with the global ones
		global(p2, "global other")
		rules := load()
		ask(&rules, w2, "global definitions")
		set(&rules, p1, false, "set own definitions")
		ask(&rules, w1, "own definitions")
		t.Obs("own over global")
		unchanged(&rules)
	case 4: // one name withdrawn
		part := newDefs()
		gone := pick(r, ps).name
		for k, v := range d1.strs {
			if k != gone {
				part.strs[k] = v
			}
		}
		for k, v := range d1.lists {
			if k != gone {
				part.lists[k] = v
			}
		}
		p3, err := t.loadDefs(part, d)
		if err != nil {
			d["error"] = err.Error()
			t.Fail("valid definitions were rejected", d)
		}
		d["withdrawn"] = gone
		loadWith(p3, true)
		rules := load()
		if chance(r, 0.5) {
			set(&rules, p1, false, "set definitions")
			ask(&rules, w1, "definitions set")
		}
		set(&rules, p3, true, "set definitions without "+gone)
		if chance(r, 0.5) {
			if chance(r, 0.6) {
				global(p1, "global")
				rules2 := load()
				ask(&rules2, w1, "global definitions")
			}
			global(p3, "global without "+gone)
			rules2 := load()
			ask(&rules2, 0, "name withdrawn from the global definitions")
			t.Obs("withdrawn globally")
		}
		ask(&rules, 0, "undefined reference")
		if chance(r, 0.5) {
			set(&rules, p1, false, "set definitions")
			ask(&rules, w1, "definitions set after a failure")
		}
		unchanged(&rules)
		t.Obs("undefined")
	default: // nothing defined at all
		rules := load()
		ask(&rules, 0, "no definitions")
		set(&rules, me.PredefinedStringsAndLists{}, true, "set empty definitions")
		ask(&rules, 0, "empty definitions")
		global(p1, "global")
		rules2 := load()
		ask(&rules2, w1, "global definitions")
		unchanged(&rules2)
		t.Obs("undefined")
	}
	if w1 > 0 {
		t.Obs("applies")
	} else {
		t.Obs("does not apply")
	}
	t.Eval(text + d1.text(nil) + jsonText(d["message"]))
	d["steps"] = steps
	t.Sample(fmt.Sprint("case ", kind), d)
}

// badDefinitions: a list item referring to an undefined string is an error and leaves the definitions in force
func (t *T) badDefinitions() {
	r := t.R
	good := newDefs()
	good.strs["s"] = "svc1"
	good.lists["l"] = []string{"svc1", "#s"}
	bad := newDefs()
	bad.strs["t"] = "svc2"
	bad.lists["l"] = []string{"svc2", "#t"}
	at := r.Intn(3)
	l := []string{"a", "#t", "b"}
	l[at] = pick(r, []string{"#s", "#missing", "#l", "#", "##t"})
	bad.lists[pick(r, []string{"k", "l2", "zz"})] = l
	d := D{"definitions": bad.detail()}
	t.Begin(bad.text(nil))
	defer func() { me.GlobalPredefinedStringsAndLists = me.PredefinedStringsAndLists{} }()
	if _, err := t.loadDefs(bad, d); err == nil {
		t.Fail("a list item referring to an undefined string was accepted", d)
	}
	p, err := t.loadDefs(good, d)
	if err != nil {
		t.Fail("valid definitions were rejected", D{"definitions": good.detail()})
	}
	t.Call("SetGlobalPredefinedStringsAndLists", d, func() { err = me.SetGlobalPredefinedStringsAndLists(p) })
	if err != nil {
		t.Fail("valid definitions were rejected", D{"definitions": good.detail()})
	}
	t.Call("SetGlobalPredefinedStringsAndLists", d, func() {
		err = me.SetGlobalPredefinedStringsAndLists(me.PredefinedStringsAndLists{PredefinedStrings: bad.strs, PredefinedLists: bad.lists})
	})
	if err == nil {
		t.Fail("global definitions with a list item referring to an undefined string were accepted", d)
	}
	x := plainRule(nil)
	x.SenderName, x.SenderType = "#l", "workload"
	rules := t.mustLoad(rulesText([]*ref.Rule{x}, r), d)
	for _, s := range []string{"svc1", "svc2"} {
		msg := buildMsg(&ref.Msg{SenderName: s}, formNone, nil)
		var got int
		t.Call("Check", d, func() { got, _, _, _, _, _, _ = me.Check(msg, &rules) })
		if (got > 0) != (s == "svc1") {
			d["sender"], d["got"] = s, got
			t.Fail("rejected global definitions changed the outcome", d)
		}
	}
	t.Obs("bad definitions")
	t.Eval("bad" + bad.text(nil))
}

// manyRules: every rule of a list is prepared with the definitions it is loaded with
func (t *T) manyRules(x *ref.Rule, p me.PredefinedStringsAndLists, want int, msg *me.MessageAttributes, d D) {
	k := 2 + t.R.Intn(10)
	if chance(t.R, 0.1) {
		k = bigSize(t.R, 257)
	}
	var xs []*ref.Rule
	for i := 0; i < k; i++ {
		xs = append(xs, x)
	}
	text := rulesText(xs, t.R)
	var rules me.Rules
	var err error
	t.Call("YamlReadRulesFromStringWithPredefinedStrings", d, func() { rules, err = me.YamlReadRulesFromStringWithPredefinedStrings(text, p) })
	if err != nil || len(rules.Rules) != k {
		d["list"], d["error"] = text, fmt.Sprint(err)
		t.Fail("loading a list of rules with defined references failed", d)
	}
	var results []int
	t.Call("Check", d, func() { _, _, _, results, _, _, _ = me.Check(msg, &rules) })
	for i, got := range results {
		if got != want {
			d["list"], d["position"], d["expected"], d["got"] = text, i, want, got
			t.Fail("a rule with references in a list does not decide like the written-out rule", d)
		}
	}
	t.Obs("list of rules")
}
