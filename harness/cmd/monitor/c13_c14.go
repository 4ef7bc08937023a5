package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"

	"verif/harness/ref"
)

func init() {
	checks["C13"] = &check{run: c13, rule: "random sequences of 10-40 public operations on 1-4 shared rules and 1-3 shared messages; every answer is compared with the reference and with the answer on fresh copies, and rules and messages are compared with fresh copies afterwards; non-trivial: a sequence in which at least one check follows another operation on the same rule", minQuick: 1500,
		need: map[string]int{"op Check": 2000, "op CheckOneRule": 2000, "op rule.Check": 2000, "op TestConditions": 2000, "op hash": 2000, "op ToMongoQuery": 2000, "op ValidateRule": 2000, "op save": 2000, "op prepare": 2000, "op coverage": 500, "snapshot": 5000, "repeated": 2000, "worn": 24, "refilled": 5000, "repeated pair condition": 1000}}
	checks["C14"] = &check{run: c14, rule: "rounds of goroutines started together on shared rules (fresh or prepared) and shared messages, under the race detector; every answer is compared with the sequential one; non-trivial: each round", minQuick: 300,
		need:       map[string]int{"round fresh": 100, "round prepared": 50, "op check": 5000, "op check list": 3000, "op mongo": 500, "op hash": 150, "op load": 300, "op validate": 300, "same rule first used by several": 100, "round with references": 100},
		assumption: []string{"the race detector sees the interleavings that happened; goroutines are started together on several processors and repeated"}}
}

// world is a set of rules and messages with the expected answers
type world struct {
	xs    []*ref.Rule
	text  string
	ms    []*ref.Msg
	forms []string
	seeds []int64
	want  [][]int      // rule, message
	data  [][][]string // sorted
	cond  [][]bool
	hash  []string
	mongo []string

	invalid []bool // a reference as the name of a subnet is not validated
	sameIDs bool   // all messages have the same identifier
}

func (w *world) msg(i int) *me.MessageAttributes {
	return buildMsg(w.ms[i], w.forms[i], rand.New(rand.NewSource(w.seeds[i])))
}

func mongoText(res me.MaplToMongoResult, err error) string {
	if err != nil {
		return "error"
	}
	b, e := json.Marshal(res.Query)
	if e != nil {
		return "unmarshalable " + e.Error()
	}
	return fmt.Sprintf("%v %s", res.Type, b)
}

// genWorld makes rules and messages; nil when out of the oracle's domain
func (t *T) genWorld(r *rand.Rand, maxRules, maxMsgs int) *world {
	w := &world{sameIDs: chance(r, 0.2)}
	nm := 1 + r.Intn(maxMsgs)
	for i := 0; i < nm; i++ {
		m := genBasicMsg(r)
		m.ID = fmt.Sprintf("m%d", i)
		if w.sameIDs {
			m.ID = "m"
		}
		genMsgAttrs(r, m)
		if chance(r, 0.85) {
			m.Doc, m.HasDoc = genDoc(r), true
		}
		w.ms = append(w.ms, m)
		w.forms = append(w.forms, pick(r, docForms))
		w.seeds = append(w.seeds, 1+r.Int63n(1<<40))
	}
	nr := 1 + r.Intn(maxRules)
	for i := 0; i < nr; i++ {
		m := pick(r, w.ms)
		var cond *ref.Node
		if chance(r, 0.9) {
			cond = genTree(r, m, 1+r.Intn(3), treeOpts{attrs: true, ret: true, absInside: true, multi: true, mapOrder: true})
		}
		x := genRule(r, m, fmt.Sprintf("id%d", i), cond)
		if chance(r, 0.7) {
			d := x.Decision
			x = plainRule(cond)
			x.ID, x.Decision = fmt.Sprintf("id%d", i), d
		}
		switch r.Intn(4) {
		case 0:
			x.Meta = map[string]string{"description": pick(r, []string{"", "some text"}), "k": "v"}
		case 1:
			x.Meta = map[string]string{"owner": "a"}
		}
		w.xs = append(w.xs, x)
	}
	if !t.InDomain(func() {
		for _, x := range w.xs {
			var a []int
			var dd [][]string
			var cc []bool
			for _, m := range w.ms {
				v, data := ref.Applies(x, m)
				a = append(a, v)
				dd = append(dd, sortedCopy(normData(data)))
				c := true
				if x.Cond != nil {
					c, _ = ref.Eval(x.Cond, m)
				}
				cc = append(cc, c)
			}
			w.want = append(w.want, a)
			w.data = append(w.data, dd)
			w.cond = append(w.cond, cc)
		}
	}) {
		return nil
	}
	w.text = rulesText(w.xs, r)
	fresh := t.mustLoad(w.text, D{"rules": w.text})
	for i := range fresh.Rules {
		w.hash = append(w.hash, me.RuleMD5Hash(fresh.Rules[i]))
		d := D{"rules": w.text}
		var res me.MaplToMongoResult
		var err error
		t.Call("ToMongoQuery", d, func() { res, err = fresh.Rules[i].ToMongoQuery("raw") })
		w.mongo = append(w.mongo, mongoText(res, err))
		w.invalid = append(w.invalid, false)
		if w.xs[i].Cond == nil { // no outcome is specified for missing conditions: that of a fresh rule counts
			for j := range w.ms {
				t.Call("TestConditions", d, func() { w.cond[i][j], _ = fresh.Rules[i].TestConditions(w.msg(j)) })
			}
		}
	}
	return w
}

type snapshot struct{ Str, Hash, JSON, BSON, Strings string }

func snap(q *me.Rule) snapshot {
	js, e1 := json.Marshal(q)
	bs, e2 := bson.Marshal(q)
	var doc bson.M // the order of fields in BSON documents made from maps varies
	e3 := bson.Unmarshal(bs, &doc)
	return snapshot{me.RuleToString(*q), me.RuleMD5Hash(*q), string(js) + fmt.Sprint(e1), jsonText(doc) + fmt.Sprint(e2, e3), fmt.Sprint(me.GetRuleStrings(q))}
}

// same message: all public fields and the documents behind the pointers
func sameMsg(a, b *me.MessageAttributes) bool {
	x, y := reflect.ValueOf(*a), reflect.ValueOf(*b)
	for i := 0; i < x.NumField(); i++ {
		if x.Type().Field(i).IsExported() && !reflect.DeepEqual(x.Field(i).Interface(), y.Field(i).Interface()) {
			return false
		}
	}
	return true
}

func c13(t *T) {
	r := t.R
	for i := t.N(48, 480); i > 0; i-- {
		t.worn()
	}
	for i := t.N(1600, 24000); i > 0; i-- {
		t.refilled()
	}
	n := t.N(4000, 60000)
	for i := 0; i < n; i++ {
		t.repeated()
		w := t.genWorld(r, 4, 3)
		if w == nil {
			continue
		}
		var md []D
		for _, m := range w.ms {
			md = append(md, msgDetail(m))
		}
		log := []string{}
		d := D{"rules": w.text, "messages": md, "forms": w.forms}
		t.Begin(w.text)
		rules := t.mustLoad(w.text, d)
		ref0 := t.mustLoad(w.text, d)
		if h := r.Intn(3); h > 0 { // stored hashes: right or not
			for k := range rules.Rules {
				rules.Rules[k].Hash = w.hash[k]
				if h == 2 {
					rules.Rules[k].Hash = fmt.Sprintf("h%d", k)
				}
				ref0.Rules[k].Hash = rules.Rules[k].Hash
			}
		}
		var before []snapshot
		for k := range ref0.Rules {
			before = append(before, snap(&ref0.Rules[k]))
		}
		var msgs me.Messages
		for k := range w.ms {
			msgs.Messages = append(msgs.Messages, *w.msg(k))
		}
		fail := func(what string, e, g interface{}) {
			d["expected"], d["got"], d["history"] = e, g, log
			t.Fail(what, d)
		}
		seen := map[int]bool{}
		nontrivial := false
		ops := 10 + r.Intn(31)
		for o := 0; o < ops; o++ {
			ri, mi := r.Intn(len(w.xs)), r.Intn(len(w.ms))
			q, msg := &rules.Rules[ri], &msgs.Messages[mi]
			if seen[ri] {
				nontrivial = true
			}
			seen[ri] = true
			one := func(dec int, data []map[string]interface{}) {
				if dec != w.want[ri][mi] {
					fail("the answer depends on the history", w.want[ri][mi], dec)
				}
				if dec > 0 {
					if g := sortedCopy(normData(data)); !sameList(g, w.data[ri][mi]) {
						fail("the returned values depend on the history", w.data[ri][mi], g)
					}
				}
			}
			op := r.Intn(12)
			switch op {
			case 0:
				log = append(log, fmt.Sprintf("Check message %d", mi))
				var res []int
				var extra [][]map[string]interface{}
				t.Call("Check", d, func() { _, _, _, res, _, _, extra = me.Check(msg, &rules) })
				for k := range w.xs {
					if res[k] != w.want[k][mi] {
						fail(fmt.Sprintf("the answer of rule %d depends on the history", k), w.want[k][mi], res[k])
					}
					if res[k] > 0 {
						if g := sortedCopy(normData(extra[k])); !sameList(g, w.data[k][mi]) {
							fail("the returned values depend on the history", w.data[k][mi], g)
						}
					}
				}
				t.Obs("op Check")
			case 1:
				log = append(log, fmt.Sprintf("CheckOneRule rule %d message %d", ri, mi))
				var dec int
				var data []map[string]interface{}
				t.Call("CheckOneRule", d, func() { dec, data = me.CheckOneRule(msg, q) })
				one(dec, data)
				t.Obs("op CheckOneRule")
			case 2:
				log = append(log, fmt.Sprintf("rule.Check rule %d message %d", ri, mi))
				var dec int
				var data []map[string]interface{}
				t.Call("rule.Check", d, func() { dec, data = q.Check(msg) })
				one(dec, data)
				t.Obs("op rule.Check")
			case 3, 4:
				log = append(log, fmt.Sprintf("TestConditions rule %d message %d", ri, mi))
				var res bool
				t.Call("TestConditions", d, func() { res, _ = q.TestConditions(msg) })
				if res != w.cond[ri][mi] {
					fail("the outcome of the conditions depends on the history", w.cond[ri][mi], res)
				}
				t.Obs("op TestConditions")
			case 5:
				log = append(log, fmt.Sprintf("hash rule %d", ri))
				var h string
				t.Call("RuleMD5Hash", d, func() { h = me.RuleMD5Hash(*q); me.RuleMD5HashConditions(*q) })
				if h != w.hash[ri] {
					fail("the hash depends on the history", w.hash[ri], h)
				}
				t.Obs("op hash")
			case 6:
				log = append(log, fmt.Sprintf("ToMongoQuery rule %d", ri))
				var res me.MaplToMongoResult
				var err error
				t.Call("ToMongoQuery", d, func() { res, err = q.ToMongoQuery("raw") })
				if g := mongoText(res, err); g != w.mongo[ri] {
					fail("the translation depends on the history", w.mongo[ri], g)
				}
				t.Obs("op ToMongoQuery")
			case 7:
				log = append(log, fmt.Sprintf("ValidateRule rule %d", ri))
				var err error
				t.Call("ValidateRule", d, func() { err = me.ValidateRule(q) })
				if err != nil {
					fail("a valid rule became invalid", nil, err.Error())
				}
				t.Obs("op ValidateRule")
			case 8:
				log = append(log, fmt.Sprintf("save rule %d", ri))
				t.Call("save", d, func() { json.Marshal(q); bson.Marshal(q); _ = q.String(); me.GetRuleStrings(q) })
				t.Obs("op save")
			case 9:
				log = append(log, fmt.Sprintf("prepare rule %d", ri))
				var err error
				t.Call("SetPredefinedStringsAndLists", d, func() { err = q.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) })
				if err != nil {
					fail("preparing again failed", nil, err.Error())
				}
				t.Obs("op prepare")
			case 10:
				if w.sameIDs {
					continue
				}
				log = append(log, "Coverage")
				var mc map[string]me.MessageCoverage
				t.Call("Coverage", d, func() { mc, _ = me.Coverage(&msgs, &rules) })
				for k, m := range w.ms {
					best := 0
					for j := range w.xs {
						if w.want[j][k] > best {
							best = w.want[j][k]
						}
					}
					if mc[m.ID].Decision != best {
						fail("the coverage report depends on the history", best, mc[m.ID].Decision)
					}
				}
				t.Obs("op coverage")
			default:
				other := r.Intn(len(w.xs))
				log = append(log, fmt.Sprintf("ConditionsEqual rule %d rule %d", ri, other))
				t.Call("ConditionsEqual", d, func() { q.ConditionsEqual(rules.Rules[other]) })
			}
			if chance(r, 0.15) || o == ops-1 {
				t.Obs("snapshot")
				for k := range rules.Rules {
					if s := snap(&rules.Rules[k]); s != before[k] {
						fail(fmt.Sprintf("the content of rule %d changed", k), before[k], s)
					}
				}
				for k := range msgs.Messages {
					if f := w.msg(k); !sameMsg(&msgs.Messages[k], f) {
						fail(fmt.Sprintf("message %d changed", k), fmt.Sprintf("%+v", *f), fmt.Sprintf("%+v", msgs.Messages[k]))
					}
				}
			}
		}
		key := ""
		if nontrivial {
			key = w.text + fmt.Sprint(log)
		}
		t.Eval(key)
		d["history"] = log
		t.Sample(fmt.Sprint("rules ", len(w.xs)), d)
	}
}

// repeated: the same check gives the same answer, also where no outcome is specified (the key or value of
// something that is not a pair, objects taken as lists, parents that do not exist)
func (t *T) repeated() {
	r := t.R
	m := genBasicMsg(r)
	genMsgAttrs(r, m)
	m.Doc, m.HasDoc = genDoc(r), true
	cond := genTree(r, m, 1+r.Intn(3), treeOpts{attrs: true, ret: true, absInside: true, multi: true, mapOrder: true})
	cond.Walk(func(n *ref.Node) {
		if n.Op == "LEAF" && n.Path != nil && n.Path.Root != ref.Abs && chance(r, 0.5) {
			switch n.Path.Root = pick(r, []string{ref.Key, ref.Value, ref.Rel}); n.Path.Root {
			case ref.Key:
				n.Path.Segs = nil
			case ref.Value:
				if len(n.Path.Segs) > 1 {
					n.Path.Segs = n.Path.Segs[1:]
				}
			}
			t.Obs("repeated pair condition")
		}
	})
	x := plainRule(cond)
	text := rulesText([]*ref.Rule{x}, r)
	form, seed := pick(r, docForms), 1+r.Int63n(1<<40)
	build := func() *me.MessageAttributes { return buildMsg(m, form, rand.New(rand.NewSource(seed))) }
	d := D{"rules": text, "message": msgDetail(m), "form": form}
	t.Begin(text)
	var rules me.Rules
	var err error
	t.Call("YamlReadRulesFromString", d, func() { rules, err = me.YamlReadRulesFromString(text) })
	if err != nil {
		return
	}
	msg := build()
	var dec int
	var data []map[string]interface{}
	for k := 0; k < 8; k++ {
		if k == 3 {
			rules = t.mustLoad(text, d)
			msg = build()
		}
		var got int
		var gd []map[string]interface{}
		t.Call("CheckOneRule", d, func() { got, gd = me.CheckOneRule(msg, &rules.Rules[0]) })
		if k == 0 {
			dec, data = got, gd
			continue
		}
		if got != dec {
			d["first"], d["later"] = dec, got
			t.Fail("repeating a check gives another answer", d)
		}
		if a, b := sortedCopy(normData(data)), sortedCopy(normData(gd)); !sameList(a, b) {
			d["first"], d["later"] = a, b
			t.Fail("repeating a check returns other values", d)
		}
	}
	t.Obs("repeated")
	t.Eval(text + form)
}

// refWorld replaces the names in the rules of a world by references
func (t *T) refWorld(w *world) me.PredefinedStringsAndLists {
	r := t.R
	df := newDefs()
	put := func(name, text string) string {
		items := strings.Split(text, ",")
		if strings.HasPrefix(text, "#") || strings.Contains(text, ",#") {
			return text
		}
		if len(items) == 1 && chance(r, 0.5) {
			df.strs[name] = text
		} else {
			r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
			df.lists[name] = append(items, items...)
		}
		return "#" + name
	}
	for j, x := range w.xs {
		y := *x
		y.SenderName = put(fmt.Sprint("s", j), x.SenderName)
		y.ReceiverName = put(fmt.Sprint("r", j), x.ReceiverName)
		w.xs[j] = &y
	}
	w.text = rulesText(w.xs, r)
	d := D{"rules": w.text, "definitions": df.detail()}
	p, err := t.loadDefs(df, d)
	if err != nil {
		panic(err)
	}
	fresh := t.mustLoad(w.text, d)
	for i := range fresh.Rules {
		w.hash[i] = me.RuleMD5Hash(fresh.Rules[i])
		w.invalid[i] = me.ValidateRule(&fresh.Rules[i]) != nil
		alone := t.mustLoad(w.text, d)
		t.Call("SetPredefinedStringsAndLists", d, func() { alone.Rules[i].SetPredefinedStringsAndLists(p) })
		t.Call("ToMongoQuery", d, func() { w.mongo[i] = mongoText(alone.Rules[i].ToMongoQuery("raw")) })
		if w.xs[i].Cond == nil {
			for j := range w.ms {
				t.Call("TestConditions", d, func() { w.cond[i][j], _ = alone.Rules[i].TestConditions(w.msg(j)) })
			}
		}
	}
	return p
}

func c14(t *T) {
	r := t.R
	defer func() { me.GlobalPredefinedStringsAndLists = me.PredefinedStringsAndLists{} }()
	n := t.N(480, 6400)
	procs := runtime.GOMAXPROCS(0)
	if procs < 4 {
		runtime.GOMAXPROCS(4)
	}
	for i := 0; i < n; i++ {
		w := t.genWorld(r, 4, 2)
		if w == nil {
			continue
		}
		var p me.PredefinedStringsAndLists
		if chance(r, 0.4) {
			p = t.refWorld(w)
			t.Obs("round with references")
		}
		me.GlobalPredefinedStringsAndLists = p
		d := D{"rules": w.text, "forms": w.forms, "definitions": D{"strings": p.PredefinedStrings, "lists": p.PredefinedLists}}
		t.Begin(w.text)
		rules := t.mustLoad(w.text, d)
		prepared := chance(r, 0.4)
		if prepared {
			for k := range rules.Rules {
				t.Call("SetPredefinedStringsAndLists", d, func() { rules.Rules[k].SetPredefinedStringsAndLists(p) })
			}
			t.Obs("round prepared")
		} else {
			t.Obs("round fresh")
		}
		var msgs []*me.MessageAttributes
		for k := range w.ms {
			msgs = append(msgs, w.msg(k))
		}
		gs := 2 + r.Intn(7)
		perG := 6 + r.Intn(10)
		if !prepared && gs > 2 {
			t.Obs("same rule first used by several")
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		bad := make([]*Violation, gs)
		for g := 0; g < gs; g++ {
			wg.Add(1)
			go func(g int, seed int64) {
				defer wg.Done()
				gr := rand.New(rand.NewSource(seed))
				fail := func(what string, e, got interface{}) {
					if bad[g] == nil {
						bad[g] = &Violation{Property: t.Prop, What: what, Detail: D{"expected": e, "got": got}}
					}
				}
				<-start
				if p := try(func() {
					for o := 0; o < perG && bad[g] == nil; o++ {
						ri, mi := gr.Intn(len(w.xs)), gr.Intn(len(w.ms))
						if o == 0 {
							ri = 0 // all start with the same rule
						}
						q, msg := &rules.Rules[ri], msgs[mi]
						one := func(dec int, data []map[string]interface{}) {
							t.Obs("op check")
							if dec != w.want[ri][mi] {
								fail("concurrent check differs from the sequential one", w.want[ri][mi], dec)
							} else if dec > 0 {
								if g := sortedCopy(normData(data)); !sameList(g, w.data[ri][mi]) {
									fail("concurrent check returns other values", w.data[ri][mi], g)
								}
							}
						}
						switch k := gr.Intn(20); {
						case k < 5:
							one(q.Check(msg))
						case k < 8:
							one(me.CheckOneRule(msg, q))
						case k < 10:
							res, _ := q.TestConditions(msg)
							if res != w.cond[ri][mi] {
								fail("concurrent conditions differ from the sequential ones", w.cond[ri][mi], res)
							}
						case k < 15:
							_, _, _, res, _, _, extra := me.Check(msg, &rules)
							t.Obs("op check list")
							for j := range w.xs {
								if res[j] != w.want[j][mi] {
									fail("concurrent check differs from the sequential one", w.want[j][mi], res[j])
								} else if res[j] > 0 {
									if g := sortedCopy(normData(extra[j])); !sameList(g, w.data[j][mi]) {
										fail("concurrent check returns other values", w.data[j][mi], g)
									}
								}
							}
						case k < 17:
							t.Obs("op mongo")
							if g := mongoText(q.ToMongoQuery("raw")); g != w.mongo[ri] {
								fail("concurrent translation differs", w.mongo[ri], g)
							}
						case k == 17:
							if prepared {
								t.Obs("op hash")
								if h := me.RuleMD5Hash(*q); h != w.hash[ri] {
									fail("concurrent hash differs", w.hash[ri], h)
								}
							} else {
								one(q.Check(msg))
							}
						case k == 18:
							t.Obs("op load")
							rs, err := me.YamlReadRulesFromString(w.text)
							if gr.Intn(2) == 0 {
								rs, err = me.YamlReadRulesFromStringWithPredefinedStrings(w.text, p)
							}
							if err != nil {
								fail("concurrent loading failed", nil, err.Error())
							} else {
								one(rs.Rules[ri].Check(msg))
							}
						default:
							t.Obs("op validate")
							if err := me.ValidateRule(q); (err != nil) != w.invalid[ri] {
								fail("concurrent validation differs", w.invalid[ri], fmt.Sprint(err))
							}
							json.Marshal(q)
						}
					}
				}); p != nil {
					fail("engine panic in a concurrent call", nil, p.String()+"\n"+p.stack)
				}
			}(g, r.Int63())
		}
		close(start)
		wg.Wait()
		for _, b := range bad {
			if b != nil {
				for k, v := range b.Detail {
					d[k] = v
				}
				t.Fail(b.What, d)
			}
		}
		// the shared messages are unchanged
		for k := range msgs {
			if !sameMsg(msgs[k], w.msg(k)) {
				t.Fail("a shared message changed", d)
			}
		}
		t.Eval(w.text + fmt.Sprint(gs, prepared))
		d["goroutines"], d["prepared"] = gs, prepared
		t.Sample(fmt.Sprint("prepared ", prepared), d)
	}
}

// worn asks one rule and one message the same many times
func (t *T) worn() {
	r := t.R
	w := t.genWorld(r, 1, 1)
	if w == nil {
		return
	}
	d := D{"rules": w.text, "message": msgDetail(w.ms[0]), "form": w.forms[0]}
	t.Begin(w.text)
	rules := t.mustLoad(w.text, d)
	rule := &rules.Rules[0]
	msg := w.msg(0)
	var dec int
	var data []map[string]interface{}
	var cond bool
	for k := 0; k < 6000; k++ {
		switch k % 3 {
		case 0:
			t.Call("CheckOneRule", d, func() { dec, data = me.CheckOneRule(msg, rule) })
		case 1:
			t.Call("rule.Check", d, func() { dec, data = rule.Check(msg) })
		default:
			var all [][]map[string]interface{}
			t.Call("Check", d, func() { dec, _, _, _, _, _, all = me.Check(msg, &rules) })
			data = all[0]
		}
		if dec != w.want[0][0] {
			d["expected"], d["got"], d["times"] = w.want[0][0], dec, k+1
			t.Fail("a check repeated many times gives another answer", d)
		}
		if k%100 != 99 {
			continue
		}
		if g := sortedCopy(normData(data)); dec > 0 && !sameList(g, w.data[0][0]) {
			d["expected"], d["got"], d["times"] = w.data[0][0], g, k+1
			t.Fail("a check repeated many times returns other values", d)
		}
		t.Call("TestConditions", d, func() { cond, _ = rule.TestConditions(msg) })
		if cond != w.cond[0][0] {
			d["expected"], d["got"], d["times"] = w.cond[0][0], cond, k+1
			t.Fail("conditions tested many times give another answer", d)
		}
	}
	for k := 0; k < 300; k++ {
		if h := me.RuleMD5Hash(*rule); h != w.hash[0] {
			d["times"] = k + 1
			t.Fail("a hash computed many times changes", d)
		}
		var res me.MaplToMongoResult
		var err error
		t.Call("ToMongoQuery", d, func() { res, err = rule.ToMongoQuery("raw") })
		if g := mongoText(res, err); g != w.mongo[0] {
			d["expected"], d["got"], d["times"] = w.mongo[0], g, k+1
			t.Fail("a translation repeated many times changes", d)
		}
		t.Call("ValidateRule", d, func() { err = me.ValidateRule(rule) })
		if err != nil {
			d["times"], d["error"] = k+1, err.Error()
			t.Fail("a validation repeated many times changes", d)
		}
	}
	t.Obs("worn")
	t.Eval("worn" + w.text)
}

// refilled uses one message object for one message after the other
func (t *T) refilled() {
	r := t.R
	w := t.genWorld(r, 3, 4)
	if w == nil || len(w.ms) < 2 {
		return
	}
	var md []D
	for _, m := range w.ms {
		md = append(md, msgDetail(m))
	}
	d := D{"rules": w.text, "messages": md, "forms": w.forms}
	t.Begin(w.text)
	rules := t.mustLoad(w.text, d)
	msg := &me.MessageAttributes{}
	var raw []byte
	var decoded interface{} = map[string]interface{}{}
	order := []int{}
	for k := 0; k < 10; k++ {
		j := r.Intn(len(w.ms))
		order = append(order, j)
		*msg = *w.msg(j)
		if msg.RequestJsonRaw != nil {
			raw = append(raw[:0], *msg.RequestJsonRaw...)
			msg.RequestJsonRaw = &raw
		}
		if msg.RequestRawInterface != nil {
			o, isMap := (*msg.RequestRawInterface).(map[string]interface{})
			kept, was := decoded.(map[string]interface{})
			if isMap && was {
				for key := range kept {
					delete(kept, key)
				}
				for key, v := range o {
					kept[key] = v
				}
			} else {
				decoded = *msg.RequestRawInterface
			}
			msg.RequestRawInterface = &decoded
		}
		for i := range rules.Rules {
			var dec int
			var data []map[string]interface{}
			t.Call("CheckOneRule", d, func() { dec, data = me.CheckOneRule(msg, &rules.Rules[i]) })
			if dec != w.want[i][j] {
				d["order"], d["rule"], d["expected"], d["got"] = order, i, w.want[i][j], dec
				t.Fail("a message object used for another message gives the wrong answer", d)
			}
			if g := sortedCopy(normData(data)); dec > 0 && !sameList(g, w.data[i][j]) {
				d["order"], d["rule"], d["expected"], d["got"] = order, i, w.data[i][j], g
				t.Fail("a message object used for another message returns other values", d)
			}
			t.Obs("refilled")
		}
	}
	t.Eval("refilled" + w.text)
}
