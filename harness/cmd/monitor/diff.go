package main

import (
	"math/rand"

	me "github.com/octarinesec/MAPL/MAPL_engine"

	"verif/harness/ref"
)

type diffOpts struct {
	data  bool // compare returned values too
	order bool // their order too
}

// treeMismatch runs one tree on one message through the engine; "" when it agrees with the reference
func (t *T) treeMismatch(tree *ref.Node, m *ref.Msg, form string, spell int64, o diffOpts) (what string, d D, want, ok bool) {
	var wantData ref.Data
	if !t.InDomain(func() { want, wantData = ref.Eval(tree, m) }) {
		return "", nil, false, false
	}
	var r *rand.Rand
	if spell != 0 {
		r = rand.New(rand.NewSource(spell))
	}
	text := rulesText([]*ref.Rule{plainRule(tree)}, r)
	d = D{"rules": text, "message": msgDetail(m), "form": form}
	t.Begin(text)
	rules, err := t.load(text, d)
	if err != nil {
		d["error"] = err.Error()
		return "a valid rule was rejected when loading", d, want, true
	}
	msg := buildMsg(m, form, r)
	if msg.RequestJsonRaw != nil {
		d["raw"] = string(*msg.RequestJsonRaw)
	}
	var dec int
	var data []map[string]interface{}
	switch spell % 4 {
	case 0:
		d["via"] = "rule.Check"
		t.Call("rule.Check", d, func() { dec, data = rules.Rules[0].Check(msg) })
	case 1:
		d["via"] = "CheckOneRule"
		t.Call("CheckOneRule", d, func() { dec, data = me.CheckOneRule(msg, &rules.Rules[0]) })
	case 2:
		d["via"] = "TestConditions"
		t.Call("TestConditions", d, func() {
			var res bool
			res, data = rules.Rules[0].TestConditions(msg)
			if res {
				dec = me.BLOCK
			}
		})
	default:
		d["via"] = "Check"
		t.Call("Check", d, func() {
			var x [][]map[string]interface{}
			dec, _, _, _, _, _, x = me.Check(msg, &rules)
			if len(x) > 0 {
				data = x[0]
			}
		})
	}
	wantDec := me.DEFAULT
	if want {
		wantDec = me.BLOCK
	}
	if dec != wantDec {
		d["expected"], d["got"] = wantDec, dec
		return "decision differs from the expected outcome", d, want, true
	}
	if o.data {
		if !want {
			if len(normData(data)) != 0 && spell%4 != 2 {
				d["expected"], d["got"] = "no data", data
				return "a rule which does not apply returned values", d, want, true
			}
			return "", d, want, true
		}
		a, b := normData(wantData), normData(data)
		if !o.order {
			a, b = sortedCopy(a), sortedCopy(b)
		}
		if !sameList(a, b) {
			d["expected"], d["got"] = a, b
			return "returned values differ from the expected ones", d, want, true
		}
		if len(a) > 0 {
			t.Obs("returned values")
		}
		if len(a) > 1 {
			t.Obs("several returned values")
		}
	}
	return "", d, want, true
}

// diffTree compares the engine with the reference evaluator on one tree and message
func (t *T) diffTree(tree *ref.Node, m *ref.Msg, form string, o diffOpts) (want, ok bool) {
	spell := 1 + t.R.Int63n(1<<40)
	what, d, want, ok := t.treeMismatch(tree, m, form, spell, o)
	if !ok {
		return
	}
	if what != "" {
		first := d
		for _, sp := range []int64{4, 5, 6, 7, spell} {
			w, _, _, k := t.treeMismatch(tree, m, form, sp, o)
			if !k || w != what {
				continue
			}
			t2, m2 := shrink(tree, m, func(n *ref.Node, mm *ref.Msg) bool {
				w, _, _, k := t.treeMismatch(n, mm, form, sp, o)
				return k && w == what
			})
			_, d, _, _ = t.treeMismatch(t2, m2, form, sp, o)
			break
		}
		d["unshrunk"] = first
		t.Fail(what, d)
	}
	if want {
		t.Obs("true")
	} else {
		t.Obs("false")
	}
	key := d["rules"].(string)
	if m.HasDoc {
		key += d["message"].(D)["Doc"].(string)
	}
	t.Eval(key)
	t.Sample(form, d)
	return
}
