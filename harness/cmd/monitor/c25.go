//go:build !only || c25

package main

import (
	"fmt"
	"math/rand"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"

	"verif/harness/ref"
)

func init() {
	checks["C25"] = &check{run: c25, rule: "random lists of 1-3 rules and two messages which agree in everything the rules name: all other attributes, labels and document parts drawn anew, taken away or damaged; both messages checked in turn by the list and rule by rule; non-trivial: a rule with conditions or restricted parts and at least two kinds of changes", minQuick: 6000,
		need: map[string]int{"applies": 6000, "does not apply": 6000, "attribute": 16000, "label": 8000, "document part": 6000, "inside elements": 500, "list element": 300, "document taken away": 500, "document damaged": 500, "data": 300, "same rules": 2000, "loaded again": 2000}}
}

// named is what a list of rules reads of a message
type named struct {
	attrs            map[string]bool // fields of the message
	sLabels, rLabels map[string]bool
	paths            []docPath
	doc              bool // any part of the document
}

// docPath is a place of the document which is read
type docPath struct {
	segs []ref.Seg
	elem bool // only that there is an element here, not what it holds
}

func namedBy(xs []*ref.Rule) *named {
	n := &named{attrs: map[string]bool{}, sLabels: map[string]bool{}, rLabels: map[string]bool{}}
	for _, x := range xs {
		n.side(x.SenderName, x.SenderType, "sender")
		n.side(x.ReceiverName, x.ReceiverType, "receiver")
		if x.Operation != "*" {
			n.attrs["method"] = true
		}
		switch x.Protocol {
		case "*":
		case "tcp":
			n.attrs["port"] = true
		default:
			n.attrs["protocol"] = true
			if x.ResType != "*" {
				n.attrs["type"] = true
			}
			if x.ResName != "*" {
				n.attrs["path"] = true
			}
		}
		if x.Cond != nil {
			n.cond(x.Cond, nil)
		}
	}
	return n
}

func (n *named) side(name, typ, who string) {
	switch {
	case name == "*" && (typ == "*" || typ == "workload"):
	case typ == "subnet":
		n.attrs[who+" ip"] = true
	case typ == "hostname" && who == "receiver":
		n.attrs["host"] = true
	case typ == "workload" || typ == "*":
		n.attrs[who+" name"] = true
	default:
		n.attrs[who+" name"], n.attrs[who+" ip"], n.attrs["host"] = true, true, true
	}
}

func (n *named) read(p ref.Path, elems [][]ref.Seg, elem bool) {
	n.doc = true
	if p.Root == ref.Abs {
		n.paths = append(n.paths, docPath{p.Segs, elem})
		return
	}
	for _, e := range elems {
		segs := append([]ref.Seg(nil), e...)
		if p.Root == ref.Rel && !p.Whole { // else the element as a whole
			segs = append(segs, p.Segs...)
		}
		n.paths = append(n.paths, docPath{segs, elem})
	}
}

// cond notes what a tree reads; elems are the places of the element it is about
func (n *named) cond(c *ref.Node, elems [][]ref.Seg) {
	for _, k := range ref.SortedKeys(c.Ret) {
		n.read(c.Ret[k], elems, false)
	}
	switch c.Op {
	case "LEAF":
		if c.Path != nil {
			n.read(*c.Path, elems, false)
			return
		}
		n.attr(c.Attr)
		n.attr(c.ValueText())
		return
	case "ANY", "ALL":
		var inner [][]ref.Seg
		for _, p := range c.Parent {
			if p.Whole {
				n.read(p, elems, false)
				continue
			}
			segs := append([]ref.Seg(nil), p.Segs...)
			if k := len(segs); k == 0 || !segs[k-1].All {
				segs = append(segs, ref.A())
			}
			from := [][]ref.Seg{nil}
			if p.Root != ref.Abs {
				from = elems
			}
			for _, e := range from {
				inner = append(inner, append(append([]ref.Seg(nil), e...), segs...))
			}
		}
		n.doc = true
		for _, e := range inner {
			n.paths = append(n.paths, docPath{e, true})
		}
		elems = inner
	}
	for _, k := range c.Kids {
		n.cond(k, elems)
	}
	for _, k := range ref.SortedKeys(c.Ret) {
		n.read(c.Ret[k], elems, false)
	}
}

func (n *named) attr(a string) {
	switch {
	case strings.HasPrefix(a, "senderLabel["):
		n.sLabels[strings.TrimSuffix(strings.TrimPrefix(a, "senderLabel["), "]")] = true
	case strings.HasPrefix(a, "receiverLabel["):
		n.rLabels[strings.TrimSuffix(strings.TrimPrefix(a, "receiverLabel["), "]")] = true
	default:
		n.attrs[a] = true
	}
}

// otherLabels keeps the labels which are named and draws all others anew
func otherLabels(r *rand.Rand, old, fresh map[string]string, named map[string]bool) map[string]string {
	out := map[string]string{}
	for _, k := range sortedKeys(old) {
		if named[k] || chance(r, 0.2) {
			out[k] = old[k]
		}
	}
	add := func(k, v string) {
		if !named[k] {
			out[k] = v
		}
	}
	for k, v := range fresh {
		add(k, v)
	}
	for _, k := range sortedKeys(named) { // nearly a label which is named
		if v, ok := old[k]; ok && chance(r, 0.3) {
			add(pick(r, []string{strings.ToUpper(k), k + "x", "x" + k, strings.Title(k), k + ".", " " + k}), v)
		}
	}
	if len(out) == 0 && chance(r, 0.5) {
		return nil
	}
	return out
}

// freeValue is a value at a place which nobody reads
func freeValue(r *rand.Rand, like interface{}) interface{} {
	switch r.Intn(9) {
	case 0:
		return nil
	case 1:
		return pick(r, []interface{}{M{}, L{}, "", L{M{}}, L{L{}}, false, num("0"), L{nil}, L{"", num("1"), true}})
	case 2:
		return genDoc(r)
	case 3, 4:
		return like
	case 5:
		return L{like, genElem(r, 1), like}
	case 6:
		return M{genKey(r): like, "name": genWord(r), "items": L{genElem(r, 1)}}
	}
	return genScalar(r)
}

// disturb changes a document everywhere but at the given places
func (t *T) disturb(v interface{}, paths []docPath, inElem bool) interface{} {
	r := t.R
	elem := false
	for _, p := range paths {
		if len(p.segs) == 0 {
			if !p.elem {
				return v
			}
			elem = true
		} else if p.segs[0].Deep {
			return v
		}
	}
	rest := func(match func(s ref.Seg) bool) (out []docPath) {
		for _, p := range paths {
			if len(p.segs) > 0 && match(p.segs[0]) {
				out = append(out, docPath{p.segs[1:], p.elem})
			}
		}
		return out
	}
	switch x := v.(type) {
	case M:
		for _, p := range paths {
			if len(p.segs) > 0 && (p.segs[0].All || p.segs[0].IsIdx) {
				return v
			}
		}
		out := M{}
		var known []string
		for _, k := range sortedKeys(x) {
			if ps := rest(func(s ref.Seg) bool { return s.Name == k }); len(ps) > 0 {
				out[k] = t.disturb(x[k], ps, inElem || elem)
				known = append(known, k)
				continue
			}
			switch r.Intn(4) {
			case 0: // taken away
			case 1:
				out[k] = x[k]
				continue
			default:
				out[k] = freeValue(r, x[k])
			}
			t.changedPart(inElem || elem)
		}
		for _, p := range paths { // places which are read though nothing is there
			if len(p.segs) > 0 && p.segs[0].Name != "" {
				if _, ok := x[p.segs[0].Name]; !ok {
					known = append(known, p.segs[0].Name)
				}
			}
		}
		for i := r.Intn(3); i > 0; i-- {
			k := genKey(r)
			var like interface{} = genWord(r)
			if len(known) > 0 {
				n := pick(r, known)
				if v, ok := x[n]; ok {
					like = v
				}
				if chance(r, 0.7) {
					k = pick(r, []string{n + "x", "x" + n, strings.ToUpper(n), strings.ToUpper(n), strings.ToLower(n), strings.Title(n), n + n, n + "_1"})
				}
			}
			if len(rest(func(s ref.Seg) bool { return s.Name == k })) > 0 {
				continue
			}
			if _, ok := out[k]; ok {
				continue
			}
			out[k] = freeValue(r, like)
			t.changedPart(inElem || elem)
		}
		return out
	case L:
		if elem {
			return v
		}
		all, last := false, -1
		for _, p := range paths {
			switch {
			case p.segs[0].All:
				all = true
			case p.segs[0].IsIdx:
				if p.segs[0].Idx > last {
					last = p.segs[0].Idx
				}
			default:
				return v
			}
		}
		out := L{}
		for i, e := range x {
			ps := rest(func(s ref.Seg) bool { return s.All || s.IsIdx && s.Idx == i })
			if len(ps) > 0 {
				out = append(out, t.disturb(e, ps, inElem))
				continue
			}
			if i > last && chance(r, 0.3) {
				t.Obs("list element")
				continue
			}
			out = append(out, freeValue(r, e))
			t.Obs("list element")
		}
		if !all && last < len(x) {
			for i := r.Intn(3); i > 0; i-- {
				out = append(out, freeValue(r, genWord(r)))
				t.Obs("list element")
			}
		}
		return out
	}
	return v
}

func (t *T) changedPart(inElem bool) {
	t.Obs("document part")
	if inElem {
		t.Obs("inside elements")
	}
}

// other is a message which agrees with m in everything which is named
func (t *T) other(m *ref.Msg, n *named, words []string) (*ref.Msg, map[string]bool) {
	r := t.R
	f := genBasicMsg(r)
	genMsgAttrs(r, f)
	o := *m
	kinds := map[string]bool{}
	text := func(name string, p *string, fresh string) {
		if n.attrs[name] || chance(r, 0.2) {
			return
		}
		switch r.Intn(6) {
		case 0:
			fresh = ""
		case 1: // a text which is known from elsewhere
			fresh = pick(r, words)
		case 2:
			fresh = pick(r, []string{m.SenderName, m.ReceiverName, m.Path, m.Host, m.Domain, m.Method, m.Port, "*", "true", "$sender.namespace"})
		}
		if *p != fresh {
			*p = fresh
			t.Obs("attribute")
			kinds["attribute"] = true
		}
	}
	text("sender name", &o.SenderName, f.SenderName)
	text("receiver name", &o.ReceiverName, f.ReceiverName)
	text("sender ip", &o.SenderIP, f.SenderIP)
	text("receiver ip", &o.ReceiverIP, f.ReceiverIP)
	text("host", &o.Host, f.Host)
	text("port", &o.Port, f.Port)
	text("path", &o.Path, f.Path)
	text("method", &o.Method, f.Method)
	text("protocol", &o.Protocol, f.Protocol)
	text("type", &o.Type, f.Type)
	text("$sender.namespace", &o.SenderNamespace, f.SenderNamespace)
	text("$sender.cluster", &o.SenderCluster, f.SenderCluster)
	text("$receiver.namespace", &o.ReceiverNamespace, f.ReceiverNamespace)
	text("$receiver.cluster", &o.ReceiverCluster, f.ReceiverCluster)
	text("requestUseragent", &o.UserAgent, f.UserAgent)
	text("encryptionType", &o.EncType, f.EncType)
	text("domain", &o.Domain, f.Domain)
	text("id", &o.ID, f.ID)
	if !n.attrs["payloadSize"] && chance(r, 0.8) {
		o.Size = f.Size
	}
	if !n.attrs["utcHoursFromMidnight"] && chance(r, 0.8) {
		o.Hours = f.Hours
	}
	if !n.attrs["encryptionVersion"] && chance(r, 0.8) {
		o.EncVersion = f.EncVersion
	}
	if chance(r, 0.8) {
		o.SenderLabels = otherLabels(r, m.SenderLabels, f.SenderLabels, n.sLabels)
		o.ReceiverLabels = otherLabels(r, m.ReceiverLabels, f.ReceiverLabels, n.rLabels)
		t.Obs("label")
		kinds["label"] = true
	}
	if m.HasDoc && chance(r, 0.85) {
		if !n.doc && chance(r, 0.3) {
			o.Doc, o.HasDoc = nil, false
			t.Obs("document taken away")
		} else {
			o.Doc = t.disturb(m.Doc, n.paths, false)
		}
		kinds["document"] = true
	}
	return &o, kinds
}

// ruleWords are texts which match something the rules say
func ruleWords(xs []*ref.Rule) []string {
	var out []string
	add := func(list string) {
		for _, w := range strings.Split(list, ",") {
			out = append(out, strings.NewReplacer("*", "x", "?", "y").Replace(strings.TrimSpace(w)))
		}
	}
	for _, x := range xs {
		add(x.SenderName)
		add(x.ReceiverName)
		add(x.ResName)
		add(x.Operation)
		if x.Cond != nil {
			x.Cond.Walk(func(l *ref.Node) {
				if s, ok := l.Value.(string); ok && l.Op == "LEAF" {
					add(s)
				}
			})
		}
	}
	return out
}

func c25(t *T) {
	for i := t.N(24000, 300000); i > 0; i-- {
		t.namedCase()
	}
}

func (t *T) namedCase() {
	r := t.R
	m := genBasicMsg(r)
	genMsgAttrs(r, m)
	if chance(r, 0.9) {
		m.Doc, m.HasDoc = genDoc(r), true
	}
	var xs []*ref.Rule
	restricted := false
	for k := 1 + r.Intn(3); k > 0; k-- {
		var cond *ref.Node
		if chance(r, 0.75) {
			cm := m
			if chance(r, 0.3) { // conditions on attributes alone
				c := *m
				c.Doc, c.HasDoc = nil, false
				cm = &c
			}
			cond = genTree(r, cm, r.Intn(4), treeOpts{ret: true, attrs: true, absInside: true, deep: chance(r, 0.3), multi: true, star: true, mapOrder: true})
		}
		single := chance(r, 0.2)
		if single { // one condition decides
			cond = attrLeaf(r, m)
			if m.HasDoc && chance(r, 0.7) {
				cond = docLeaf(r, ref.Abs, m.Doc, 3)
				if chance(r, 0.4) { // read though nothing is there
					cond.Path.Segs[len(cond.Path.Segs)-1] = ref.N(genKey(r))
				}
			}
		}
		x := genRule(r, m, fmt.Sprintf("r%d", k), cond)
		if single || chance(r, 0.3) {
			p := plainRule(cond)
			p.ID, p.Decision = x.ID, x.Decision
			switch {
			case single:
			case chance(r, 0.5):
			case chance(r, 0.25):
				p.SenderName, p.SenderType = genSide(r, m.SenderName, m.SenderIP, "", false)
			case chance(r, 0.3):
				p.ReceiverName, p.ReceiverType = genSide(r, m.ReceiverName, m.ReceiverIP, m.Host, true)
			case chance(r, 0.3):
				p.Operation = genOperation(r, m)
			default:
				p.Cond = nil
				genResource(r, m, p)
			}
			x = p
		}
		restricted = restricted || cond != nil || x.SenderName != "*" || x.ReceiverName != "*" || x.Protocol != "*" || x.Operation != "*"
		xs = append(xs, x)
	}
	n := namedBy(xs)
	o, kinds := t.other(m, n, ruleWords(xs))
	if !t.InDomain(func() {
		for _, x := range xs {
			a, da := ref.Applies(x, m)
			b, db := ref.Applies(x, o)
			if a != b || !sameList(sortedCopy(normData(da)), sortedCopy(normData(db))) {
				panic(fmt.Sprintf("the reference reads more than what was taken for named: %s\n%v\n%v", jsonText(ruleGeneric(x, nil)), msgDetail(m), msgDetail(o)))
			}
		}
	}) {
		return
	}
	text := rulesText(xs, r)
	form := pick(r, docForms)
	a, b := buildMsg(m, form, r), buildMsg(o, form, r)
	d := D{"rules": text, "message": msgDetail(m), "other message": msgDetail(o)}
	if !n.doc && chance(r, 0.3) { // a document which nobody reads may hold anything
		s := docText(genDoc(r), r)
		raw := []byte(pick(r, []string{"", "{", "[", "nul", "\x00\xff", "}", "{\"a\":", s[:r.Intn(len(s)+1)], s + s, "\"" + s, " "}))
		d["other document"] = string(raw)
		b.RequestJsonRaw = &raw
		t.Obs("document damaged")
		kinds["document"] = true
	}
	t.Begin(text)
	rules := t.mustLoad(text, d)
	rules2 := rules
	if chance(r, 0.5) {
		rules2 = t.mustLoad(text, d)
		t.Obs("loaded again")
	} else {
		t.Obs("same rules")
	}
	check := func(rules *me.Rules, msg *me.MessageAttributes) []string {
		var out []string
		var dec, rel int
		var str, desc string
		var results, applied []int
		var extra [][]map[string]interface{}
		t.Call("Check", d, func() { dec, str, rel, results, applied, desc, extra = me.Check(msg, rules) })
		out = append(out, fmt.Sprint(dec, str, rel, results, applied, desc))
		for i, e := range extra {
			if i < len(results) && results[i] > 0 {
				out = append(out, fmt.Sprint(i, sortedCopy(normData(e))))
				if len(e) > 0 {
					t.Obs("data")
				}
			}
		}
		for i := range rules.Rules {
			var got int
			var data []map[string]interface{}
			t.Call("rule.Check", d, func() { got, data = rules.Rules[i].Check(msg) })
			out = append(out, fmt.Sprint(i, got))
			if got > 0 {
				out = append(out, fmt.Sprint(sortedCopy(normData(data))))
				t.Obs("applies")
			} else {
				t.Obs("does not apply")
			}
		}
		return out
	}
	first := check(&rules, a)
	for i := 1 + r.Intn(2); i > 0; i-- {
		if got := check(&rules2, b); !sameList(got, first) {
			d["expected"], d["got"] = first, got
			t.Fail("two messages which agree in everything the rules name are decided differently", d)
		}
		if got := check(&rules, a); !sameList(got, first) {
			d["expected"], d["got"] = first, got
			t.Fail("a message is decided differently after another message was checked", d)
		}
	}
	key := ""
	if restricted && len(kinds) > 1 {
		key = text
	}
	t.Eval(key)
	t.Sample(fmt.Sprint("document read ", n.doc), d)
}
