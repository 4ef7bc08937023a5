package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"gopkg.in/yaml.v2"

	"verif/harness/ref"
)

// ---- rendering of structured rules as rule texts -----------------------------------------------

func simpleName(s string) bool {
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || (i > 0 && c >= '0' && c <= '9')) {
			return false
		}
	}
	return s != ""
}

// segsText writes path steps; r (may be nil) chooses between equivalent spellings
func segsText(segs []ref.Seg, r *rand.Rand) string {
	var sb strings.Builder
	for i, s := range segs {
		if r != nil && i > 0 && (s.All || s.IsIdx) && chance(r, 0.1) {
			sb.WriteByte('.')
		}
		switch {
		case s.All:
			if r != nil && chance(r, 0.2) {
				sb.WriteString("[*]")
			} else {
				sb.WriteString("[:]")
			}
		case s.IsIdx:
			fmt.Fprintf(&sb, "[%d]", s.Idx)
		case s.Deep:
			sb.WriteString(".." + s.Name)
		case simpleName(s.Name):
			k := 0
			if r != nil && i > 0 && chance(r, 0.25) {
				k = 1 + r.Intn(6)
			}
			if r != nil && i == 0 && chance(r, 0.1) {
				k = 5 + r.Intn(2)
			}
			sb.WriteString([]string{"." + s.Name, `["` + s.Name + `"]`, `['` + s.Name + `']`, `.["` + s.Name + `"]`, `.['` + s.Name + `']`, `.'` + s.Name + `'`, `."` + s.Name + `"`}[k])
		default:
			if i == 0 {
				sb.WriteByte('.')
			}
			if r != nil && chance(r, 0.5) {
				sb.WriteString(`['` + s.Name + `']`)
			} else {
				sb.WriteString(`["` + s.Name + `"]`)
			}
		}
	}
	return sb.String()
}

func pathText(p ref.Path, r *rand.Rand) string {
	if p.Text != "" {
		return p.Text
	}
	if p.Whole {
		return "$RELATIVE*"
	}
	root := p.Root
	if root == ref.Abs && r != nil && len(p.Segs) > 0 && !p.Segs[0].Deep && chance(r, 0.15) {
		root = "" // leading-dot spelling
	}
	return root + segsText(p.Segs, r)
}

// parentSegsText writes the steps of a parent path, which has fewer equivalent spellings than a leaf's
func parentSegsText(segs []ref.Seg, r *rand.Rand) string {
	var sb strings.Builder
	for i, s := range segs {
		if i > 0 && s.Name != "" && !s.Deep && chance(r, 0.2) {
			sb.WriteString(`["` + s.Name + `"]`)
		} else {
			k := r
			if !s.All {
				k = nil
			}
			if i > 0 && s.Name != "" && !s.Deep && !simpleName(s.Name) {
				sb.WriteString(`["` + s.Name + `"]`)
				continue
			}
			sb.WriteString(segsText([]ref.Seg{s}, k))
		}
	}
	return sb.String()
}

func parentText(ps []ref.Path, r *rand.Rand) string {
	out := make([]string, len(ps))
	for i, p := range ps {
		out[i] = pathText(p, nil)
		if len(ps) == 1 && !p.Whole && p.Text == "" && r != nil {
			out[i] = p.Root + parentSegsText(p.Segs, r)
		}
	}
	return "jsonpath:" + strings.Join(out, ",")
}

// M is a generic map
type M = map[string]interface{}

// L is a generic list
type L = []interface{}

// treeGeneric converts a tree to the generic form of a conditions section. r chooses between equivalent spellings.
func treeGeneric(n *ref.Node, r *rand.Rand) M {
	sp := func(p float64) bool { return r != nil && chance(r, p) }
	switch n.Op {
	case "LEAF":
		m := M{"method": n.Method, "value": n.Value}
		if n.Path != nil {
			m["attribute"] = "jsonpath:" + pathText(*n.Path, r)
		} else {
			m["attribute"] = n.Attr
		}
		if n.Ret != nil {
			m["returnValueJsonpath"] = retGeneric(n.Ret, r)
		}
		if mm := strings.ToUpper(n.Method); (mm == "EX" || mm == "NEX") && n.Value == "" && sp(0.5) {
			delete(m, "value")
		}
		if sp(0.04) { // capitalised field names
			for _, k := range sortedKeys(m) {
				if chance(r, 0.6) {
					m[strings.ToUpper(k[:1])+k[1:]] = m[k]
					delete(m, k)
				}
			}
		}
		return m
	case "AND", "OR":
		if len(n.Kids) == 1 && sp(0.3) {
			return M{n.Op: treeGeneric(n.Kids[0], r)}
		}
		l := L{}
		for _, k := range n.Kids {
			g := treeGeneric(k, r)
			if k.Op == "LEAF" && sp(0.2) {
				g = M{"condition": g}
			}
			l = append(l, g)
		}
		return M{n.Op: l}
	case "NOT":
		g := treeGeneric(n.Kids[0], r)
		if sp(0.2) {
			return M{"NOT": L{g}}
		}
		return M{"NOT": g}
	case "ANY", "ALL":
		body := M{"parentJsonpathAttribute": parentText(n.Parent, r)}
		if n.Ret != nil {
			body["returnValueJsonpath"] = retGeneric(n.Ret, r)
		}
		k := n.Kids[0]
		g := treeGeneric(k, r)
		if k.Op == "LEAF" {
			if sp(0.2) {
				body["conditionsTree"] = g
			} else {
				body["condition"] = g
			}
		} else {
			for key, v := range g {
				body[key] = v
			}
		}
		return M{n.Op: body}
	}
	panic("op " + n.Op)
}

func retGeneric(ret map[string]ref.Path, r *rand.Rand) M {
	m := M{}
	for k, p := range ret {
		m[k] = "jsonpath:" + pathText(p, nil)
	}
	return m
}

func condGeneric(n *ref.Node, r *rand.Rand) interface{} {
	g := treeGeneric(n, r)
	if r == nil {
		return g
	}
	switch r.Intn(8) {
	case 0:
		return L{g}
	case 1:
		return M{"conditionsTree": g}
	case 2:
		return M{"condition": g}
	}
	return g
}

func ruleGeneric(x *ref.Rule, r *rand.Rand) M {
	m := M{
		"sender":    M{"senderName": x.SenderName, "senderType": x.SenderType},
		"receiver":  M{"receiverName": x.ReceiverName, "receiverType": x.ReceiverType},
		"protocol":  x.Protocol,
		"resource":  M{"resourceType": x.ResType, "resourceName": x.ResName},
		"operation": x.Operation,
		"decision":  x.Decision,
	}
	if x.ID != "" {
		m["ruleID"] = x.ID
	}
	if x.Meta != nil {
		mm := M{}
		for k, v := range x.Meta {
			mm[k] = v
		}
		m["metadata"] = mm
	}
	if x.Cond != nil {
		m["conditions"] = condGeneric(x.Cond, r)
	}
	return m
}

func rulesText(xs []*ref.Rule, r *rand.Rand) string {
	l := L{}
	for _, x := range xs {
		l = append(l, ruleGeneric(x, r))
	}
	return rulesTextOf(M{"rules": l}, r)
}

// rulesTextOf writes a generic value as YAML: flow style (JSON) or block style
func rulesTextOf(g interface{}, r *rand.Rand) string {
	if r != nil && chance(r, 0.3) {
		b, err := yaml.Marshal(g)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	return jsonText(g)
}

// plainRule applies to every message, with the given conditions
func plainRule(cond *ref.Node) *ref.Rule {
	return &ref.Rule{ID: "r", SenderName: "*", SenderType: "*", ReceiverName: "*", ReceiverType: "*", Protocol: "*",
		ResType: "*", ResName: "*", Operation: "*", Decision: "block", Cond: cond}
}

// ---- messages ----------------------------------------------------------------------------------

// document forms
const (
	formRaw     = "raw"
	formDecoded = "decoded"
	formBoth    = "both"
	formNone    = "none"
	formEmpty   = "empty text"
)

var docForms = []string{formRaw, formDecoded, formBoth}

// docText writes a document as JSON text in a layout chosen by r (nil: compact)
func docText(v interface{}, r *rand.Rand) string {
	var sb strings.Builder
	writeDoc(&sb, v, r)
	return sb.String()
}

func ws(sb *strings.Builder, r *rand.Rand) {
	if r != nil && chance(r, 0.15) {
		sb.WriteString(pick(r, []string{" ", "\n", "\t", "  ", "\r\n"}))
	}
}

func writeStr(sb *strings.Builder, s string, r *rand.Rand) {
	if r == nil {
		sb.WriteString(jsonText(s))
		return
	}
	sb.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			sb.WriteString("\\" + string(c))
		case c == '\n':
			sb.WriteString("\\n")
		case c == '\t':
			sb.WriteString("\\t")
		case c < 0x20:
			fmt.Fprintf(sb, "\\u%04x", c)
		case c < 0x10000 && chance(r, 0.03):
			fmt.Fprintf(sb, "\\u%04X", c)
		case c == '/' && chance(r, 0.2):
			sb.WriteString("\\/")
		default:
			sb.WriteRune(c)
		}
	}
	sb.WriteByte('"')
}

// keys keep their plain spelling (escaped keys are outside the supported domain)
func writeKey(sb *strings.Builder, s string) { sb.WriteString(jsonText(s)) }

func writeDoc(sb *strings.Builder, v interface{}, r *rand.Rand) {
	ws(sb, r)
	switch x := v.(type) {
	case map[string]interface{}:
		sb.WriteByte('{')
		ks := sortedKeys(x)
		if r != nil {
			r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		}
		for i, k := range ks {
			if i > 0 {
				sb.WriteByte(',')
			}
			ws(sb, r)
			writeKey(sb, k)
			ws(sb, r)
			sb.WriteByte(':')
			writeDoc(sb, x[k], r)
		}
		ws(sb, r)
		sb.WriteByte('}')
	case []interface{}:
		sb.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(',')
			}
			writeDoc(sb, e, r)
		}
		ws(sb, r)
		sb.WriteByte(']')
	case string:
		writeStr(sb, x, r)
	case json.Number:
		sb.WriteString(string(x))
	case bool:
		if x {
			sb.WriteString("true")
		} else {
			sb.WriteString("false")
		}
	case nil:
		sb.WriteString("null")
	default:
		panic(fmt.Sprintf("doc value %T", v))
	}
	ws(sb, r)
}

// decodeDoc gives the decoded form users hand to the engine
func decodeDoc(v interface{}) interface{} {
	var out interface{}
	if err := json.Unmarshal([]byte(docText(v, nil)), &out); err != nil {
		panic(err)
	}
	return out
}

func buildMsg(m *ref.Msg, form string, r *rand.Rand) *me.MessageAttributes {
	out := &me.MessageAttributes{
		SourceService: m.SenderName, SourceIp: m.SenderIP, SourceNamespace: m.SenderNamespace, SourceCluster: m.SenderCluster,
		DestinationService: m.ReceiverName, DestinationIp: m.ReceiverIP, DestinationNamespace: m.ReceiverNamespace, DestinationCluster: m.ReceiverCluster,
		DestinationPort: m.Port, RequestPath: m.Path, RequestHost: m.Host, RequestMethod: m.Method, ContextProtocol: m.Protocol, ContextType: m.Type,
		RequestSize: m.Size, RequestUseragent: m.UserAgent, Domain: m.Domain, EncryptionType: m.EncType, MessageID: m.ID,
		RequestTimeHoursFromMidnightUTC: m.Hours,
	}
	if m.EncVersion != nil {
		v := *m.EncVersion
		out.EncryptionVersion = &v
	}
	if m.SenderLabels != nil {
		out.SourceLabels = map[string]string{}
		for k, v := range m.SenderLabels {
			out.SourceLabels[k] = v
		}
	}
	if m.ReceiverLabels != nil {
		out.DestinationLabels = map[string]string{}
		for k, v := range m.ReceiverLabels {
			out.DestinationLabels[k] = v
		}
	}
	me.AddNetIpToMessage(out)
	if form == formEmpty {
		b := []byte{}
		out.RequestJsonRaw = &b
	}
	if m.HasDoc {
		if form == formRaw || form == formBoth {
			b := []byte(docText(m.Doc, r))
			out.RequestJsonRaw = &b
		}
		if form == formDecoded || form == formBoth {
			d := decodeDoc(m.Doc)
			out.RequestRawInterface = &d
		}
	}
	return out
}

// ---- engine calls --------------------------------------------------------------------------------

// load reads rules; a load error is returned, a panic is a violation
func (t *T) load(text string, d D) (me.Rules, error) {
	var rules me.Rules
	var err error
	t.Call("YamlReadRulesFromString", d, func() { rules, err = me.YamlReadRulesFromString(text) })
	return rules, err
}

// mustLoad reads rules which are valid by construction
func (t *T) mustLoad(text string, d D) me.Rules {
	rules, err := t.load(text, d)
	if err != nil {
		d["rules"], d["error"] = text, err.Error()
		t.Fail("a valid rule was rejected when loading", d)
	}
	return rules
}

// normData turns returned values into a comparable list of texts
func normData(d []map[string]interface{}) []string {
	out := []string{}
	for _, m := range d {
		c := M{}
		for k, v := range m {
			if v != nil {
				c[k] = v
			}
		}
		b, err := json.Marshal(c)
		if err != nil {
			out = append(out, "unmarshalable: "+err.Error())
			continue
		}
		// through JSON so that numbers of all representations agree
		var x interface{}
		json.Unmarshal(b, &x)
		b, _ = json.Marshal(x)
		out = append(out, string(b))
	}
	return out
}

func sortedCopy(s []string) []string {
	c := append([]string(nil), s...)
	sort.Strings(c)
	return c
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func msgDetail(m *ref.Msg) D {
	b, _ := json.Marshal(m)
	var d D
	json.Unmarshal(b, &d)
	for k, v := range d {
		if v == "" || v == nil {
			delete(d, k)
		}
	}
	delete(d, "Doc")
	if m.HasDoc {
		d["Doc"] = docText(m.Doc, nil)
	}
	return d
}

func emptyMsg() *ref.Msg { return &ref.Msg{} }

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}
