package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"verif/harness/ref"
)

// ---- documents -----------------------------------------------------------------------------------

func num(s string) json.Number { return json.Number(s) }

var textPool = []string{"a", "b", "ab", "A", "abc", "foo", "bar", "x y", "a.b", "a-b", "v1", "true", "false", "1", "2", "10", "5", "0.5", "500m", "1Ki", "1024", "1K", "é", "日本", "a\"b", "a\\b", "[a]", "\"q\"", "[\"a\"]", "tab\there", "a/b", "<a&b>", "null", "nan", "inf", "-inf", "{}", "$", "*", "a*c", "line\nbreak", "}", "]", "],[", "\"},{\"", "10%", ",", " lead", "trail ", "a , b", "  ", " 5", "5 ", "+5", "5.", "5,0", "😀", "a😀b"}
var numPool = []string{"0", "1", "2", "3", "5", "10", "100", "1024", "1000", "-1", "-5", "0.5", "1.5", "0.25", "2.75", "123456", "1048576", "0.1", "0.001"}
var keyPool = []string{"a", "b", "c", "x", "y", "name", "k-1", "Key", "z_2"}
var oddKeys = []string{"app.io/name", "a.b", "x/y"}

var textRunes = []rune("abcdefghijklmnopqrstuvwxyzabcABCXYZ01234567890123456789    ..--__//::@@%=+&<>{}[]()\"\\',;#$*?|^~`!éñ日本😀\u2028\t\n\u0001")

// genText makes a text: from a pool, or of random characters
func genText(r *rand.Rand) string {
	if !chance(r, 0.25) {
		return pick(r, textPool)
	}
	n := 1 + r.Intn(10)
	if chance(r, 0.06) {
		n = 20 + r.Intn(200)
	}
	out := make([]rune, n)
	for i := range out {
		out[i] = pick(r, textRunes)
	}
	return string(out)
}

// genNum makes a number with one possible text
func genNum(r *rand.Rand) json.Number {
	if !chance(r, 0.3) {
		return num(pick(r, numPool))
	}
	s := strconv.FormatInt(r.Int63n(int64(math.Pow10(1+r.Intn(14)))), 10)
	if chance(r, 0.05) { // as many digits as a number can have
		if chance(r, 0.5) {
			return num(strconv.FormatInt(1e15+r.Int63n(8e15), 10))
		}
		return num(strconv.FormatFloat(math.Floor(r.Float64()*1e4)+r.Float64()+0.001, 'f', -1, 64))
	}
	if chance(r, 0.4) {
		s = fmt.Sprintf("%d.%s%d", r.Intn(1000), []string{"", "0", "4", "00", "12", "9030"}[r.Intn(6)], 1+r.Intn(9))
	}
	if s != "0" && chance(r, 0.2) {
		s = "-" + s
	}
	return num(s)
}

const nameRunes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789-"

// genKey makes the name of a field
func genKey(r *rand.Rand) string {
	if !chance(r, 0.2) {
		return pick(r, keyPool)
	}
	n := 1 + r.Intn(8)
	if chance(r, 0.1) {
		n = 20 + r.Intn(60)
	}
	out := make([]byte, n)
	for i := range out {
		out[i] = nameRunes[r.Intn(len(nameRunes))]
	}
	out[0] = nameRunes[r.Intn(53)]
	return string(out)
}

// genLen makes the length of a list: mostly short
func genLen(r *rand.Rand, max int) int {
	switch {
	case chance(r, 0.01):
		return 20 + r.Intn(50)
	case chance(r, 0.1):
		return max + r.Intn(10)
	}
	return r.Intn(max)
}

func genScalar(r *rand.Rand) interface{} {
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		return genText(r)
	case 4, 5, 6:
		return genNum(r)
	case 7:
		return chance(r, 0.5)
	case 8:
		return ""
	default:
		return pick(r, []interface{}{num("7"), "foo", true})
	}
}

// genElem makes an array element: an object with a small schema
func genElem(r *rand.Rand, depth int) interface{} {
	o := M{}
	if chance(r, 0.85) {
		o["name"] = genWord(r)
	}
	if chance(r, 0.8) {
		o["n"] = genNum(r)
	}
	if chance(r, 0.5) {
		o["s"] = genScalar(r)
	}
	if chance(r, 0.5) {
		o["sub"] = M{"x": genScalar(r), "y": genNum(r)}
	}
	if chance(r, 0.4) {
		o["tags"] = genScalars(r, genLen(r, 4), 0)
	}
	if depth > 0 && chance(r, 0.7) {
		n := genLen(r, 4)
		l := L{}
		for i := 0; i < n; i++ {
			if n > 5 {
				depth = 1
			}
			l = append(l, genElem(r, depth-1))
		}
		o["list"] = l
	}
	if chance(r, 0.4) {
		o["map"] = genMap(r)
	}
	if chance(r, 0.05) {
		o["mat"] = genMatrix(r)
	}
	return o
}

// genWord makes a text which is often the same
func genWord(r *rand.Rand) string {
	if chance(r, 0.1) {
		return genText(r)
	}
	return pick(r, []string{"a", "b", "c", "foo", "a", "b", "x", "1", "a,b", "x}{y", "q\"r", "],["})
}

// genScalars makes an array of scalars; kind 0 mixed, 1 texts, 2 numbers
func genScalars(r *rand.Rand, n, kind int) L {
	l := L{}
	for i := 0; i < n; i++ {
		switch kind {
		case 1:
			l = append(l, genWord(r))
		case 2:
			l = append(l, genNum(r))
		default:
			switch r.Intn(12) {
			case 0:
				l = append(l, chance(r, 0.5))
			case 1:
				l = append(l, nil)
			case 2, 3, 4, 5, 6:
				l = append(l, genWord(r))
			default:
				l = append(l, genNum(r))
			}
		}
	}
	return l
}

func genMap(r *rand.Rand) M {
	m := M{}
	for i := genLen(r, 4); i > 0; i-- {
		k := genKey(r)
		if chance(r, 0.2) {
			m[k] = M{"sub": genScalar(r), "n": genNum(r)}
		} else {
			m[k] = genScalar(r)
		}
	}
	return m
}

// genMatrix makes an array of arrays
func genMatrix(r *rand.Rand) L {
	l := L{}
	for i := genLen(r, 4); i > 0; i-- {
		switch r.Intn(8) {
		case 0:
			l = append(l, L{genElem(r, 0)})
		case 1:
			l = append(l, L{genScalars(r, r.Intn(3), 0)})
		case 2:
			l = append(l, L{})
		default:
			l = append(l, genScalars(r, r.Intn(4), 0))
		}
	}
	if chance(r, 0.2) {
		l = append(l, genScalar(r))
	}
	return l
}

// genDoc makes a document
func genDoc(r *rand.Rand) interface{} {
	d := M{}
	d["kind"] = pick(r, []string{"Pod", "Deployment", "a"})
	d["n"] = genNum(r)
	if chance(r, 0.7) {
		d["s"] = genScalar(r)
	}
	if chance(r, 0.7) {
		d["flag"] = chance(r, 0.5)
	}
	if chance(r, 0.8) {
		meta := M{"name": genText(r)}
		lab := genMap(r)
		if chance(r, 0.4) {
			lab[pick(r, oddKeys)] = genText(r)
		}
		meta["labels"] = lab
		d["meta"] = meta
	}
	if chance(r, 0.9) {
		n := genLen(r, 4)
		l := L{}
		for i := 0; i < n; i++ {
			l = append(l, genElem(r, 2-n/4))
		}
		d["items"] = l
	}
	if chance(r, 0.5) {
		l := L{}
		for i := genLen(r, 3); i > 0; i-- {
			l = append(l, genElem(r, 1))
		}
		d["more"] = l
	}
	if chance(r, 0.5) {
		d["strs"] = genScalars(r, genLen(r, 4), 1)
	}
	if chance(r, 0.5) {
		d["nums"] = genScalars(r, genLen(r, 4), 2)
	}
	if chance(r, 0.5) {
		d["map"] = genMap(r)
	}
	if chance(r, 0.15) {
		d["mat"] = genMatrix(r)
	}
	if chance(r, 0.3) {
		d["deep"] = M{"items": L{genElem(r, 0)}, "inner": M{"items": L{genElem(r, 0), genElem(r, 0)}}}
	}
	if chance(r, 0.1) {
		d["nul"] = nil
	}
	if chance(r, 0.1) {
		d["empty"] = pick(r, []interface{}{L{}, M{}, ""})
	}
	return d
}

// longDoc makes a document with one long array in which one element, mostly a late one, differs from the others
func longDoc(r *rand.Rand) (doc M, odd interface{}) {
	n := 40 + r.Intn(300)
	if chance(r, 0.15) {
		n = bigSize(r, 4097)
		if chance(r, 0.3) {
			n = 4097 + r.Intn(500)
		}
	}
	at := r.Intn(n)
	if chance(r, 0.5) {
		at = n - 1 - r.Intn(5)
	}
	kind := r.Intn(3)
	l := L{}
	for i := 0; i < n; i++ {
		name := "a"
		if i == at {
			name = "odd"
		}
		switch kind {
		case 0:
			l = append(l, M{"name": name, "n": num(strconv.Itoa(i)), "tags": L{"x", name}})
		case 1:
			l = append(l, name)
		default:
			l = append(l, M{"name": name, "list": L{M{"x": name}}})
		}
	}
	odd = l[at]
	return M{"items": l, "kind": "long"}, odd
}

// longCase makes a document with a long array and a quantifier decided by one of its elements
func longCase(r *rand.Rand) (*ref.Node, *ref.Msg) {
	doc, odd := longDoc(r)
	leaf := &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Rel}, Method: "EQ", Value: "odd"}
	o, isObj := odd.(map[string]interface{})
	if isObj {
		leaf.Path.Segs = []ref.Seg{ref.N("name")}
	}
	n := &ref.Node{Op: pick(r, []string{"ANY", "ALL"}), Parent: []ref.Path{{Root: ref.Abs, Segs: []ref.Seg{ref.N("items"), ref.A()}}}}
	if chance(r, 0.2) {
		n.Parent[0].Segs = []ref.Seg{ref.D("items")}
	}
	if _, nested := o["list"]; nested && chance(r, 0.5) {
		n.Parent[0].Segs = []ref.Seg{ref.N("items"), ref.A(), ref.N("list"), ref.A()}
		leaf.Path.Segs = []ref.Seg{ref.N("x")}
	}
	if n.Op == "ALL" {
		leaf.Method = "NEQ"
	}
	if chance(r, 0.3) { // the other way round: all but one
		leaf.Method = map[string]string{"EQ": "NEQ", "NEQ": "EQ"}[leaf.Method]
	}
	if n.Op == "ANY" {
		n.Ret = map[string]ref.Path{"p": {Root: ref.Rel, Whole: true}}
	}
	n.Kids = []*ref.Node{leaf}
	return n, &ref.Msg{Doc: doc, HasDoc: true}
}

// wideGroup makes a group of many constant conditions decided by one of them
func wideGroup(r *rand.Rand, leaf func(bool) *ref.Node) *ref.Node {
	n := &ref.Node{Op: pick(r, []string{"AND", "OR"})}
	k := 10 + r.Intn(60)
	if chance(r, 0.1) {
		k = 100 + r.Intn(300)
	}
	if chance(r, 0.03) {
		k = bigSize(r, 4097)
	}
	at := r.Intn(k + k/4)
	if k > 100 && chance(r, 0.5) {
		at = k - 1 - r.Intn(3)
	}
	for i := 0; i < k; i++ {
		n.Kids = append(n.Kids, leaf((n.Op == "AND") != (i == at)))
	}
	return n
}

// deepChain nests a condition below many operators which keep its value
func deepChain(r *rand.Rand, n *ref.Node, k int) *ref.Node {
	for ; k > 0; k-- {
		switch r.Intn(4) {
		case 0:
			n = &ref.Node{Op: "AND", Kids: []*ref.Node{boolLeaf(true), n}}
		case 1:
			n = &ref.Node{Op: "OR", Kids: []*ref.Node{n, boolLeaf(false)}}
		default:
			n = &ref.Node{Op: "NOT", Kids: []*ref.Node{n}}
		}
	}
	return n
}

// ---- leaf conditions -------------------------------------------------------------------------------

var docMethods = []string{"EQ", "NEQ", "NE", "GT", "GE", "LT", "LE", "RE", "NRE", "IN", "NIN", "EX", "NEX"}

func caseOf(r *rand.Rand, m string) string {
	if m != "IS" && chance(r, 0.25) {
		return strings.ToLower(m)
	}
	return m
}

var rePool = []string{"a", "^a", "b$", "^a$", "[0-9]+", "^foo|bar$", ".", "^$", "o{2}", "(?i)A", "^(a|b)$", "x", "\\.", "5", "^1"}
var itemPool = []string{"a", "b", "ab", "foo", "bar", "1", "10", "v1", "A", "true", "a.b", "x-y", "a-b", "0.5", " a", "a ", " b", "x y", "a+", "(a", "a|b", "^a", "b$"}

// walk chooses a path into the value, mostly an existing one
func walk(r *rand.Rand, v interface{}, maxLen int) []ref.Seg {
	var segs []ref.Seg
	for i := 0; i < maxLen; i++ {
		switch x := v.(type) {
		case map[string]interface{}:
			if len(x) == 0 || chance(r, 0.06) {
				segs = append(segs, ref.N(pick(r, append([]string{"missing", "n", "name"}, keyPool...))))
				return segs
			}
			k := pick(r, sortedKeys(x))
			segs = append(segs, ref.N(k))
			v = x[k]
		case []interface{}:
			if len(segs) == 0 || chance(r, 0.3) {
				return segs
			}
			j := r.Intn(len(x) + 1)
			segs = append(segs, ref.I(j))
			if j >= len(x) {
				return segs
			}
			v = x[j]
		default:
			if len(segs) > 0 && chance(r, 0.05) {
				segs = append(segs, ref.N("below"))
			}
			return segs
		}
		if len(segs) > 0 && chance(r, 0.12) {
			return segs
		}
	}
	return segs
}

// genRegex makes an expression, often one derived from the text
func genRegex(r *rand.Rand, text string) string {
	b := []rune(text)
	if len(b) == 0 || chance(r, 0.6) {
		return pick(r, rePool)
	}
	i := r.Intn(len(b))
	j := i + 1 + r.Intn(len(b)-i)
	part := regexp.QuoteMeta(string(b[i:j]))
	switch r.Intn(5) {
	case 0:
		return "^" + part
	case 1:
		return "(" + part + ")$"
	case 2:
		return "^" + part + "$"
	case 3:
		return "^(" + part + "|zz)+"
	}
	if strings.HasPrefix(part, "#") || strings.HasSuffix(part, "#") {
		return "(" + part + ")"
	}
	return part
}

// genLeafValue chooses method and value with a view on the actual value, so that both outcomes occur
func genMethodValue(r *rand.Rand, v interface{}, found bool) (string, interface{}) {
	_, isObj := v.(map[string]interface{})
	_, isArr := v.([]interface{})
	if isObj || isArr {
		return caseOf(r, pick(r, []string{"EX", "NEX"})), ""
	}
	m := pick(r, docMethods)
	if chance(r, 0.02) {
		m = "IS"
	}
	text := ""
	if found && v != nil {
		text = ref.Text(v)
	}
	switch m {
	case "EX", "NEX":
		return caseOf(r, m), pick(r, []interface{}{"", "a", 1})
	case "RE", "NRE":
		return caseOf(r, m), genRegex(r, text)
	case "IN", "NIN", "IS":
		n := 1 + genLen(r, 3)
		items := []string{}
		for i := 0; i < n; i++ {
			items = append(items, pick(r, itemPool))
		}
		if text != "" && !strings.ContainsAny(text, ",[]#") && chance(r, 0.5) {
			items[r.Intn(n)] = text
		}
		s := strings.Join(items, ",")
		if chance(r, 0.5) {
			s = "[" + s + "]"
		}
		return caseOf(r, m), s
	case "GT", "GE", "LT", "LE":
		return caseOf(r, m), genNumberNear(r, text)
	}
	// EQ NEQ NE
	switch r.Intn(6) {
	case 0, 1, 2:
		if q, ok := ref.Quantity(text); ok {
			_ = q
			if f, err := strconv.ParseFloat(text, 64); err == nil && chance(r, 0.3) && f == float64(int(f)) {
				return caseOf(r, m), int(f)
			}
			return caseOf(r, m), text
		}
		if text == "true" || text == "false" {
			if chance(r, 0.5) {
				return caseOf(r, m), text == "true"
			}
		}
		return caseOf(r, m), noReference(text)
	case 3:
		return caseOf(r, m), genNumberNear(r, text)
	default:
		return caseOf(r, m), noReference(genText(r))
	}
}

// noReference keeps a value from being read as a reference to a definition
func noReference(s string) string {
	if strings.HasPrefix(s, "#") || strings.HasPrefix(s, "$receiver.") {
		return "a" + s
	}
	return s
}

// genNumberNear gives a number (or quantity) equal to, just below or above the given one
func genNumberNear(r *rand.Rand, text string) interface{} {
	if q, ok := ref.Quantity(text); ok && q.IsInt() && chance(r, 0.7) && q.Num().IsInt64() {
		n := q.Num().Int64() + int64(r.Intn(3)-1)
		if n >= 1<<53 || n <= -(1<<53) { // exact only as an integer text
			return fmt.Sprintf("%d", n)
		}
		switch r.Intn(4) {
		case 0:
			return int(n)
		case 1:
			return fmt.Sprintf("%d", n)
		case 2:
			return fmt.Sprintf("%d.0", n)
		default:
			if n%1024 == 0 {
				return fmt.Sprintf("%dKi", n/1024)
			}
			if n%1000 == 0 {
				return fmt.Sprintf("%dK", n/1000)
			}
			return fmt.Sprintf("%d000m", n)
		}
	}
	if q, ok := ref.Quantity(text); ok && chance(r, 0.15) && len(text) < 5 { // very near
		d := big.NewRat(int64(1-2*r.Intn(2)), int64(math.Pow10(6+r.Intn(6))))
		if f, _ := q.Float64(); math.Abs(f) < 100 && math.Abs(f) > 0.01 {
			return strings.TrimRight(d.Add(d, q).FloatString(12), "0")
		}
	}
	if q, ok := ref.Quantity(text); ok && chance(r, 0.5) && len(text) < 16 {
		d := big.NewRat(int64(r.Intn(3)-1), int64(math.Pow10(r.Intn(5))))
		s := d.Add(d, q).FloatString(9)
		if strings.Contains(s, ".") {
			s = strings.TrimSuffix(strings.TrimRight(s, "0"), ".")
		}
		return s
	}
	return pick(r, []interface{}{"0", "1", 2, "5", "0.5", 1.5, "1Ki", "500m", "1K", "10%", -1, "100", 3, "1e3", "2Mi"})
}

func docLeaf(r *rand.Rand, root string, base interface{}, maxLen int) *ref.Node {
	segs := walk(r, base, maxLen)
	if len(segs) == 0 {
		segs = []ref.Seg{ref.N("missing")}
	}
	v, found := ref.Find(base, segs)
	m, val := genMethodValue(r, v, found)
	return &ref.Node{Op: "LEAF", Path: &ref.Path{Root: root, Segs: segs}, Method: m, Value: val}
}

// ---- trees -----------------------------------------------------------------------------------------

// treeOpts bound the generated trees
type treeOpts struct {
	ret       bool // return values
	attrs     bool // leaves on message attributes
	noQuant   bool
	absInside bool // absolute paths inside ANY/ALL
	deep      bool // recursive descent parents
	multi     bool // several parents
	mapOrder  bool // allow quantifiers over objects
	star      bool
}

func genTree(r *rand.Rand, m *ref.Msg, depth int, o treeOpts) *ref.Node {
	return genNode(r, m, nil, false, depth, o)
}

func genNode(r *rand.Rand, m *ref.Msg, elem interface{}, inElem bool, depth int, o treeOpts) *ref.Node {
	if depth <= 0 {
		return genLeaf(r, m, elem, inElem, o)
	}
	x := r.Intn(100)
	switch {
	case x < 20:
		return group(r, "AND", m, elem, inElem, depth, o)
	case x < 40:
		return group(r, "OR", m, elem, inElem, depth, o)
	case x < 55:
		return &ref.Node{Op: "NOT", Kids: []*ref.Node{genNode(r, m, elem, inElem, depth-1, o)}}
	case x < 85 && !o.noQuant && m.HasDoc:
		if n := genQuant(r, m, elem, inElem, depth, o); n != nil {
			return n
		}
	}
	return genLeaf(r, m, elem, inElem, o)
}

func group(r *rand.Rand, op string, m *ref.Msg, elem interface{}, inElem bool, depth int, o treeOpts) *ref.Node {
	n := &ref.Node{Op: op}
	k := 1 + r.Intn(3)
	if chance(r, 0.1) {
		k, depth = 4+r.Intn(6), 1+depth/3
	}
	for ; k > 0; k-- {
		n.Kids = append(n.Kids, genNode(r, m, elem, inElem, depth-1, o))
	}
	return n
}

func genLeaf(r *rand.Rand, m *ref.Msg, elem interface{}, inElem bool, o treeOpts) *ref.Node {
	if inElem && !(o.absInside && chance(r, 0.15)) {
		if pr, ok := elem.(pairElem); ok {
			switch {
			case chance(r, 0.4):
				mm, val := genMethodValue(r, pr.k, true)
				return &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Key}, Method: mm, Value: val}
			default:
				var segs []ref.Seg
				if _, isObj := pr.v.(map[string]interface{}); isObj || chance(r, 0.2) {
					segs = []ref.Seg{ref.N(pick(r, []string{"sub", "n"}))}
				}
				v, found := ref.Find(pr.v, segs)
				if _, isArr := v.([]interface{}); isArr {
					found, v = false, nil
				}
				mm, val := genMethodValue(r, v, found)
				return &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Value, Segs: segs}, Method: mm, Value: val}
			}
		}
		if _, isObj := elem.(map[string]interface{}); !isObj {
			mm, val := genMethodValue(r, elem, true)
			return &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Rel}, Method: mm, Value: val}
		}
		return docLeaf(r, ref.Rel, elem, 3)
	}
	if o.attrs && (!m.HasDoc || chance(r, 0.5)) {
		return attrLeaf(r, m)
	}
	n := docLeaf(r, ref.Abs, m.Doc, 4)
	if o.ret && !inElem && chance(r, 0.5) {
		n.Ret = map[string]ref.Path{}
		for i := 1 + r.Intn(2); i > 0; i-- {
			segs := walk(r, m.Doc, 3)
			if len(segs) > 0 {
				n.Ret[pick(r, retNames)] = ref.Path{Root: ref.Abs, Segs: segs}
			}
		}
		if len(n.Ret) == 0 {
			n.Ret = nil
		}
	}
	return n
}

var retNames = []string{"p", "q", "r", "P", "Qr", "my-name"}

// pairElem is the sample element of a quantifier over an object
type pairElem struct {
	k string
	v interface{}
}

// containers lists paths (steps) to arrays and objects in a value
func containers(v interface{}, prefix []ref.Seg, arrays, objects *[][]ref.Seg) {
	cp := func() []ref.Seg { return append([]ref.Seg(nil), prefix...) }
	switch x := v.(type) {
	case map[string]interface{}:
		if len(prefix) > 0 {
			*objects = append(*objects, cp())
		}
		for _, k := range sortedKeys(x) {
			if len(prefix) == 0 && !simpleName(k) {
				continue
			}
			containers(x[k], append(cp(), ref.N(k)), arrays, objects)
		}
	case []interface{}:
		if len(prefix) > 0 {
			*arrays = append(*arrays, cp())
		}
		if len(x) > 0 {
			// through all elements: only for arrays of objects
			if _, ok := x[0].(map[string]interface{}); ok && len(prefix) > 0 {
				var a2, o2 [][]ref.Seg
				containers(x[0], append(cp(), ref.A()), &a2, &o2)
				*arrays = append(*arrays, a2...)
			}
			for j := range x {
				if _, ok := x[j].([]interface{}); ok && len(prefix) > 0 {
					containers(x[j], append(cp(), ref.I(j)), arrays, objects)
				}
			}
		}
	}
}

func genQuant(r *rand.Rand, m *ref.Msg, elem interface{}, inElem bool, depth int, o treeOpts) *ref.Node {
	base := m.Doc
	root := ref.Abs
	if inElem {
		if pr, ok := elem.(pairElem); ok {
			_ = pr
			if !o.absInside {
				return nil
			}
		} else if !(o.absInside && chance(r, 0.15)) {
			base, root = elem, ref.Rel
		}
	}
	op := pick(r, []string{"ANY", "ANY", "ALL"})
	n := &ref.Node{Op: op}
	var sample interface{}
	isPair := false
	if o.star && root == ref.Rel && chance(r, 0.1) {
		obj, ok := base.(map[string]interface{})
		if ok {
			n.Parent = []ref.Path{{Root: ref.Rel, Whole: true}}
			isPair = true
			for _, k := range sortedKeys(obj) {
				sample = pairElem{k, obj[k]}
				if chance(r, 0.4) {
					break
				}
			}
			if sample == nil {
				sample = pairElem{"a", "a"}
			}
		}
	}
	if n.Parent == nil {
		var arrays, objects [][]ref.Seg
		containers(base, nil, &arrays, &objects)
		if chance(r, 0.06) {
			arrays = append(arrays, []ref.Seg{ref.N("missing")})
		}
		useObj := o.mapOrder && len(objects) > 0 && chance(r, 0.25)
		switch {
		case useObj:
			segs := pick(r, objects)
			v, _ := ref.Find(base, segs)
			obj := v.(map[string]interface{})
			sample = pairElem{"a", "a"}
			for _, k := range sortedKeys(obj) {
				sample = pairElem{k, obj[k]}
				if chance(r, 0.4) {
					break
				}
			}
			isPair = true
			n.Parent = []ref.Path{{Root: root, Segs: segs}}
		case o.deep && root == ref.Abs && chance(r, 0.15):
			name := pick(r, []string{"items", "list"})
			segs := []ref.Seg{ref.D(name)}
			switch r.Intn(8) {
			case 0, 1:
				segs = []ref.Seg{ref.D(name), ref.A()}
			case 2:
				segs = []ref.Seg{ref.D("inner"), ref.N(name), ref.A()}
			case 3:
				segs = []ref.Seg{ref.N("deep"), ref.D(name), ref.A()}
			case 4:
				segs = []ref.Seg{ref.D("inner"), ref.N(name)}
			case 5:
				segs = []ref.Seg{ref.D("items"), ref.A(), ref.N(pick(r, []string{"list", "list", "tags"})), ref.A()}
			}
			n.Parent = []ref.Path{{Root: root, Segs: segs}}
			sample = genElem(r, 1)
			if all := selectSafe(base, segs); len(all) > 0 {
				sample = pick(r, all)
			}
		case len(arrays) > 0:
			segs := pick(r, arrays)
			segs = append(append([]ref.Seg(nil), segs...), ref.A())
			if len(segs) >= 2 && chance(r, 0.15) && !hasAll(segs[:len(segs)-1]) {
				segs = segs[:len(segs)-1] // an array without [:] selects its elements too
			}
			n.Parent = []ref.Path{{Root: root, Segs: segs}}
			sample = "a"
			if all := selectSafe(base, segs); len(all) > 0 {
				sample = pick(r, all)
			}
			for o.multi && len(n.Parent) < 6 && chance(r, 0.1+0.3*float64(len(n.Parent)-1)) {
				p := ref.Path{Root: root, Segs: append(append([]ref.Seg(nil), pick(r, arrays)...), ref.A())}
				if chance(r, 0.15) { // a parent which selects nothing
					p.Segs = pick(r, [][]ref.Seg{{ref.N("missing"), ref.A()}, {ref.N("missing"), ref.N("x"), ref.A()}, {ref.N("items"), ref.I(70), ref.N("list"), ref.A()}})
				}
				n.Parent = append(n.Parent, p)
				if chance(r, 0.3) {
					i := r.Intn(len(n.Parent))
					n.Parent[i], n.Parent[len(n.Parent)-1] = n.Parent[len(n.Parent)-1], n.Parent[i]
				}
			}
		default:
			return nil
		}
	}
	n.Kids = []*ref.Node{genNode(r, m, sample, true, depth-1, o)}
	if o.ret && (op == "ANY" && chance(r, 0.6) || op == "ALL" && chance(r, 0.3)) {
		n.Ret = map[string]ref.Path{}
		for i := 1 + r.Intn(2); i > 0; i-- {
			name := pick(r, retNames)
			if chance(r, 0.3) {
				n.Ret[name] = ref.Path{Root: ref.Rel, Whole: true}
				continue
			}
			if isPair {
				n.Ret[name] = ref.Path{Root: ref.Rel, Whole: true}
				continue
			}
			segs := walk(r, sample, 2)
			if len(segs) > 0 {
				n.Ret[name] = ref.Path{Root: ref.Rel, Segs: segs}
			}
		}
		if len(n.Ret) == 0 {
			n.Ret = nil
		}
	}
	return n
}

func hasDeep(segs []ref.Seg) bool {
	for _, s := range segs {
		if s.Deep {
			return true
		}
	}
	return false
}

func hasAll(segs []ref.Seg) bool {
	for _, s := range segs {
		if s.All || s.Deep {
			return true
		}
	}
	return false
}

func selectSafe(v interface{}, segs []ref.Seg) (out []interface{}) {
	defer func() {
		if recover() != nil {
			out = nil
		}
	}()
	return ref.Select(v, segs)
}

// ---- message attributes ------------------------------------------------------------------------------

var labelKeys = []string{"app", "App", " app", "a b", "ver", "k3", "tier", "app.kubernetes.io/name", "topology.kubernetes.io/failure-zone_1"}
var labelVals = []string{"a", "b", "v1", "foo", "a.b", "", "A", "ab", "x*y", "10"}
var nsPool = []string{"", "default", "prod", "ns-1", "a", "kube.system"}

func genMsgAttrs(r *rand.Rand, m *ref.Msg) {
	m.Size = pick(r, []int64{0, 1, 1023, 1024, 1025, 1000, 4096, -1, 123456789, r.Int63n(5000), r.Int63n(1 << 40), 1<<53 + r.Int63n(9) - 4, 1<<62 + r.Int63n(1<<62)})
	m.UserAgent = pick(r, []string{"", "Mozilla/5.0 (X11)", "curl/7.1", "a", "ab", "abc", "Go-http-client", strings.Repeat("Mozilla/5.0 (X11) ", 1+r.Intn(40)) + "z"})
	m.Hours = float64(r.Intn(24*4)) / 4
	if chance(r, 0.4) {
		m.Hours = float64(r.Intn(24*4096)) / 4096
	}
	m.EncType = pick(r, []string{"", "tls", "mtls", "TLS"})
	if chance(r, 0.7) {
		v := pick(r, []float64{1, 1.1, 1.2, 1.3, 2, 0.5, 1.25, 1.21, 1.301, 10.5})
		m.EncVersion = &v
	}
	m.Domain = pick(r, []string{"", "example.com", "a.example.com", "exampleXcom", "a", "example.com.", "Example.com", "www.example.com", strings.Repeat("sub.", 1+r.Intn(80)) + "example.com"})
	m.SenderNamespace, m.ReceiverNamespace = pick(r, nsPool), pick(r, nsPool)
	m.SenderCluster, m.ReceiverCluster = pick(r, nsPool), pick(r, nsPool)
	for _, p := range []*string{&m.UserAgent, &m.EncType, &m.Domain, &m.SenderNamespace, &m.ReceiverNamespace, &m.SenderCluster, &m.ReceiverCluster} {
		if chance(r, 0.15) {
			*p = genName(r)
		}
		if chance(r, 0.03) {
			*p += pick(r, []string{"\n", "\nb", " b", "\tb"}) + pick(r, []string{"", "a", genName(r)})
		}
	}
	if chance(r, 0.05) {
		m.ReceiverNamespace, m.ReceiverCluster = m.SenderNamespace, m.SenderCluster
	}
	genLabels := func() map[string]string {
		l := map[string]string{}
		for _, k := range labelKeys {
			if chance(r, 0.6) {
				l[k] = pick(r, labelVals)
				if chance(r, 0.15) {
					l[k] = genName(r)
				}
			}
		}
		if chance(r, 0.1) {
			return nil
		}
		return l
	}
	m.SenderLabels, m.ReceiverLabels = genLabels(), genLabels()
}

var numAttrMethods = []string{"EQ", "NEQ", "NE", "GT", "GE", "LT", "LE"}
var textAttrMethods = []string{"EQ", "NEQ", "NE", "RE", "NRE", "IN", "NIN", "EX", "NEX"}
var encVersionMethods = []string{"EQ", "GT", "GE", "LT", "LE"}

// genName makes a name of several parts
func genName(r *rand.Rand) string {
	n := 1 + r.Intn(4)
	if chance(r, 0.1) {
		n = 5 + r.Intn(10)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteString(pick(r, []string{".", ".", ".", ".", "-", "/", "_", ":", "$", "^", "@", "~%", "é"}))
		}
		sb.WriteString(pick(r, []string{"a", "b", "svc", "x1", "prod", "com", "Ab", "10"}))
	}
	return sb.String()
}

// nearName makes a small change to a name
func nearName(r *rand.Rand, s string) string {
	b := []rune(s)
	if len(b) == 0 {
		return "x"
	}
	i := r.Intn(len(b))
	if dots := strings.Count(s, "."); dots > 0 && chance(r, 0.5) { // one of the dots
		k := r.Intn(dots)
		for j := range b {
			if b[j] == '.' {
				if k == 0 {
					i = j
				}
				k--
			}
		}
	}
	switch r.Intn(5) {
	case 4:
		b[i] = '.'
		return string(b)
	case 0:
		return string(b[:i]) + string(b[i+1:])
	case 1:
		return string(b[:i]) + "x" + string(b[i:])
	case 2:
		return s + pick(r, []string{"x", "R", "S", "1", "ER", ".", "/"})
	}
	b[i] = []rune("x.Q-")[r.Intn(4)]
	return string(b)
}

func wildcarded(r *rand.Rand, s string) string {
	if chance(r, 0.15) {
		s = wildcard1(r, s)
	}
	if chance(r, 0.06) { // many stars
		b := []rune(s)
		for k := 3 + r.Intn(5); k > 0; k-- {
			i := r.Intn(len(b) + 1)
			b = append(b[:i], append([]rune{'*'}, b[i:]...)...)
		}
		return string(b)
	}
	return wildcard1(r, s)
}

func wildcard1(r *rand.Rand, s string) string {
	b := []rune(s)
	switch r.Intn(7) {
	case 0:
		return "*"
	case 1:
		if len(b) > 0 {
			i := r.Intn(len(b))
			b[i] = '?'
			return string(b)
		}
		return "?"
	case 2:
		i := r.Intn(len(b) + 1)
		return string(b[:i]) + "*"
	case 3:
		i := r.Intn(len(b) + 1)
		return "*" + string(b[i:])
	case 4:
		i := r.Intn(len(b) + 1)
		j := i + r.Intn(len(b)-i+1)
		return string(b[:i]) + "*" + string(b[j:])
	case 5:
		return s + pick(r, []string{"x", "?", "*", "."})
	}
	return s
}

// attrLeaf makes a condition on a message attribute
func attrLeaf(r *rand.Rand, m *ref.Msg) *ref.Node {
	n := &ref.Node{Op: "LEAF"}
	textLeaf := func(v string) {
		mm := pick(r, textAttrMethods)
		n.Method = caseOf(r, mm)
		switch mm {
		case "RE", "NRE":
			n.Value = genRegex(r, v)
		case "IN", "NIN":
			items := []string{pick(r, itemPool), pick(r, itemPool)}
			for k := genLen(r, 2); k > 0; k-- {
				items = append(items, pick(r, itemPool))
			}
			if v != "" && !strings.ContainsAny(v, ",[]#") && chance(r, 0.5) {
				items[r.Intn(len(items))] = v
			}
			n.Value = strings.Join(items, ",")
			if chance(r, 0.4) {
				n.Value = "[" + n.Value.(string) + "]"
			}
		case "EX", "NEX":
			n.Value = ""
		default:
			base := v
			if chance(r, 0.3) {
				base = pick(r, []string{"a", "default", "tls", "example.com", "curl/7.1", "v1"})
			}
			n.Value = wildcarded(r, base)
		}
	}
	switch r.Intn(9) {
	case 0:
		n.Attr = pick(r, []string{"true", "TRUE", "false", "FALSE"})
		n.Method, n.Value = "EQ", "1"
	case 1:
		n.Attr = "payloadSize"
		n.Method = caseOf(r, pick(r, numAttrMethods))
		n.Value = genNumberNear(r, strconv.FormatInt(m.Size, 10))
	case 2:
		n.Attr = "utcHoursFromMidnight"
		n.Method = caseOf(r, pick(r, numAttrMethods))
		n.Value = pick(r, []interface{}{m.Hours, strconv.FormatFloat(m.Hours, 'f', -1, 64), m.Hours + 0.25, m.Hours - 0.5, m.Hours + 1.0/4096, m.Hours - 1.0/4096, 12, "0", "23.75"})
	case 3:
		n.Attr = "encryptionVersion"
		n.Method = caseOf(r, pick(r, encVersionMethods))
		n.Value = pick(r, []interface{}{1, "1.0", 1.1, "1.2", "1.3", 2, "0.5", 1.25, "1.251", 1.21, "1.301", 10.5, 11})
		if m.EncVersion != nil && chance(r, 0.3) {
			n.Value = strconv.FormatFloat(*m.EncVersion, 'f', -1, 64)
		}
	case 4:
		n.Attr = "requestUseragent"
		textLeaf(m.UserAgent)
	case 5:
		if chance(r, 0.5) {
			n.Attr = "encryptionType"
			textLeaf(m.EncType)
		} else {
			n.Attr = "domain"
			textLeaf(m.Domain)
		}
	case 6:
		who := pick(r, []string{"$sender.", "$receiver."})
		what := pick(r, []string{"namespace", "cluster"})
		n.Attr = who + what
		v := map[string]string{"$sender.namespace": m.SenderNamespace, "$sender.cluster": m.SenderCluster, "$receiver.namespace": m.ReceiverNamespace, "$receiver.cluster": m.ReceiverCluster}[n.Attr]
		if who == "$sender." && chance(r, 0.4) {
			n.Method = caseOf(r, pick(r, []string{"EQ", "NEQ", "NE"}))
			n.Value = "$receiver." + pick(r, []string{"namespace", "cluster"})
		} else {
			textLeaf(v)
		}
	default:
		k := pick(r, labelKeys)
		if chance(r, 0.5) {
			n.Attr = "senderLabel[" + k + "]"
			if chance(r, 0.35) {
				n.Method = caseOf(r, pick(r, []string{"EQ", "NEQ", "NE"}))
				n.Value = "receiverLabel[" + pick(r, labelKeys) + "]"
			} else {
				textLeaf(m.SenderLabels[k])
			}
		} else {
			n.Attr = "receiverLabel[" + k + "]"
			textLeaf(m.ReceiverLabels[k])
		}
	}
	return n
}
