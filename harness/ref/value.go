// Package ref is an independent reference evaluator of MAPL rules, written from the documentation.
// It shares no code with the engine: it works on structured paths (not on path texts), has its own
// wildcard matcher, its own CIDR matcher and exact rational arithmetic for quantities.
package ref

import (
	"encoding/json"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// OutOfDomain is thrown (panic) when a case leaves the domain the oracle decides.
type OutOfDomain struct{ Why string }

func ood(why string) { panic(OutOfDomain{why}) }

// documents are built of map[string]interface{}, []interface{}, string, json.Number, bool and nil

// Kind of a path root
const (
	Abs   = "$"
	Rel   = "$RELATIVE"
	Key   = "$KEY"
	Value = "$VALUE"
)

// Seg is one step of a path: a name, an index, "all elements" or "recursive descent to a name"
type Seg struct {
	Name  string
	Idx   int
	IsIdx bool
	All   bool // [:]
	Deep  bool // ..Name
}

// Path is a structured document path
type Path struct {
	Root  string
	Segs  []Seg
	Whole bool // "$RELATIVE*": the whole element
	Text  string
}

// N is a name step
func N(name string) Seg { return Seg{Name: name} }

// I is an index step
func I(i int) Seg { return Seg{Idx: i, IsIdx: true} }

// A is the "all elements" step
func A() Seg { return Seg{All: true} }

// D is a recursive descent step
func D(name string) Seg { return Seg{Name: name, Deep: true} }

// Find follows a path without All/Deep steps
func Find(v interface{}, segs []Seg) (interface{}, bool) {
	for _, s := range segs {
		if s.IsIdx {
			arr, ok := v.([]interface{})
			if !ok || s.Idx >= len(arr) {
				return nil, false
			}
			v = arr[s.Idx]
			continue
		}
		if s.All || s.Deep {
			ood("wildcard in a leaf path")
		}
		obj, ok := v.(map[string]interface{})
		if !ok {
			return nil, false
		}
		v, ok = obj[s.Name]
		if !ok {
			return nil, false
		}
	}
	return v, true
}

// Pair is the element an object contributes to ANY/ALL
func Pair(k string, v interface{}) map[string]interface{} { return map[string]interface{}{k: v} }

// Select returns the elements which a parent path selects
func Select(v interface{}, segs []Seg) []interface{} {
	cur := []interface{}{v}
	fanned := false
	for i, s := range segs {
		last := i == len(segs)-1
		next := []interface{}{}
		for _, c := range cur {
			switch {
			case s.All:
				arr, ok := c.([]interface{})
				if !ok {
					if _, isObj := c.(map[string]interface{}); isObj {
						ood("[:] on an object")
					}
					continue
				}
				next = append(next, arr...)
			case s.Deep:
				deepCollect(c, s.Name, &next)
			case s.IsIdx:
				if arr, ok := c.([]interface{}); ok && s.Idx < len(arr) {
					next = append(next, arr[s.Idx])
				}
			default:
				if obj, ok := c.(map[string]interface{}); ok {
					if x, ok := obj[s.Name]; ok {
						next = append(next, x)
					}
				}
			}
		}
		cur = next
		if s.All || s.Deep {
			fanned = true
		}
		if last && s.All {
			return flatten(cur)
		}
	}
	// the path ends at containers: their elements are selected
	out := []interface{}{}
	for _, c := range cur {
		switch x := c.(type) {
		case []interface{}:
			if fanned {
				out = append(out, x...)
			} else {
				out = append(out, flatten(x)...)
			}
		case map[string]interface{}:
			if fanned {
				ood("objects selected through a fan-out")
			}
			for _, k := range sortedKeys(x) {
				e := x[k]
				out = append(out, Pair(k, e))
			}
		default:
			if fanned {
				ood("scalars selected through a fan-out")
			}
		}
	}
	return out
}

// flatten gives the items of the arrays when all elements are arrays
func flatten(l []interface{}) []interface{} {
	out := []interface{}{}
	for _, e := range l {
		x, isArr := e.([]interface{})
		if !isArr {
			return l
		}
		out = append(out, x...)
	}
	return out
}

func deepCollect(v interface{}, name string, out *[]interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		if e, ok := x[name]; ok {
			*out = append(*out, e)
		}
		for _, k := range sortedKeys(x) { // in a fixed order, so that the cases are the same at every run
			deepCollect(x[k], name, out)
		}
	case []interface{}:
		for _, e := range x {
			deepCollect(e, name, out)
		}
	}
}

// Glob matches the whole text against a pattern with * (any run) and ? (exactly one character)
func Glob(pattern, text string) bool {
	p, t := []rune(pattern), []rune(text)
	// dynamic programming
	prev := make([]bool, len(t)+1)
	prev[0] = true
	for i := 0; i < len(p); i++ {
		cur := make([]bool, len(t)+1)
		for j := 0; j <= len(t); j++ {
			switch p[i] {
			case '*':
				cur[j] = prev[j] || (j > 0 && cur[j-1])
			case '?':
				cur[j] = j > 0 && prev[j-1]
			default:
				cur[j] = j > 0 && prev[j-1] && t[j-1] == p[i]
			}
		}
		prev = cur
	}
	return prev[len(t)]
}

var plainNumber = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)$`)
var expNumber = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)[eE][+-]?[0-9]{1,2}$`)

// Units maps every unit suffix to its factor
var Units = map[string]*big.Rat{}

// UnitNames lists the suffixes in a fixed order
var UnitNames = []string{"%", "m", "K", "M", "G", "T", "P", "E", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei", "e3", "e6", "e9", "e12", "e15", "e18"}

func init() {
	ten := func(n int) *big.Rat {
		r := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
		return new(big.Rat).SetInt(r)
	}
	two := func(n int) *big.Rat {
		return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))
	}
	Units["%"] = new(big.Rat).Inv(ten(2))
	Units["m"] = new(big.Rat).Inv(ten(3))
	for i, u := range []string{"K", "M", "G", "T", "P", "E"} {
		Units[u] = ten(3 * (i + 1))
		Units[u+"i"] = two(10 * (i + 1))
	}
	for i, u := range []string{"e3", "e6", "e9", "e12", "e15", "e18"} {
		Units[u] = ten(3 * (i + 1))
	}
}

// Quantity reads a number with at most one unit suffix
func Quantity(s string) (*big.Rat, bool) {
	if plainNumber.MatchString(s) || expNumber.MatchString(s) {
		r, ok := new(big.Rat).SetString(s)
		return r, ok
	}
	for _, l := range []int{2, 1} {
		if len(s) > l {
			if f, ok := Units[s[len(s)-l:]]; ok && plainNumber.MatchString(s[:len(s)-l]) {
				r, ok := new(big.Rat).SetString(s[:len(s)-l])
				if !ok {
					return nil, false
				}
				return r.Mul(r, f), true
			}
		}
	}
	return nil, false
}

// numberLike are texts where it is unclear whether they are numbers: outside the domain
var oddNumber = regexp.MustCompile(`(?i)^[+-]?(0x|[0-9].*_)`)

// Text returns the text of a scalar
func Text(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case bool:
		if x {
			return "true"
		}
		return "false"
	case json.Number:
		return string(x)
	}
	ood("text of a container")
	return ""
}

var canonicalNumber = regexp.MustCompile(`^(0|-?[1-9][0-9]{0,14}|-?(0|[1-9][0-9]{0,9})\.[0-9]{0,5}[1-9])$`)

// CanonicalNumber tells whether the text of a number is the same in every representation
func CanonicalNumber(n json.Number) bool {
	if canonicalNumber.MatchString(string(n)) && string(n) != "-0" {
		return true
	}
	f, err := strconv.ParseFloat(string(n), 64)
	return err == nil && math.Abs(f) < 1<<53 && math.Abs(f) >= 1e-3 && strconv.FormatFloat(f, 'f', -1, 64) == string(n)
}

// Items splits a membership list
func Items(value string) []string {
	value = strings.TrimSuffix(strings.TrimPrefix(value, "["), "]")
	return strings.Split(value, ",")
}

// CompareDoc decides a document condition on a value (found reports whether the path leads to a value)
func CompareDoc(v interface{}, found bool, method, value string) bool {
	m := strings.ToUpper(method)
	missing := !found || v == nil
	if s, ok := v.(string); ok && s == "" {
		missing = true
	}
	if a, ok := v.([]interface{}); ok {
		if len(a) == 0 {
			missing = true
		} else {
			switch f := a[0].(type) {
			case string:
				if f == "" {
					ood("array starting with an empty text")
				}
			case []interface{}:
				ood("array of arrays")
			}
		}
	}
	if missing {
		return m == "NEX"
	}
	if m == "EX" {
		return true
	}
	if m == "NEX" {
		return false
	}
	text := Text(v)
	if n, ok := v.(json.Number); ok {
		if !CanonicalNumber(n) && (m == "RE" || m == "NRE" || m == "IN" || m == "NIN" || m == "IS") {
			ood("text of a non-canonical number")
		}
	}
	switch m {
	case "EQ", "NEQ", "NE", "GT", "GE", "LT", "LE":
		if oddNumber.MatchString(text) || oddNumber.MatchString(value) {
			ood("unusual number")
		}
		a, okA := Quantity(text)
		b, okB := Quantity(value)
		if okA && okB {
			return cmpHolds(numCmp(a, b), m)
		}
		if n, ok := v.(json.Number); ok && !CanonicalNumber(n) {
			ood("text of a non-canonical number")
		}
		switch m {
		case "EQ":
			return text == value
		case "NEQ", "NE":
			return text != value
		}
		return false
	case "RE", "NRE":
		return regexp.MustCompile(value).MatchString(text) == (m == "RE")
	case "IN", "IS", "NIN":
		in := false
		for _, it := range Items(value) {
			if it == text {
				in = true
			}
		}
		return in == (m != "NIN")
	}
	ood("method " + method)
	return false
}

func cmpHolds(c int, m string) bool {
	switch m {
	case "EQ":
		return c == 0
	case "NEQ", "NE":
		return c != 0
	case "GT":
		return c > 0
	case "GE":
		return c >= 0
	case "LT":
		return c < 0
	case "LE":
		return c <= 0
	}
	ood("method " + m)
	return false
}

// numCmp compares exactly; numbers which only differ beyond the precision of doubles are outside the domain
func numCmp(a, b *big.Rat) int {
	c := a.Cmp(b)
	if c != 0 && b.Sign() != 0 {
		d := new(big.Rat).Sub(a, b)
		d.Quo(d.Abs(d), new(big.Rat).Abs(b))
		if f, _ := d.Float64(); f < 1e-14 {
			ood("numbers equal within the precision of doubles")
		}
	}
	return c
}

func sortedKeys(m map[string]interface{}) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
