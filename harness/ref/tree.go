package ref

import (
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Node is a conditions tree
type Node struct {
	Op     string // AND OR NOT ANY ALL LEAF
	Kids   []*Node
	Parent []Path          // ANY/ALL
	Ret    map[string]Path // ANY/ALL/LEAF
	Attr   string          // LEAF on a message attribute ("" when Path is used)
	Path   *Path           // LEAF on the document
	Method string
	Value  interface{} // text, int or float64 or bool: how the value is written
}

// Msg holds the attributes of a message which conditions and rules look at
type Msg struct {
	SenderName, SenderIP, SenderNamespace, SenderCluster         string
	ReceiverName, ReceiverIP, ReceiverNamespace, ReceiverCluster string
	Port, Path, Host, Method, Protocol, Type                     string
	Size                                                         int64
	Time                                                         string // RFC3339
	Hours                                                        float64
	UserAgent, Domain, EncType                                   string
	EncVersion                                                   *float64
	SenderLabels, ReceiverLabels                                 map[string]string
	ID                                                           string
	Doc                                                          interface{}
	HasDoc                                                       bool
}

// ValueText is the text of a condition value
func (n *Node) ValueText() string {
	switch x := n.Value.(type) {
	case string:
		return x
	case int:
		return strconv.Itoa(x)
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	panic("value type")
}

type env struct {
	msg     *Msg
	elem    interface{}
	hasElem bool
}

// Data is a list of returned values
type Data []map[string]interface{}

// Eval evaluates a tree; data is meaningful only if the result is true
func Eval(n *Node, msg *Msg) (res bool, data Data) {
	return eval(n, env{msg: msg})
}

func eval(n *Node, e env) (bool, Data) {
	switch n.Op {
	case "AND":
		res := true
		var data Data
		for _, k := range n.Kids {
			r, d := eval(k, e)
			if !r {
				res = false
			}
			if len(d) > 0 {
				data = d
			}
		}
		if !res {
			data = nil
		}
		return res, data
	case "OR":
		res := false
		var data Data
		for _, k := range n.Kids {
			r, d := eval(k, e)
			if r {
				res = true
				data = append(data, d...)
			}
		}
		return res, data
	case "NOT":
		r, _ := eval(n.Kids[0], e)
		return !r, nil
	case "ANY", "ALL":
		elems, ok := selectElems(n, e)
		if !ok {
			return false, nil // no document at all
		}
		any, all := false, true
		var data Data
		for _, el := range elems {
			r, _ := eval(n.Kids[0], env{e.msg, el, true})
			if r {
				any = true
				if n.Ret != nil {
					data = append(data, readRet(n.Ret, e.msg.Doc, el))
				}
			} else {
				all = false
			}
		}
		if n.Op == "ANY" {
			return any, data
		}
		return all, nil
	case "LEAF":
		r := leaf(n, e)
		if r && n.Ret != nil && n.Path != nil {
			return r, Data{readRet(n.Ret, e.msg.Doc, nil)}
		}
		return r, nil
	}
	panic("node " + n.Op)
}

func readRet(ret map[string]Path, doc, elem interface{}) map[string]interface{} {
	out := map[string]interface{}{}
	for name, p := range ret {
		if p.Whole {
			out[name] = elem
			continue
		}
		base := doc
		if p.Root == Rel {
			base = elem
		}
		if v, ok := Find(base, p.Segs); ok && v != nil {
			out[name] = v
		}
	}
	return out
}

func selectElems(n *Node, e env) ([]interface{}, bool) {
	out := []interface{}{}
	if !e.msg.HasDoc {
		return nil, false
	}
	for _, p := range n.Parent {
		switch {
		case p.Whole: // the pairs of the element
			if !e.hasElem {
				ood("relative parent outside ANY/ALL")
			}
			switch x := e.elem.(type) {
			case map[string]interface{}:
				for _, k := range sortedKeys(x) {
					out = append(out, Pair(k, x[k]))
				}
			default:
				ood("pairs of a non-object")
			}
		case p.Root == Rel:
			if !e.hasElem {
				ood("relative parent outside ANY/ALL")
			}
			out = append(out, Select(e.elem, p.Segs)...)
		default:
			out = append(out, Select(e.msg.Doc, p.Segs)...)
		}
	}
	return out, true
}

func leaf(n *Node, e env) bool {
	v := n.ValueText()
	if n.Path != nil {
		if !e.msg.HasDoc {
			return false
		}
		switch n.Path.Root {
		case Abs:
			x, found := Find(e.msg.Doc, n.Path.Segs)
			return CompareDoc(x, found, n.Method, v)
		case Rel:
			if !e.hasElem {
				ood("relative path outside ANY/ALL")
			}
			x, found := Find(e.elem, n.Path.Segs)
			return CompareDoc(x, found, n.Method, v)
		case Key, Value:
			if !e.hasElem {
				ood("key/value path outside ANY/ALL")
			}
			obj, ok := e.elem.(map[string]interface{})
			if !ok || len(obj) != 1 {
				ood("key/value of something else than a pair")
			}
			for k, x := range obj {
				if n.Path.Root == Key {
					return CompareDoc(k, true, n.Method, v)
				}
				y, found := Find(x, n.Path.Segs)
				return CompareDoc(y, found, n.Method, v)
			}
		}
		panic("root")
	}
	return AttrHolds(n.Attr, n.Method, v, e.msg)
}

// AttrHolds decides a condition on a message attribute
func AttrHolds(attr, method, value string, m *Msg) bool {
	u := strings.ToUpper(method)
	switch attr {
	case "true", "TRUE":
		return true
	case "false", "FALSE":
		return false
	case "payloadSize":
		if k, err := strconv.ParseInt(value, 10, 64); err == nil { // two integers: exact
			return cmpHolds(big.NewInt(m.Size).Cmp(big.NewInt(k)), u)
		}
		return numHolds(new(big.Rat).SetInt64(m.Size), u, value)
	case "utcHoursFromMidnight":
		r := new(big.Rat)
		r.SetFloat64(m.Hours)
		return numHolds(r, u, value)
	case "encryptionVersion":
		if m.EncVersion == nil {
			return false
		}
		// decimal text of the version, as written in the message
		r, _ := new(big.Rat).SetString(strconv.FormatFloat(*m.EncVersion, 'f', -1, 64))
		return numHolds(r, u, value)
	case "requestUseragent":
		return textHolds(m.UserAgent, u, value)
	case "encryptionType":
		return textHolds(m.EncType, u, value)
	case "domain":
		return textHolds(m.Domain, u, value)
	}
	object := func(who, what string) string {
		switch who + "." + what {
		case "$sender.namespace":
			return m.SenderNamespace
		case "$sender.cluster":
			return m.SenderCluster
		case "$receiver.namespace":
			return m.ReceiverNamespace
		case "$receiver.cluster":
			return m.ReceiverCluster
		}
		ood("object attribute")
		return ""
	}
	if strings.HasPrefix(attr, "$sender.") || strings.HasPrefix(attr, "$receiver.") {
		i := strings.Index(attr, ".")
		v := object(attr[:i], attr[i+1:])
		if strings.HasPrefix(value, "$receiver.") {
			if attr[:i] != "$sender" {
				ood("reference value on a receiver attribute")
			}
			return exactHolds(v, u, object("$receiver", strings.TrimPrefix(value, "$receiver.")))
		}
		return textHolds(v, u, value)
	}
	for prefix, labels := range map[string]map[string]string{"senderLabel[": m.SenderLabels, "receiverLabel[": m.ReceiverLabels} {
		if strings.HasPrefix(attr, prefix) {
			k := strings.TrimSuffix(strings.TrimPrefix(attr, prefix), "]")
			v, ok := labels[k]
			if u == "NEX" {
				return !ok
			}
			if !ok {
				return false
			}
			if u == "EX" {
				return true
			}
			if strings.HasPrefix(value, "receiverLabel[") {
				if prefix != "senderLabel[" {
					ood("reference value on a receiver label")
				}
				v2, ok := m.ReceiverLabels[strings.TrimSuffix(strings.TrimPrefix(value, "receiverLabel["), "]")]
				if !ok {
					return false
				}
				return exactHolds(v, u, v2)
			}
			return textHolds(v, u, value)
		}
	}
	ood("attribute " + attr)
	return false
}

func numHolds(a *big.Rat, u, value string) bool {
	b, ok := Quantity(value)
	if !ok {
		switch u {
		case "EQ":
			return false
		case "NEQ", "NE":
			return true
		}
		ood("number method with a text")
	}
	return cmpHolds(numCmp(a, b), u)
}

func exactHolds(a, u, b string) bool {
	switch u {
	case "EQ":
		return a == b
	case "NEQ", "NE":
		return a != b
	}
	ood("method on references")
	return false
}

func textHolds(a, u, value string) bool {
	switch u {
	case "EQ":
		return Glob(value, a)
	case "NEQ", "NE":
		return !Glob(value, a)
	case "RE":
		return regexp.MustCompile(value).MatchString(a)
	case "NRE":
		return !regexp.MustCompile(value).MatchString(a)
	case "IN", "IS", "NIN":
		in := false
		for _, it := range Items(value) {
			if it == a {
				in = true
			}
		}
		return in == (u != "NIN")
	case "EX":
		return a != ""
	case "NEX":
		return a == ""
	}
	ood("method " + u + " on a text")
	return false
}

// Clone copies a tree
func (n *Node) Clone() *Node {
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	if n.Path != nil {
		p := *n.Path
		c.Path = &p
	}
	if n.Ret != nil {
		c.Ret = map[string]Path{}
		for k, v := range n.Ret {
			c.Ret[k] = v
		}
	}
	c.Parent = append([]Path(nil), n.Parent...)
	return &c
}

// Walk visits all nodes
func (n *Node) Walk(f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		k.Walk(f)
	}
}

// Size counts the nodes
func (n *Node) Size() int {
	c := 0
	n.Walk(func(*Node) { c++ })
	return c
}

// SortedKeys of a map of paths
func SortedKeys(m map[string]Path) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
