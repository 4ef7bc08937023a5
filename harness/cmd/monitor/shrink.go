package main

import (
	"verif/harness/ref"
)

// docVariants lists documents that are one step smaller
func docVariants(v interface{}) []interface{} {
	var out []interface{}
	switch x := v.(type) {
	case map[string]interface{}:
		if len(x) > 50 { // large ones lose a part at a time
			for b := 0; b < 8; b++ {
				c := M{}
				for i, k := range sortedKeys(x) {
					if i*8/len(x) != b {
						c[k] = x[k]
					}
				}
				out = append(out, c)
			}
			return out
		}
		for _, k := range sortedKeys(x) {
			c := M{}
			for k2, v2 := range x {
				if k2 != k {
					c[k2] = v2
				}
			}
			out = append(out, c)
		}
		for _, k := range sortedKeys(x) {
			for _, s := range docVariants(x[k]) {
				c := M{}
				for k2, v2 := range x {
					c[k2] = v2
				}
				c[k] = s
				out = append(out, c)
			}
		}
	case []interface{}:
		if len(x) > 50 {
			for b := 0; b < 8; b++ {
				c := L{}
				for i, e := range x {
					if i*8/len(x) != b {
						c = append(c, e)
					}
				}
				out = append(out, c)
			}
			return out
		}
		for i := range x {
			c := append(append(L{}, x[:i]...), x[i+1:]...)
			out = append(out, c)
		}
		for i := range x {
			for _, s := range docVariants(x[i]) {
				c := append(L{}, x...)
				c[i] = s
				out = append(out, c)
			}
		}
	}
	return out
}

// treeVariants lists trees that are one step smaller
func treeVariants(n *ref.Node) []*ref.Node {
	var out []*ref.Node
	if len(n.Kids) > 50 {
		for b := 0; b < 8; b++ {
			c := *n
			c.Kids = nil
			for i, k := range n.Kids {
				if i*8/len(n.Kids) != b {
					c.Kids = append(c.Kids, k)
				}
			}
			out = append(out, &c)
		}
		return out
	}
	if n.Op == "AND" || n.Op == "OR" || n.Op == "NOT" {
		out = append(out, n.Kids...)
	}
	if len(n.Kids) > 1 {
		for i := range n.Kids {
			c := *n
			c.Kids = append(append([]*ref.Node{}, n.Kids[:i]...), n.Kids[i+1:]...)
			out = append(out, &c)
		}
	}
	if len(n.Parent) > 1 {
		for i := range n.Parent {
			c := *n
			c.Parent = append(append([]ref.Path{}, n.Parent[:i]...), n.Parent[i+1:]...)
			out = append(out, &c)
		}
	}
	if len(n.Ret) > 0 {
		c := *n
		c.Ret = nil
		out = append(out, &c)
	}
	for i := range n.Kids {
		for _, s := range treeVariants(n.Kids[i]) {
			c := *n
			c.Kids = append([]*ref.Node{}, n.Kids...)
			c.Kids[i] = s
			out = append(out, &c)
		}
	}
	return out
}

// shrink reduces a failing tree and document while they keep failing, in a bounded number of steps
func shrink(tree *ref.Node, m *ref.Msg, fails func(*ref.Node, *ref.Msg) bool) (*ref.Node, *ref.Msg) {
	budget := 3000
	ok := func(n *ref.Node, mm *ref.Msg) (res bool) {
		budget--
		defer func() {
			if recover() != nil {
				res = false
			}
		}()
		return fails(n, mm)
	}
	for changed := true; changed && budget > 0; {
		changed = false
		for _, v := range treeVariants(tree) {
			if budget > 0 && ok(v, m) {
				tree, changed = v, true
				break
			}
		}
		if changed || !m.HasDoc {
			continue
		}
		for _, v := range docVariants(m.Doc) {
			c := *m
			c.Doc = v
			if budget > 0 && ok(tree, &c) {
				m, changed = &c, true
				break
			}
		}
	}
	return tree, m
}
