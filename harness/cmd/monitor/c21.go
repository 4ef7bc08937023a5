package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"verif/harness/ref"
)

// quantityText writes a rational as a decimal with the given suffix, if it has a short exact decimal form
func quantityText(q *big.Rat, unit string) (string, bool) {
	x := new(big.Rat).Set(q)
	if unit != "" {
		x.Quo(x, ref.Units[unit])
	}
	if x.IsInt() {
		s := x.Num().String()
		return s + unit, len(s) < 16
	}
	s := x.FloatString(18)
	s = strings.TrimRight(s, "0")
	y, _ := new(big.Rat).SetString(s)
	if y.Cmp(x) != 0 || len(strings.Trim(strings.Replace(s, ".", "", 1), "-0")) > 15 {
		return "", false
	}
	return s + unit, true
}

var orderMethods = []string{"LT", "LE", "EQ", "GE", "GT", "NEQ", "NE"}

func c21(t *T) {
	r := t.R
	units := append([]string{""}, ref.UnitNames...)
	// every pair of suffixes: equal and neighbouring quantities, all methods
	idx := 0
	for _, ua := range units {
		for _, ub := range units {
			for k := 0; k < 12; k++ {
				idx++
				if !t.Mine(idx) {
					continue
				}
				t.quantityPair(r, ua, ub, k)
			}
		}
	}
	for i := t.N(1500, 40000); i > 0; i-- {
		t.quantityPair(r, pick(r, units), pick(r, units), r.Intn(12))
	}
	// texts which are no quantities
	texts := []string{"abc", "1KiB", "1 K", "K", "1k", "Ki", "1KK", "1.2.3", "--1", "1e", "e3", "%", "m", "1KKi", "5%%", "1mi", "1_000", "1,000", "ten", "1Kib", "nan", "inf", "Infinity", "-inf", "+Inf", "-Infinity", "-nan", "NaN", "+", "-", ".", "1E3K", "0x10", "1Zi", "10 ", " 10"}
	for i, s := range texts {
		for j, v := range []interface{}{"10", 10, "1Ki", "0"} {
			if !t.Mine(i*4 + j) {
				continue
			}
			for _, meth := range orderMethods {
				for _, form := range docForms {
					n := &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Abs, Segs: []ref.Seg{ref.N("q")}}, Method: caseOf(r, meth), Value: v}
					if _, ok := t.diffTree(n, &ref.Msg{Doc: M{"q": s}, HasDoc: true}, form, diffOpts{}); ok {
						t.Obs("not a number")
					}
				}
			}
		}
	}
}

func (t *T) quantityPair(r *rand.Rand, ua, ub string, k int) {
	one := big.NewRat(1, 1)
	unit := func(u string) *big.Rat {
		if u == "" {
			return one
		}
		return ref.Units[u]
	}
	// a base quantity which is a small multiple of the larger unit
	base := new(big.Rat).Mul(big.NewRat(int64(1+r.Intn(20)), int64([]int{1, 2, 4, 5, 8, 10, 100}[r.Intn(7)])), unit(pick(r, []string{ua, ub})))
	if k == 0 {
		base = new(big.Rat)
	}
	a, b := new(big.Rat).Set(base), new(big.Rat).Set(base)
	step := new(big.Rat).Mul(unit(pick(r, []string{ua, ub})), big.NewRat(1, int64([]int{1, 2, 10, 1000, 1e6, 1e10, 1e12}[r.Intn(7)])))
	switch k % 4 {
	case 1:
		a.Add(a, step)
	case 2:
		b.Add(b, step)
	case 3:
		a.Mul(a, big.NewRat(int64(r.Intn(2000)), 1000))
	}
	if r.Intn(6) == 0 {
		a.Neg(a)
		if r.Intn(2) == 0 {
			b.Neg(b)
		}
	}
	sa, ok1 := quantityText(a, ua)
	sb, ok2 := quantityText(b, ub)
	if !ok1 || !ok2 {
		// no short exact form in these units: unrelated small numbers
		sa, sb = fmt.Sprintf("%d%s", r.Intn(3000), ua), fmt.Sprintf("%d%s", r.Intn(3000), ub)
	}
	qa, _ := ref.Quantity(sa)
	qb, _ := ref.Quantity(sb)
	var doc interface{} = sa
	if ua == "" && chance(r, 0.5) && !strings.HasPrefix(sa, "+") {
		doc = num(sa)
	}
	var val interface{} = sb
	for _, meth := range orderMethods {
		n := &ref.Node{Op: "LEAF", Path: &ref.Path{Root: ref.Abs, Segs: []ref.Seg{ref.N("q")}}, Method: caseOf(r, meth), Value: val}
		t.diffTree(n, &ref.Msg{Doc: M{"q": doc}, HasDoc: true}, pick(r, docForms), diffOpts{})
	}
	t.Obs(fmt.Sprintf("cmp %d", qa.Cmp(qb)))
}
