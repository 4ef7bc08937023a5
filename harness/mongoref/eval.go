// Package mongoref evaluates the part of the MongoDB query language that filters and pipelines need:
// logical operators, comparisons with type bracketing, $exists, $regex, $elemMatch with implicit array
// traversal, and the pipeline stages $match, $addFields/$set (with $objectToArray) and $project-free pipelines.
package mongoref

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

// Unknown is panicked for an operator the evaluator does not know
type Unknown struct{ What string }

// Invalid is panicked for a query which the database would refuse
type Invalid struct{ What string }

// the names which the database knows and this evaluator does not
const (
	stages = " $bucket $bucketAuto $collStats $count $densify $documents $facet $fill $geoNear $graphLookup $group $indexStats $limit " +
		"$lookup $merge $out $planCacheStats $project $redact $replaceRoot $replaceWith $sample $search $setWindowFields $skip $sort " +
		"$sortByCount $unionWith $unset $unwind "
	topLevel    = " $expr $jsonSchema $text $where $sampleRate $alwaysTrue $alwaysFalse "
	operators   = " $type $all $mod $bitsAllClear $bitsAllSet $bitsAnyClear $bitsAnySet $geoIntersects $geoWithin $near $nearSphere $jsonSchema "
	expressions = " $abs $add $allElementsTrue $and $anyElementTrue $arrayElemAt $arrayToObject $avg $ceil $cmp $concat $concatArrays $cond " +
		"$convert $divide $eq $exp $filter $first $floor $function $getField $gt $gte $in $indexOfArray $isArray $isNumber $last $let " +
		"$literal $lt $lte $map $max $mergeObjects $min $mod $multiply $ne $not $or $pow $range $reduce $regexFind $regexFindAll " +
		"$regexMatch $replaceAll $replaceOne $reverseArray $round $setField $setUnion $setIntersection $setDifference $setIsSubset " +
		"$size $slice $sortArray $split $sqrt $strcasecmp $strLenCP $substrCP $subtract $sum $switch $toBool $toDouble $toInt $toLong " +
		"$toLower $toString $toUpper $trim $trunc $type $unsetField $zip "
)

// unsupported tells a name which the database would refuse from one it knows
func unsupported(kind, name, known string) interface{} {
	if strings.Contains(known, " "+name+" ") {
		return Unknown{kind + " " + name}
	}
	return Invalid{kind + " " + name}
}

// M is an object, A an array
type M = map[string]interface{}

// A is an array
type A = []interface{}

// Generic normalises any query value by writing and reading it as BSON
func Generic(q interface{}) (interface{}, error) {
	b, err := bson.Marshal(bson.M{"q": q})
	if err != nil {
		return nil, err
	}
	var out bson.D
	if err := bson.Unmarshal(b, &out); err != nil {
		return nil, err
	}
	return plain(out[0].Value), nil
}

func plain(v interface{}) interface{} {
	switch x := v.(type) {
	case primitive.D:
		m := M{}
		for _, e := range x {
			m[e.Key] = plain(e.Value)
		}
		return m
	case primitive.M:
		m := M{}
		for k, e := range x {
			m[k] = plain(e)
		}
		return m
	case primitive.A:
		a := A{}
		for _, e := range x {
			a = append(a, plain(e))
		}
		return a
	case int32:
		return float64(x)
	case int64:
		return float64(x)
	case int:
		return float64(x)
	case primitive.Regex:
		return M{"$regex": x.Pattern, "$options": x.Options}
	}
	return v
}

// Select runs a filter (object) or a pipeline (array) and tells whether the document is selected
func Select(q interface{}, doc M) bool {
	switch x := q.(type) {
	case nil:
		return true
	case M:
		return Match(x, doc)
	case A:
		for _, st := range x {
			stage, ok := st.(M)
			if !ok || len(stage) != 1 {
				panic(Invalid{fmt.Sprintf("stage %v", st)})
			}
			for name, body := range stage {
				b, ok := body.(M)
				if !ok {
					panic(unsupported("stage", name, stages))
				}
				switch name {
				case "$match":
					if !Match(b, doc) {
						return false
					}
				case "$addFields", "$set":
					doc = addFields(b, doc)
				default:
					panic(unsupported("stage", name, stages))
				}
			}
		}
		return true
	}
	panic(Invalid{fmt.Sprintf("query %T", q)})
}

func clone(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		m := M{}
		for k, e := range x {
			m[k] = clone(e)
		}
		return m
	case A:
		a := A{}
		for _, e := range x {
			a = append(a, clone(e))
		}
		return a
	}
	return v
}

func addFields(spec M, doc M) M {
	vals := map[string]interface{}{}
	for k, e := range spec {
		v, ok := expr(e, doc)
		if ok {
			vals[k] = v
		}
	}
	out := clone(doc).(M)
	keys := []string{}
	for k := range vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		set(out, strings.Split(k, "."), vals[k])
	}
	return out
}

func set(m M, path []string, v interface{}) {
	if len(path) == 1 {
		m[path[0]] = v
		return
	}
	switch sub := m[path[0]].(type) {
	case M:
		set(sub, path[1:], v)
	case A:
		for i, e := range sub {
			s, ok := e.(M)
			if !ok {
				s = M{}
			}
			set(s, path[1:], v)
			sub[i] = s
		}
	default:
		s := M{}
		m[path[0]] = s
		set(s, path[1:], v)
	}
}

func expr(e interface{}, doc M) (interface{}, bool) {
	switch x := e.(type) {
	case string:
		if strings.HasPrefix(x, "$") {
			return exprPath(doc, strings.Split(x[1:], "."))
		}
		return x, true
	case M:
		if len(x) == 1 {
			for op, arg := range x {
				switch op {
				case "$objectToArray":
					v, ok := expr(arg, doc)
					if !ok || v == nil {
						return nil, true
					}
					o, isObj := v.(M)
					if !isObj {
						panic(Invalid{"$objectToArray of something else than an object"})
					}
					a := A{}
					for k, v := range o {
						a = append(a, M{"k": k, "v": v})
					}
					return a, true
				case "$ifNull":
					l, _ := arg.(A)
					for _, a := range l {
						if v, ok := expr(a, doc); ok && v != nil {
							return v, true
						}
					}
					return nil, true
				}
				if strings.HasPrefix(op, "$") {
					panic(unsupported("expression", op, expressions))
				}
			}
		}
		m := M{}
		for k, a := range x {
			if v, ok := expr(a, doc); ok {
				m[k] = v
			}
		}
		return m, true
	}
	return e, true
}

func exprPath(v interface{}, path []string) (interface{}, bool) {
	if len(path) == 0 {
		return v, true
	}
	switch x := v.(type) {
	case M:
		s, ok := x[path[0]]
		if !ok {
			return nil, false
		}
		return exprPath(s, path[1:])
	case A:
		out := A{}
		for _, e := range x {
			if _, isObj := e.(M); isObj {
				if s, ok := exprPath(e, path); ok {
					out = append(out, s)
				}
			}
		}
		return out, true
	}
	return nil, false
}

// Match evaluates a filter on a document
func Match(q M, doc interface{}) bool {
	for k, v := range q {
		if !matchKey(k, v, doc) {
			return false
		}
	}
	return true
}

func clauses(v interface{}) []M {
	l, ok := v.(A)
	if !ok || len(l) == 0 {
		panic(Invalid{"$and/$or/$nor must be a nonempty array"})
	}
	var out []M
	for _, e := range l {
		m, ok := e.(M)
		if !ok {
			panic(Invalid{"$and/$or/$nor entries need to be full objects"})
		}
		out = append(out, m)
	}
	return out
}

func matchKey(k string, v interface{}, doc interface{}) bool {
	switch k {
	case "$and":
		res := true
		for _, c := range clauses(v) {
			if !Match(c, doc) {
				res = false
			}
		}
		return res
	case "$or", "$nor":
		res := false
		for _, c := range clauses(v) {
			if Match(c, doc) {
				res = true
			}
		}
		return res == (k == "$or")
	}
	if strings.HasPrefix(k, "$") {
		if k == "$comment" {
			return true
		}
		panic(unsupported("top level operator", k, topLevel))
	}
	if k == "" || strings.HasPrefix(k, ".") || strings.HasSuffix(k, ".") || strings.Contains(k, "..") {
		panic(Invalid{"field name [" + k + "]"})
	}
	ends := lookup(doc, strings.Split(k, "."))
	if m, ok := v.(M); ok && hasOps(m) {
		for op, arg := range m {
			if op == "$options" {
				continue
			}
			if !matchOp(op, arg, m, ends) {
				return false
			}
		}
		return true
	}
	return anyEqual(ends, v)
}

func hasOps(m M) bool {
	n := 0
	for k := range m {
		if strings.HasPrefix(k, "$") {
			n++
		}
	}
	if n > 0 && n != len(m) {
		panic(Invalid{"operators mixed with fields"})
	}
	return n > 0
}

// lookup gives the values found at a path, with implicit array traversal
func lookup(v interface{}, path []string) []interface{} {
	if len(path) == 0 {
		return []interface{}{v}
	}
	switch x := v.(type) {
	case M:
		s, ok := x[path[0]]
		if !ok {
			return nil
		}
		return lookup(s, path[1:])
	case A:
		var out []interface{}
		if i, err := strconv.Atoi(path[0]); err == nil && i >= 0 && i < len(x) {
			out = append(out, lookup(x[i], path[1:])...)
		}
		for _, e := range x {
			if _, isObj := e.(M); isObj {
				out = append(out, lookup(e, path)...)
			}
		}
		return out
	}
	return nil
}

// expand adds the elements of arrays, as comparisons do
func expand(ends []interface{}) []interface{} {
	var out []interface{}
	for _, e := range ends {
		out = append(out, e)
		if a, ok := e.(A); ok {
			out = append(out, a...)
		}
	}
	return out
}

func anyEqual(ends []interface{}, v interface{}) bool {
	if len(ends) == 0 {
		return v == nil
	}
	for _, e := range expand(ends) {
		if equal(e, v) {
			return true
		}
	}
	return false
}

func equal(a, b interface{}) bool {
	switch x := a.(type) {
	case M:
		y, ok := b.(M)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !equal(v, w) {
				return false
			}
		}
		return true
	case A:
		y, ok := b.(A)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case M, A:
		return false
	}
	return a == b
}

// less compares values of one type; ok is false for different types
func less(a, b interface{}) (lt, ok bool) {
	switch x := a.(type) {
	case float64:
		y, is := b.(float64)
		return is && x < y, is
	case string:
		y, is := b.(string)
		return is && x < y, is
	case bool:
		y, is := b.(bool)
		return is && !x && y, is
	}
	return false, false
}

func matchOp(op string, arg interface{}, all M, ends []interface{}) bool {
	some := func(f func(e interface{}) bool) bool {
		for _, e := range expand(ends) {
			if f(e) {
				return true
			}
		}
		return false
	}
	switch op {
	case "$eq":
		return anyEqual(ends, arg)
	case "$ne":
		return !anyEqual(ends, arg)
	case "$gt":
		return some(func(e interface{}) bool { lt, ok := less(arg, e); return ok && lt })
	case "$lt":
		return some(func(e interface{}) bool { lt, ok := less(e, arg); return ok && lt })
	case "$gte":
		return some(func(e interface{}) bool { lt, ok := less(e, arg); return ok && !lt })
	case "$lte":
		return some(func(e interface{}) bool { lt, ok := less(arg, e); return ok && !lt })
	case "$in", "$nin":
		l, ok := arg.(A)
		if !ok {
			panic(Invalid{op + " needs an array"})
		}
		res := false
		for _, x := range l {
			if m, isM := x.(M); isM && m["$regex"] != nil {
				if matchOp("$regex", m["$regex"], m, ends) {
					res = true
				}
				continue
			}
			if anyEqual(ends, x) {
				res = true
			}
		}
		return res == (op == "$in")
	case "$exists":
		want := true
		switch x := arg.(type) {
		case bool:
			want = x
		case float64:
			want = x != 0
		}
		return (len(ends) > 0) == want
	case "$regex":
		pat := ""
		switch x := arg.(type) {
		case string:
			pat = x
		case M:
			pat, _ = x["$regex"].(string)
		}
		if o, ok := all["$options"].(string); ok && o != "" {
			pat = "(?" + o + ")" + pat
		}
		re, err := regexp.Compile(pat)
		if err != nil {
			panic(Invalid{"regular expression " + pat})
		}
		return some(func(e interface{}) bool { s, ok := e.(string); return ok && re.MatchString(s) })
	case "$not":
		m, ok := arg.(M)
		if !ok || !hasOps(m) {
			panic(Invalid{"$not needs operators"})
		}
		for o, a := range m {
			if o == "$options" {
				continue
			}
			if !matchOp(o, a, m, ends) {
				return true
			}
		}
		return false
	case "$elemMatch":
		m, ok := arg.(M)
		if !ok {
			panic(Invalid{"$elemMatch needs an object"})
		}
		byValue := false
		for k := range m {
			if strings.HasPrefix(k, "$") && k != "$and" && k != "$or" && k != "$nor" {
				byValue = true
			}
		}
		for _, e := range ends {
			a, isArr := e.(A)
			if !isArr {
				continue
			}
			for _, el := range a {
				if byValue {
					good := true
					for o, x := range m {
						if o != "$options" && !matchOp(o, x, m, []interface{}{el}) {
							good = false
						}
					}
					if good {
						return true
					}
					continue
				}
				switch el.(type) {
				case M, A:
					if Match(m, el) {
						return true
					}
				}
			}
		}
		return false
	case "$size":
		for _, e := range ends {
			if a, isArr := e.(A); isArr && arg == float64(len(a)) {
				return true
			}
		}
		return false
	}
	panic(unsupported("operator", op, operators))
}
