package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"

	"verif/harness/ref"
)

func init() {
	checks["C19"] = &check{run: c19, rule: "random lists of 0-6 messages and 0-6 rules with distinct identifiers; the report is compared with the reference outcome of every pair; non-trivial: some pair applies and some does not", minQuick: 1500,
		need: map[string]int{"covered": 2000, "not covered": 2000, "rule without messages": 1000, "rule with several messages": 1000, "message with several rules": 1000, "big": 80}}
	checks["C20"] = &check{run: c20, rule: "random lists of 0-5 messages with random subsets of fields, timestamps of all shapes, labels and addresses, read from text or file; every field and derived attribute is compared with the values the text was made from; non-trivial: at least two messages", minQuick: 3000,
		need: map[string]int{"messages": 8000, "rejected timestamp": 1000, "fraction": 1000, "offset": 1000, "labels": 2000, "no labels": 500, "valid address": 2000, "invalid address": 500, "type path": 500, "type port": 500, "type given": 300, "type empty": 300, "from file": 300, "used": 1000, "big": 40}}
}

func c19(t *T) {
	r := t.R
	n := t.N(6000, 80000)
	for i := 0; i < n; i++ {
		nm, nr := r.Intn(7), r.Intn(7)
		long := chance(r, 0.02)
		if long { // one of the two lists is long
			nm, nr = bigSize(r, 257), 1+r.Intn(4)
			if chance(r, 0.5) {
				nm, nr = nr, nm
			}
			t.Obs("big")
		}
		var ms []*ref.Msg
		var xs []*ref.Rule
		ids := r.Perm(50 + nm + nr)
		shared := genDoc(r)
		for k := 0; k < nm; k++ {
			m := genBasicMsg(r)
			m.ID = fmt.Sprintf("m%d", ids[k])
			genMsgAttrs(r, m)
			if chance(r, 0.6) {
				m.Doc, m.HasDoc = genDoc(r), true
				if chance(r, 0.3) {
					m.Doc = shared
				}
			}
			if k > 0 && chance(r, 0.2) { // the same content under another identifier
				c := *pick(r, ms)
				c.ID = m.ID
				m = &c
			}
			ms = append(ms, m)
		}
		for k := 0; k < nr; k++ {
			m := &ref.Msg{}
			if nm > 0 {
				m = pick(r, ms)
			}
			var cond *ref.Node
			if chance(r, 0.5) {
				cond = genTree(r, m, r.Intn(3), treeOpts{attrs: true, ret: true})
				if !m.HasDoc {
					cond = attrLeaf(r, m)
				}
			}
			x := genRule(r, m, fmt.Sprintf("r%d", ids[nm+k]), cond)
			if long && k > 5 {
				cond = nil
			}
			if chance(r, 0.4) || long && k > 5 && chance(r, 0.9) {
				d := x.Decision
				x = plainRule(cond)
				x.Decision, x.ID = d, fmt.Sprintf("r%d", ids[nm+k])
			}
			xs = append(xs, x)
		}
		want := make([][]int, nm)
		if !t.InDomain(func() {
			for k, m := range ms {
				for _, x := range xs {
					d, _ := ref.Applies(x, m)
					want[k] = append(want[k], d)
				}
			}
		}) {
			continue
		}
		text := rulesText(xs, r)
		var det []D
		var msgs me.Messages
		for _, m := range ms {
			det = append(det, msgDetail(m))
			msgs.Messages = append(msgs.Messages, *buildMsg(m, pick(r, docForms), r))
		}
		d := D{"rules": text, "messages": det}
		t.Begin(text)
		rules := t.mustLoad(text, d)
		var mc map[string]me.MessageCoverage
		var rc map[string][]string
		t.Call("Coverage", d, func() { mc, rc = me.Coverage(&msgs, &rules) })
		fail := func(what string, e, g interface{}) {
			d["expected"], d["got"] = e, g
			t.Fail(what, d)
		}
		if len(mc) != nm {
			fail("number of messages in the report", nm, len(mc))
		}
		if len(rc) != nr {
			fail("number of rules in the report", nr, len(rc))
		}
		yes, no := 0, 0
		for k, m := range ms {
			best := 0
			idl := []string{}
			decs := []int{}
			for j, x := range xs {
				if w := want[k][j]; w > 0 {
					idl = append(idl, x.ID)
					decs = append(decs, w)
					if w > best {
						best = w
					}
					yes++
				} else {
					no++
				}
			}
			c, ok := mc[m.ID]
			if !ok {
				fail("a message is missing in the report", m.ID, nil)
			}
			d["message"] = m.ID
			if c.Covered != (best > 0) {
				fail("a message is reported as covered wrongly", best > 0, c.Covered)
			}
			if c.Decision != best {
				fail("decision of a message", best, c.Decision)
			}
			if !sameList(c.IdsOfCoveringRules, idl) {
				fail("identifiers of the rules covering a message", idl, c.IdsOfCoveringRules)
			}
			if !sameInts(c.DecisionsOfCoveringRules, decs) {
				fail("decisions of the rules covering a message", decs, c.DecisionsOfCoveringRules)
			}
			if best > 0 {
				t.Obs("covered")
			} else {
				t.Obs("not covered")
			}
			if len(idl) > 1 {
				t.Obs("message with several rules")
			}
		}
		delete(d, "message")
		for j, x := range xs {
			idl := []string{}
			for k, m := range ms {
				if want[k][j] > 0 {
					idl = append(idl, m.ID)
				}
			}
			got, ok := rc[x.ID]
			if !ok {
				fail("a rule is missing in the report", x.ID, nil)
			}
			if !sameList(got, idl) {
				d["rule"] = x.ID
				fail("messages covered by a rule", idl, got)
			}
			if len(idl) == 0 {
				t.Obs("rule without messages")
			}
			if len(idl) > 1 {
				t.Obs("rule with several messages")
			}
		}
		key := ""
		if yes > 0 && no > 0 {
			key = text + jsonText(det)
		}
		t.Eval(key)
		t.Sample(fmt.Sprintf("%d messages", nm), d)
	}
}

// ---- C20 -------------------------------------------------------------------------------------------

type wantMsg struct {
	fields                map[string]string // yaml key -> text
	size                  int64
	enc                   *float64
	secs                  float64
	typ                   string
	labels                [2]map[string]string
	srcIP, dstIP          string
	srcOK, dstOK, hasTime bool
}

var messageKeys = []string{"sender_ip", "sender_namespace", "sender_cluster", "receiver_ip", "receiver_port", "receiver_namespace", "receiver_cluster", "request_path", "request_host", "request_method", "request_user_agent", "request_protocol", "message_id", "sender_service", "receiver_service", "encryption_type", "domain", "request_type"}

func fieldOf(m *me.MessageAttributes, key string) string {
	switch key {
	case "sender_ip":
		return m.SourceIp
	case "sender_namespace":
		return m.SourceNamespace
	case "sender_cluster":
		return m.SourceCluster
	case "receiver_ip":
		return m.DestinationIp
	case "receiver_port":
		return m.DestinationPort
	case "receiver_namespace":
		return m.DestinationNamespace
	case "receiver_cluster":
		return m.DestinationCluster
	case "request_path":
		return m.RequestPath
	case "request_host":
		return m.RequestHost
	case "request_method":
		return m.RequestMethod
	case "request_user_agent":
		return m.RequestUseragent
	case "request_protocol":
		return m.ContextProtocol
	case "message_id":
		return m.MessageID
	case "sender_service":
		return m.SourceService
	case "receiver_service":
		return m.DestinationService
	case "encryption_type":
		return m.EncryptionType
	case "domain":
		return m.Domain
	case "request_time":
		return m.RequestTime
	case "sender_labels":
		return m.SourceLabelsJson
	case "receiver_labels":
		return m.DestinationLabelsJson
	}
	panic(key)
}

func genTimestamp(t *T, r *rand.Rand) (string, float64) {
	h, mi, s := r.Intn(24), r.Intn(60), r.Intn(60)
	if chance(r, 0.3) {
		h, mi, s = pick(r, []int{0, 12, 23}), pick(r, []int{0, 59, 30}), pick(r, []int{0, 59, 1})
	}
	text := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", 1990+r.Intn(50), 1+r.Intn(12), 1+r.Intn(28), h, mi, s)
	secs := float64(h*3600 + mi*60 + s)
	if chance(r, 0.4) {
		digits := 1 + r.Intn(9)
		frac := r.Intn(int(math.Pow10(digits)))
		text += fmt.Sprintf(".%0*d", digits, frac)
		secs += float64(frac) / math.Pow10(digits)
		t.Obs("fraction")
	}
	if chance(r, 0.5) {
		text += "Z"
	} else {
		text += fmt.Sprintf("%s%02d:%02d", pick(r, []string{"+", "-"}), r.Intn(13), pick(r, []int{0, 30, 45}))
		t.Obs("offset")
	}
	return text, secs
}

var badTimes = []string{"", "2018-07-29", "14:30:00", "2018-07-29 14:30:00Z", "2018-13-01T14:30:00Z", "2018-07-29T25:00:00Z", "2018-02-30T10:00:00Z", "2018-07-29T14:30:00", "2018-07-29T14:61:00Z", "2018-07-29T14:30:61Z", "now", "2018-07-29T14:30Z", "1532874600", "2018-00-10T14:30:00Z", "Sun, 29 Jul 2018 14:30:00 GMT", "2018-07-29T14:30:00+0700", "x2018-07-29T14:30:00Z", "2018-07-29T14:30:00Zx"}

func genWantMsg(t *T, r *rand.Rand, i int) (M, *wantMsg) {
	w := &wantMsg{fields: map[string]string{}}
	g := M{}
	put := func(k, v string) {
		g[k] = v
		w.fields[k] = v
	}
	pools := map[string][]string{
		"sender_namespace": {"default", "prod", "ns-1", "a b"}, "receiver_namespace": {"default", "kube-system"},
		"sender_cluster": {"aws:edo", "c1"}, "receiver_cluster": {"aws:edo", "c2"}, "receiver_port": {"80", "8080", "443", "x"},
		"request_path": {"/", "/a/b?x=1&y=2", "/A", "/é"}, "request_host": {"example.com", "redis-master:3337"},
		"request_method": {"GET", "POST", "get", "CONSUME"}, "request_user_agent": {"curl/7.1", "Mozilla/5.0 (X11; U)"},
		"sender_service": {"svc1", "A.my-ns"}, "receiver_service": {"svc2", "B.my-ns"}, "encryption_type": {"tls", "mtls"}, "domain": {"example.com", "a"},
		"request_protocol": {"http", "HTTP", "tcp", "TCP", "kafka", "KAFKA", "grpc", "Http", "https"}, "request_type": {"path", "kafkaTopic", "consumerGroup", "port", "Path", " path", "port ", "a b"},
	}
	for _, k := range messageKeys {
		if !chance(r, 0.7) {
			continue
		}
		switch k {
		case "message_id":
			put(k, fmt.Sprintf("id-%d", i))
		case "sender_ip", "receiver_ip":
			put(k, genIP(r))
			if chance(r, 0.1) {
				put(k, pick(r, badIPs[1:]))
			}
		default:
			put(k, pick(r, pools[k]))
		}
	}
	switch p := w.fields["request_protocol"]; p {
	case "http", "HTTP":
		w.typ = "path"
		t.Obs("type path")
	case "tcp", "TCP":
		w.typ = "port"
		t.Obs("type port")
	default:
		w.typ = w.fields["request_type"]
		if w.typ == "" {
			t.Obs("type empty")
		} else {
			t.Obs("type given")
		}
	}
	delete(w.fields, "request_type")
	if chance(r, 0.6) {
		w.size = pick(r, []int64{1, 1024, 4096, -1, 123456789012})
		g["request_size"] = w.size
	}
	if chance(r, 0.5) {
		v := pick(r, []float64{1, 1.1, 1.2, 1.3, 0})
		w.enc = &v
		g["encryption_version"] = v
	}
	ts, secs := genTimestamp(t, r)
	put("request_time", ts)
	w.secs = secs
	for k, key := range []string{"sender_labels", "receiver_labels"} {
		if !chance(r, 0.6) {
			t.Obs("no labels")
			continue
		}
		m := map[string]string{}
		var parts []string
		for j := 1 + r.Intn(4); j > 0; j-- {
			lk := pick(r, []string{"app", "ver", "tier", "a.b/c", "k-1", "k_2"})
			if _, dup := m[lk]; dup {
				continue
			}
			lv := pick(r, []string{"a", "b", "v1.2", "foo-bar", "", "10", "true", "A_b", "null"})
			m[lk] = lv
			parts = append(parts, lk+pick(r, []string{":", ": ", " : "})+lv)
		}
		if chance(r, 0.01) { // many labels, long ones
			for j := bigSize(r, 257); j > 0; j-- {
				lk := fmt.Sprintf("big%d", j)
				m[lk] = fmt.Sprintf("v%d", j)
				parts = append(parts, lk+":"+m[lk])
			}
			m["long"] = "x" + strings.Repeat("y", bigSize(r, 4097))
			parts = append(parts, "long:"+m["long"])
			t.Obs("many labels")
		}
		put(key, pick(r, []string{"{", "{ "})+strings.Join(parts, pick(r, []string{",", ", "}))+pick(r, []string{"}", " }"}))
		w.labels[k] = m
		t.Obs("labels")
	}
	_, _, w.srcOK = ref.ParseIP(w.fields["sender_ip"])
	_, _, w.dstOK = ref.ParseIP(w.fields["receiver_ip"])
	return g, w
}

// near: derived times are floating point numbers
func near(a, b float64) bool { return math.Abs(a-b) <= 1e-8*math.Max(1, math.Abs(b)) }

func c20(t *T) {
	r := t.R
	dir, err := os.MkdirTemp("", "c20")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	n := t.N(8000, 120000)
	for i := 0; i < n; i++ {
		k := r.Intn(6)
		if chance(r, 0.01) {
			k = bigSize(r, 513)
			t.Obs("big")
		}
		l := L{}
		var ws []*wantMsg
		for j := 0; j < k; j++ {
			g, w := genWantMsg(t, r, j)
			l = append(l, g)
			ws = append(ws, w)
		}
		bad := k > 0 && chance(r, 0.2)
		if bad {
			at := r.Intn(k)
			if chance(r, 0.3) {
				at = k - 1
			}
			g := l[at].(M)
			if chance(r, 0.3) {
				delete(g, "request_time")
			} else {
				g["request_time"] = pick(r, badTimes)
			}
		}
		text := rulesTextOf(M{"messages": l}, r)
		d := D{"messages": text}
		t.Begin(text)
		var msgs me.Messages
		var err error
		if chance(r, 0.1) {
			f := filepath.Join(dir, "messages.yaml")
			if e := os.WriteFile(f, []byte(text), 0644); e != nil {
				panic(e)
			}
			t.Call("YamlReadMessagesFromFile", d, func() { msgs, err = me.YamlReadMessagesFromFile(f) })
			t.Obs("from file")
		} else {
			t.Call("YamlReadMessagesFromString", d, func() { msgs, err = me.YamlReadMessagesFromString(text) })
		}
		if bad {
			if err == nil {
				t.Fail("a list with a missing or malformed timestamp was accepted", d)
			}
			t.Obs("rejected timestamp")
			t.Eval("bad" + text)
			continue
		}
		if err != nil {
			d["error"] = err.Error()
			t.Fail("valid messages were rejected", d)
		}
		if len(msgs.Messages) != k {
			d["got"] = len(msgs.Messages)
			t.Fail("number of messages", d)
		}
		for j, w := range ws {
			m := &msgs.Messages[j]
			d["position"] = j
			fail := func(what string, e, g interface{}) {
				d["expected"], d["got"] = e, g
				t.Fail(what, d)
			}
			for _, key := range append(append([]string{}, messageKeys[:17]...), "request_time", "sender_labels", "receiver_labels") {
				if key == "request_type" {
					continue
				}
				if g := fieldOf(m, key); g != w.fields[key] {
					fail("field "+key+" changed", w.fields[key], g)
				}
			}
			if m.RequestSize != w.size {
				fail("request size", w.size, m.RequestSize)
			}
			if (m.EncryptionVersion == nil) != (w.enc == nil) || w.enc != nil && *w.enc != *m.EncryptionVersion {
				fail("encryption version", w.enc, m.EncryptionVersion)
			}
			if !near(m.RequestTimeSecondsFromMidnightUTC, w.secs) {
				fail("seconds since midnight", w.secs, m.RequestTimeSecondsFromMidnightUTC)
			}
			if !near(m.RequestTimeMinutesFromMidnightUTC*60, w.secs) {
				fail("minutes since midnight", w.secs/60, m.RequestTimeMinutesFromMidnightUTC)
			}
			if !near(m.RequestTimeHoursFromMidnightUTC*3600, w.secs) {
				fail("hours since midnight", w.secs/3600, m.RequestTimeHoursFromMidnightUTC)
			}
			if m.ContextType != w.typ {
				fail("resource type", w.typ, m.ContextType)
			}
			ip := func(what, text string, valid bool, got []byte) {
				if !valid {
					t.Obs("invalid address")
					if len(got) != 0 {
						fail(what+" parsed from an invalid text", nil, fmt.Sprint(got))
					}
					return
				}
				t.Obs("valid address")
				a, v4, _ := ref.ParseIP(text)
				want := a[:]
				if v4 && len(got) == 4 {
					want = a[12:]
				}
				if string(got) != string(want) {
					fail(what, want, got)
				}
			}
			ip("sender address", w.fields["sender_ip"], w.srcOK, m.SourceNetIp)
			ip("receiver address", w.fields["receiver_ip"], w.dstOK, m.DestinationNetIp)
			for k, got := range []map[string]string{m.SourceLabels, m.DestinationLabels} {
				if len(w.labels[k]) == 0 && len(got) == 0 {
					continue
				}
				if !reflect.DeepEqual(got, w.labels[k]) {
					fail([]string{"sender labels", "receiver labels"}[k], w.labels[k], got)
				}
			}
			t.Obs("messages")
			// the derived attributes are the ones rules see
			if chance(r, 0.3) {
				h := pick(r, []float64{w.secs/3600 - 0.001, w.secs/3600 + 0.001})
				lf := &ref.Node{Op: "LEAF", Attr: "utcHoursFromMidnight", Method: "GT", Value: fmt.Sprintf("%.5f", h)}
				want := h < w.secs/3600
				if len(w.labels[0]) > 0 && chance(r, 0.5) {
					key := pick(r, sortedKeys(w.labels[0]))
					lf = &ref.Node{Op: "LEAF", Attr: "senderLabel[" + key + "]", Method: "EQ", Value: w.labels[0][key]}
					want = true
				} else if len(w.labels[1]) > 0 && chance(r, 0.5) {
					key := pick(r, sortedKeys(w.labels[1]))
					lf = &ref.Node{Op: "LEAF", Attr: "receiverLabel[" + key + "]", Method: "EQ", Value: w.labels[1][key]}
					want = true
				}
				rt := rulesText([]*ref.Rule{plainRule(lf)}, nil)
				rules := t.mustLoad(rt, d)
				var dec int
				t.Call("rule.Check", d, func() { dec, _ = rules.Rules[0].Check(m) })
				if (dec > 0) != want {
					d["rule"] = rt
					fail("a condition on a derived attribute", want, dec > 0)
				}
				t.Obs("used")
			}
		}
		key := ""
		if k > 1 {
			key = text
		}
		t.Eval(key)
		t.Sample(fmt.Sprintf("%d messages", k), d)
	}
}
