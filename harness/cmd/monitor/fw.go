package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/ref"
)

// T is the state of one shard of one check: workload randomness, observations and the verdict.
type T struct {
	Prop, Tier    string
	Seed          int64
	Shard, Shards int
	R             *rand.Rand

	mu       sync.Mutex
	evals    int
	ood      int
	keys     map[uint64]struct{}
	counters map[string]int
	sampled  map[string]bool
	samples  []interface{}
	known    map[string]int

	progress int64
	curDesc  atomic.Value
	cpFile   *os.File
}

// stop is thrown after a violation was recorded
type stop struct{ v Violation }

// Violation is written to the replay file
type Violation struct {
	Property string                 `json:"property"`
	What     string                 `json:"what"`
	Tier     string                 `json:"tier"`
	Seed     int64                  `json:"seed"`
	Shard    int                    `json:"shard"`
	Case     int                    `json:"case"`
	Detail   map[string]interface{} `json:"detail"`
}

// D is the detail of a case
type D map[string]interface{}

// ShardResult is what a shard reports to the parent process
type ShardResult struct {
	Evals     int            `json:"evals"`
	OOD       int            `json:"ood"`
	Counters  map[string]int `json:"counters"`
	Samples   []interface{}  `json:"samples"`
	Known     map[string]int `json:"known"`
	Violation *Violation     `json:"violation"`
}

// N gives the number of random cases of this shard
func (t *T) N(quick, thorough int) int {
	n := quick
	if t.Tier == "thorough" {
		n = thorough
	}
	return (n + t.Shards - 1) / t.Shards
}

// Thorough tells whether this is the thorough tier
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Mine tells whether a systematically enumerated case belongs to this shard
func (t *T) Mine(i int) bool { return i%t.Shards == t.Shard }

// Obs counts an observation
func (t *T) Obs(name string) {
	t.mu.Lock()
	t.counters[name]++
	t.mu.Unlock()
}

// Eval counts one monitored evaluation; key is non-empty for non-trivial cases and identifies the case
func (t *T) Eval(key string) {
	t.mu.Lock()
	t.evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		t.keys[h.Sum64()] = struct{}{}
	}
	t.mu.Unlock()
	atomic.AddInt64(&t.progress, 1)
}

// Sample keeps a few cases for the evidence
func (t *T) Sample(kind string, d D) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.Shard != 0 || t.sampled[kind] || len(t.samples) >= 60 {
		return
	}
	if len(jsonText(d)) > 6000 { // a smaller case of that kind will follow
		return
	}
	if t.sampled == nil {
		t.sampled = map[string]bool{}
	}
	t.sampled[kind] = true
	d["kind"] = kind
	t.samples = append(t.samples, d)
}

// Begin marks the start of a case (used if the process dies in it)
func (t *T) Begin(desc string) {
	t.curDesc.Store(desc)
	atomic.AddInt64(&t.progress, 1)
	if t.cpFile != nil {
		if len(desc) > 16000 {
			desc = desc[:16000]
		}
		buf := make([]byte, 4+len(desc))
		binary.LittleEndian.PutUint32(buf, uint32(len(desc)))
		copy(buf[4:], desc)
		t.cpFile.WriteAt(buf, 0)
	}
}

// Fail records a violation and ends the shard
func (t *T) Fail(what string, d D) {
	panic(stop{Violation{t.Prop, what, t.Tier, t.Seed, t.Shard, t.evals, d}})
}

// Known counts a reproduction of a known finding
func (t *T) Known(what string) {
	t.mu.Lock()
	t.known[what]++
	t.mu.Unlock()
}

// enginePanic is a panic that came out of the engine
type enginePanic struct {
	val   interface{}
	stack string
}

func (p enginePanic) String() string { return fmt.Sprintf("%v", p.val) }

// try runs an engine call and returns a recovered panic, if any
func try(f func()) (p *enginePanic) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case stop, ref.OutOfDomain:
				panic(r)
			}
			s := string(debug.Stack())
			if len(s) > 3000 {
				s = s[:3000]
			}
			p = &enginePanic{r, s}
		}
	}()
	f()
	return nil
}

// Call runs an engine call; a panic is a violation
func (t *T) Call(name string, d D, f func()) {
	if p := try(f); p != nil {
		dd := D{}
		for k, v := range d {
			dd[k] = v
		}
		dd["call"], dd["panic"], dd["stack"] = name, p.String(), p.stack
		t.Fail("engine panic in "+name, dd)
	}
}

// fromEngine tells whether the panic with this stack was raised below an engine call, not in the harness itself
func fromEngine(stack string) bool {
	lines := strings.Split(stack, "\n")
	first := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			first = i
		}
	}
	for _, l := range lines[first:] {
		if strings.HasPrefix(l, "github.com/octarinesec/MAPL/") {
			return true
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif/harness/") {
			return false
		}
	}
	return false
}

// InDomain runs an oracle; it returns false if the case is outside the oracle's domain
func (t *T) InDomain(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if o, is := r.(ref.OutOfDomain); is {
				t.mu.Lock()
				t.ood++
				t.counters["ood:"+o.Why]++
				t.mu.Unlock()
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

func runShard(prop, tier string, seed int64, shard, shards int, outPrefix string) int {
	check, ok := checks[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	t := &T{Prop: prop, Tier: tier, Seed: seed, Shard: shard, Shards: shards,
		keys: map[uint64]struct{}{}, counters: map[string]int{}, known: map[string]int{}}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, shard)
	t.R = rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
	if f, err := os.Create(outPrefix + ".case"); err == nil {
		t.cpFile = f
	}
	// a call that does not return for minutes (normal: well below a millisecond) is reported as a hang
	done := make(chan struct{})
	go func() {
		last, since := int64(-1), time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(5 * time.Second):
			}
			p := atomic.LoadInt64(&t.progress)
			if p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > 240*time.Second {
				fmt.Fprintln(os.Stderr, "HANG")
				buf, _ := t.curDesc.Load().(string)
				fmt.Fprintln(os.Stderr, buf)
				os.Exit(7)
			}
		}
	}()
	res := ShardResult{}
	code := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, is := r.(stop); is {
					res.Violation = &s.v
					return
				}
				stack := string(debug.Stack())
				if fromEngine(stack) { // a panic of the engine outside of Call
					desc, _ := t.curDesc.Load().(string)
					if len(stack) > 4000 {
						stack = stack[:4000]
					}
					res.Violation = &Violation{t.Prop, "engine panic", t.Tier, t.Seed, t.Shard, t.evals, D{"case": desc, "panic": fmt.Sprint(r), "stack": stack}}
					return
				}
				fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", r, stack)
				code = 3
			}
		}()
		check.run(t)
	}()
	close(done)
	res.Evals, res.OOD, res.Counters, res.Samples, res.Known = t.evals, t.ood, t.counters, t.samples, t.known
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		return 3
	}
	os.WriteFile(outPrefix+".json", b, 0644)
	kb := make([]byte, 0, 8*len(t.keys))
	for k := range t.keys {
		kb = binary.LittleEndian.AppendUint64(kb, k)
	}
	os.WriteFile(outPrefix+".keys", kb, 0644)
	return code
}

// helpers -----------------------------------------------------------------

func pick[X any](r *rand.Rand, xs []X) X { return xs[r.Intn(len(xs))] }

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

func jsonText(v interface{}) string {
	var sb strings.Builder
	enc := json.NewEncoder(&sb)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return strings.ReplaceAll(strings.TrimSuffix(sb.String(), "\n"), "\u007f", `\u007f`) // YAML wants it escaped
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
