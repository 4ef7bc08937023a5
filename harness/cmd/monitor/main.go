// Command monitor runs the real MAPL engine under a workload for one property and watches it with an oracle.
//
//	monitor -prop C01 -tier quick -seed 1 -evidence DIR     (parent: starts the shards, merges, decides)
//	monitor -shard 3 ...                                    (child: one shard)
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type check struct {
	run        func(*T)
	rule       string         // how cases are made and what makes one non-trivial
	minQuick   int            // least number of distinct non-trivial cases
	need       map[string]int // least observations, by name
	assumption []string
	shards     int
	level      string
}

var checks = map[string]*check{}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.Int("shard", -1, "shard (child mode)")
	shards := flag.Int("shards", 8, "number of shards")
	dir := flag.String("dir", "", "scratch directory")
	ev := flag.String("evidence", "", "evidence directory")
	flag.Parse()
	log.SetOutput(io.Discard)
	if *shard >= 0 {
		os.Exit(runShard(*prop, *tier, *seed, *shard, *shards, filepath.Join(*dir, fmt.Sprintf("%s.%d", *prop, *shard))))
	}
	os.Exit(parent(*prop, *tier, *seed, *dir, *ev))
}

func parent(prop, tier string, seed int64, dir, ev string) int {
	c, ok := checks[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	start := time.Now()
	shards := 8
	if c.shards > 0 {
		shards = c.shards
	}
	par := runtime.NumCPU()
	if par > shards {
		par = shards
	}
	sem := make(chan struct{}, par)
	type childOut struct {
		code   int
		stderr string
	}
	outs := make([]childOut, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			cmd := exec.Command(os.Args[0], "-prop", prop, "-tier", tier, "-seed", strconv.FormatInt(seed, 10),
				"-shard", strconv.Itoa(i), "-shards", strconv.Itoa(shards), "-dir", dir)
			var eb limitWriter
			cmd.Stderr = &eb
			err := cmd.Run()
			code := 0
			if err != nil {
				code = -1
				if ee, ok := err.(*exec.ExitError); ok {
					code = ee.ExitCode()
				}
			}
			outs[i] = childOut{code, eb.String()}
		}(i)
	}
	wg.Wait()

	var viol *Violation
	harnessError := ""
	keys := map[uint64]struct{}{}
	counters := map[string]int{}
	known := map[string]int{}
	var samples []interface{}
	evals, ood := 0, 0
	for i, o := range outs {
		base := filepath.Join(dir, fmt.Sprintf("%s.%d", prop, i))
		races := strings.Count(o.stderr, "WARNING: DATA RACE")
		counters["race reports"] += races
		if o.code == 3 {
			harnessError = o.stderr
			continue
		}
		if races > 0 && viol == nil {
			viol = &Violation{prop, "data race reported by the race detector", tier, seed, i, 0, D{"report": firstN(raceReport(o.stderr), 6000)}}
		}
		if o.code == 66 && races == 0 && viol == nil {
			viol = &Violation{prop, "data race found by the race detector", tier, seed, i, 0, D{"report": "lost in the output"}}
		}
		b, err := os.ReadFile(base + ".json")
		if err != nil || (o.code != 0 && o.code != 66) {
			// the process died in the engine (fatal error, stack overflow, endless loop) or was killed
			if strings.Contains(o.stderr, "fatal error") || strings.Contains(o.stderr, "HANG") || strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "goroutine stack exceeds") {
				if viol == nil {
					viol = &Violation{prop, "engine crashed or did not return", tier, seed, i, 0, D{"stderr": firstN(o.stderr, 4000), "case": lastCase(base + ".case")}}
				}
			} else if err != nil && o.code >= 0 && o.code != 2 {
				// no result was written: the engine ended the process
				if viol == nil {
					viol = &Violation{prop, fmt.Sprintf("engine ended the process with code %d", o.code), tier, seed, i, 0, D{"stderr": lastN(o.stderr, 4000), "case": lastCase(base + ".case")}}
				}
			} else {
				harnessError = fmt.Sprintf("shard %d ended with code %d\n%s", i, o.code, firstN(o.stderr, 4000))
			}
			continue
		}
		var r ShardResult
		if err := json.Unmarshal(b, &r); err != nil {
			harnessError = err.Error()
			continue
		}
		evals += r.Evals
		ood += r.OOD
		for k, v := range r.Counters {
			if !strings.HasPrefix(k, "sample:") {
				counters[k] += v
			}
		}
		for k, v := range r.Known {
			known[k] += v
		}
		samples = append(samples, r.Samples...)
		if r.Violation != nil && viol == nil {
			viol = r.Violation
		}
		kb, _ := os.ReadFile(base + ".keys")
		for j := 0; j+8 <= len(kb); j += 8 {
			keys[binary.LittleEndian.Uint64(kb[j:])] = struct{}{}
		}
	}
	for i := 0; i < shards; i++ {
		base := filepath.Join(dir, fmt.Sprintf("%s.%d", prop, i))
		for _, s := range []string{".json", ".keys", ".case"} {
			os.Remove(base + s)
		}
	}

	nv := 0
	if viol != nil {
		nv = 1
	}
	level := c.level
	if level == "" {
		level = "exploration"
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	evidence := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(keys), "rule": c.rule, "samples": samples,
			"observed": counters, "out_of_domain": ood,
		},
		"assumptions": c.assumption, "wall_s": time.Since(start).Seconds(), "violations": nv,
	}
	if c.assumption == nil {
		evidence["assumptions"] = []string{}
	}
	eb, _ := json.MarshalIndent(evidence, "", " ")
	os.MkdirAll(ev, 0755)
	if err := os.WriteFile(filepath.Join(ev, prop+".json"), eb, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	replay := filepath.Join(ev, "replay-"+prop+".json")
	os.Remove(replay)
	if viol != nil {
		rb, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(replay, rb, 0644)
		fmt.Printf("what: %s\n%s\n", viol.What, firstN(string(rb), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	if harnessError != "" {
		fmt.Fprintln(os.Stderr, "check error:", harnessError)
		return 2
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times)\n", prop, k, known[k])
	}
	// a run that observed too little is not a pass
	if len(keys) < c.minQuick {
		fmt.Fprintf(os.Stderr, "check error: only %d distinct non-trivial cases (need %d)\n", len(keys), c.minQuick)
		return 2
	}
	for k, n := range c.need {
		if counters[k] < n {
			fmt.Fprintf(os.Stderr, "check error: observed %q %d times (need %d)\n", k, counters[k], n)
			return 2
		}
	}
	fmt.Printf("held: property=%s tier=%s seed=%d evaluations=%d distinct=%d out_of_domain=%d wall=%.1fs\n", prop, tier, seed, evals, len(keys), ood, time.Since(start).Seconds())
	return 0
}

// limitWriter keeps the beginning and the end of an output
type limitWriter struct {
	head, tail []byte
}

const keepOutput = 200000

func (l *limitWriter) Write(p []byte) (int, error) {
	n := len(p)
	if k := keepOutput - len(l.head); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		l.head = append(l.head, p[:k]...)
		p = p[k:]
	}
	l.tail = append(l.tail, p...)
	if len(l.tail) > 2*keepOutput {
		l.tail = append([]byte(nil), l.tail[len(l.tail)-keepOutput:]...)
	}
	return n, nil
}

func (l *limitWriter) String() string { return string(l.head) + string(l.tail) }

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func lastN(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func raceReport(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		return s[i:]
	}
	return s
}

func lastCase(path string) string {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 4 {
		return ""
	}
	n := int(binary.LittleEndian.Uint32(b))
	if n > len(b)-4 {
		n = len(b) - 4
	}
	return string(b[4 : 4+n])
}
