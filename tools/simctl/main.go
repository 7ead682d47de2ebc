// simctl builds the simulator against the repository's working tree, searches
// seeds for a property, minimises what it finds and writes evidence.
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type violation struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Msg      string `json:"msg"`
	AtMS     int64  `json:"at_ms"`
}

type result struct {
	Verdict    string           `json:"verdict"`
	Violations []violation      `json:"violations"`
	Harness    string           `json:"harness"`
	SimMS      int64            `json:"sim_ms"`
	LogHash    string           `json:"log_hash"`
	LogLines   int64            `json:"log_lines"`
	Picks      uint64           `json:"picks"`
	PickHash   string           `json:"pick_hash"`
	Switches   uint64           `json:"switches"`
	MapYields  uint64           `json:"map_yields"`
	Yields     uint64           `json:"yields"`
	Preempts   uint64           `json:"preempts"`
	Stalls     uint64           `json:"stalls"`
	Faults     map[string]int64 `json:"faults"`
	Probes     map[string]int64 `json:"probes"`
	YieldActs  [][2]int64       `json:"yield_acts"`
	Sites      string           `json:"sites"`

	raw []byte
}

type plan map[string]interface{}

type runner struct {
	bin  string
	dir  string
	next int64
}

func (v violation) covers(prop string) bool {
	for _, p := range strings.Split(v.Property, ",") {
		if p == prop {
			return true
		}
	}
	return false
}

var crashLine = regexp.MustCompile(`(?m)^(fatal error: .*|panic: .*|unexpected fault address .*)$`)

// exec1 runs the simulator once in its own directory.
func (r *runner) exec1(timeout time.Duration, args ...string) (*result, error) {
	n := atomic.AddInt64(&r.next, 1)
	wd := filepath.Join(r.dir, fmt.Sprintf("w%d", n))
	if err := os.MkdirAll(wd, 0o755); err != nil {
		return nil, err
	}
	defer os.RemoveAll(wd)
	res := filepath.Join(wd, "result.json")
	for i, a := range args {
		if a == "RESULT" {
			args[i] = res
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, args...)
	cmd.Dir = wd
	cmd.Env = []string{"HOME=" + wd, "GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=2GiB", "GOTRACEBACK=all", "TZ=UTC", "PATH=/usr/bin:/bin"}
	var stderr limitedBuf
	cmd.Stderr = &stderr
	err := cmd.Run()
	if ctx.Err() != nil {
		return &result{Verdict: "hang", Violations: []violation{{Property: "*", Class: "hang", Msg: "the simulated system computes without end: no progress in simulated time"}}}, nil
	}
	bs, rerr := os.ReadFile(res)
	if rerr == nil && len(bs) > 0 {
		out := &result{raw: bs}
		if jerr := json.Unmarshal(bs, out); jerr != nil {
			return nil, jerr
		}
		return out, nil
	}
	txt := stderr.String()
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 2 {
		if loc := crashLine.FindString(txt); loc != "" {
			who, stack := crashOwner(txt)
			if who == "sut" {
				return &result{Verdict: "violation", Violations: []violation{{Property: "*", Class: "crash", Msg: "the ckube process died: " + loc + " in " + stack}}}, nil
			}
			return nil, fmt.Errorf("the harness crashed: %s in %s", loc, stack)
		}
	}
	tail := txt
	if len(tail) > 600 {
		tail = tail[len(tail)-600:]
	}
	return nil, fmt.Errorf("run %v ended without a result: %v: %s", args, err, tail)
}

// crashOwner decides whose goroutine died.
func crashOwner(txt string) (string, string) {
	i := crashLine.FindStringIndex(txt)
	if i == nil {
		return "?", ""
	}
	rest := txt[i[0]:]
	j := strings.Index(rest, "\ngoroutine ")
	if j < 0 {
		return "?", ""
	}
	rest = rest[j+1:]
	if e := strings.Index(rest, "\n\n"); e > 0 {
		rest = rest[:e]
	}
	var frames []string
	owner := ""
	lines := strings.Split(rest, "\n")
	for k := 1; k+1 < len(lines); k += 2 {
		fn, file := lines[k], strings.TrimSpace(lines[k+1])
		if p := strings.LastIndex(fn, "("); p > 0 && !strings.HasPrefix(fn, "created by") {
			fn = fn[:p]
		}
		if strings.HasPrefix(fn, "runtime.") || strings.HasPrefix(fn, "internal/runtime") || fn == "panic" {
			continue
		}
		if len(frames) < 6 {
			frames = append(frames, fn)
		}
		if owner == "" && strings.Contains(file, "/sim/") && (strings.HasPrefix(fn, "main.") || strings.HasPrefix(fn, "created by main.") || strings.Contains(fn, "fsnotify")) {
			owner = "harness"
		}
		if owner == "" && strings.Contains(fn, "DaoCloud/ckube") {
			owner = "sut"
		}
		if owner == "" && strings.HasPrefix(fn, "created by k8s.io/") {
			owner = "sut"
		}
	}
	if owner == "" {
		owner = "sut"
		if strings.Contains(rest, "/verif/sim/") {
			owner = "harness"
		}
	}
	return owner, strings.Join(frames, " < ")
}

type limitedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 4<<20 {
		l.b.Write(p)
	} else if crashLine.Match(p) || bytes.Contains(p, []byte("goroutine ")) {
		if l.b.Len() < 8<<20 {
			l.b.Write(p)
		}
	}
	return len(p), nil
}
func (l *limitedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

const runTimeout = 60 * time.Second

func (r *runner) runSeed(prop string, seed uint64) (*result, error) {
	return r.exec1(runTimeout, "gen-run", prop, strconv.FormatUint(seed, 10), "RESULT")
}

func (r *runner) runPlan(p plan, timeout time.Duration) (*result, error) {
	n := atomic.AddInt64(&r.next, 1)
	f := filepath.Join(r.dir, fmt.Sprintf("plan%d.json", n))
	bs, _ := json.Marshal(p)
	if err := os.WriteFile(f, bs, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	return r.exec1(timeout, "run", f, "RESULT")
}

func (r *runner) gen(prop string, seed uint64) plan {
	cmd := exec.Command(r.bin, "gen", prop, strconv.FormatUint(seed, 10))
	cmd.Dir = r.dir
	cmd.Env = []string{"HOME=" + r.dir, "GOMAXPROCS=1", "GOGC=off"}
	out, err := cmd.Output()
	must(err)
	return decodePlan(out)
}

func decodePlan(bs []byte) plan {
	d := json.NewDecoder(bytes.NewReader(bs))
	d.UseNumber()
	p := plan{}
	must(d.Decode(&p))
	return p
}

func (p plan) clone() plan {
	bs, _ := json.Marshal(p)
	return decodePlan(bs)
}

// find returns the first violation of prop with the given class ("" any).
func (res *result) find(prop, class string) *violation {
	for i := range res.Violations {
		v := &res.Violations[i]
		if v.Property != "*" && !v.covers(prop) {
			continue
		}
		if class != "" && v.Class != class {
			continue
		}
		return v
	}
	return nil
}

// ------------------------------------------------------------ known findings

type known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

func loadKnown(verif string) []known {
	bs, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Known []known `json:"known"`
	}
	must(json.Unmarshal(bs, &f))
	return f.Known
}

func isKnown(ks []known, v *violation) *known {
	for i := range ks {
		if v.covers(ks[i].Property) && v.Class == ks[i].Class && regexp.MustCompile(ks[i].Match).MatchString(v.Msg) {
			return &ks[i]
		}
	}
	return nil
}

// ------------------------------------------------------------ minimising

type minimiser struct {
	r     *runner
	prop  string
	class string
	dead  time.Time
	runs  int64
}

func (m *minimiser) bad(p plan) bool {
	atomic.AddInt64(&m.runs, 1)
	t := runTimeout
	res, err := m.r.runPlan(p, t)
	return err == nil && res.find(m.prop, m.class) != nil
}

// first returns the index of the first candidate that still fails.
func (m *minimiser) first(cands []plan) int {
	ok := make([]bool, len(cands))
	for i := 0; i < len(cands); i += 8 {
		if time.Now().After(m.dead) {
			return -1
		}
		var wg sync.WaitGroup
		e := i + 8
		if e > len(cands) {
			e = len(cands)
		}
		for j := i; j < e; j++ {
			wg.Add(1)
			go func(j int) { defer wg.Done(); ok[j] = m.bad(cands[j]) }(j)
		}
		wg.Wait()
		for j := i; j < e; j++ {
			if ok[j] {
				return j
			}
		}
	}
	return -1
}

// list shrinks the list get/set deals with.
func (m *minimiser) list(p plan, get func(plan) []interface{}, set func(plan, []interface{})) plan {
	chunk := (len(get(p)) + 1) / 2
	for chunk >= 1 && time.Now().Before(m.dead) {
		xs := get(p)
		if len(xs) == 0 {
			return p
		}
		var cands []plan
		for i := 0; i < len(xs); i += chunk {
			e := i + chunk
			if e > len(xs) {
				e = len(xs)
			}
			q := p.clone()
			ys := append([]interface{}{}, get(q)[:i]...)
			ys = append(ys, get(q)[e:]...)
			set(q, ys)
			cands = append(cands, q)
		}
		if i := m.first(cands); i >= 0 {
			p = cands[i]
			if chunk > len(get(p)) {
				chunk = len(get(p))
			}
			continue
		}
		chunk /= 2
	}
	return p
}

func (m *minimiser) try(p plan, f func(plan)) plan {
	if time.Now().After(m.dead) {
		return p
	}
	q := p.clone()
	f(q)
	if m.bad(q) {
		return q
	}
	return p
}

func field(name string) (func(plan) []interface{}, func(plan, []interface{})) {
	return func(p plan) []interface{} { x, _ := p[name].([]interface{}); return x },
		func(p plan, v []interface{}) { p[name] = v }
}

func schedOf(p plan) map[string]interface{} {
	s, _ := p["sched"].(map[string]interface{})
	if s == nil {
		s = map[string]interface{}{}
		p["sched"] = s
	}
	return s
}

func (m *minimiser) minimise(p plan) plan {
	gs, ss := field("steps")
	gi, si := field("init")
	p = m.list(p, gs, ss)
	p = m.list(p, gi, si)
	p = m.try(p, func(q plan) { schedOf(q)["stall"] = 0 })
	p = m.try(p, func(q plan) { schedOf(q)["preempt"] = 0 })
	p = m.try(p, func(q plan) { schedOf(q)["map_prob"] = 0 })
	p = m.try(p, func(q plan) { schedOf(q)["pick"] = 0 })
	p = m.try(p, func(q plan) { q["latency"] = nil })
	p = m.try(p, func(q plan) { delete(q, "max_seg") })
	// the schedule: pin the preemptions that happened, then drop them
	if n, _ := strconv.Atoi(fmt.Sprint(schedOf(p)["preempt"])); n > 0 || fmt.Sprint(schedOf(p)["stall"]) != "0" {
		q := p.clone()
		q["record_acts"] = true
		if res, err := m.r.runPlan(q, runTimeout); err == nil && res.find(m.prop, m.class) != nil && len(res.YieldActs) < 60000 && len(res.YieldActs) > 0 {
			acts := []interface{}{}
			for _, a := range res.YieldActs {
				acts = append(acts, []interface{}{a[0], a[1]})
			}
			q := p.clone()
			schedOf(q)["acts"] = acts
			schedOf(q)["use_acts"] = true
			if m.bad(q) {
				p = m.list(q, func(p plan) []interface{} { x, _ := schedOf(p)["acts"].([]interface{}); return x },
					func(p plan, v []interface{}) { schedOf(p)["acts"] = v })
			}
		}
	}
	p = m.list(p, gs, ss)
	p = m.list(p, gi, si)
	return p
}

// ------------------------------------------------------------ check

type tally struct {
	mu        sync.Mutex
	runs      int64
	simMS     int64
	picks     uint64
	switches  uint64
	yields    uint64
	preempts  uint64
	stalls    uint64
	mapYields uint64
	faults    map[string]int64
	faultRuns map[string]int64
	probes    map[string]int64
	inter     map[string]bool
	logs      map[string]bool
	nontriv   map[string]bool
	sites     []byte
	other     map[string]int64
	samples   []interface{}
}

func checkedCount(m map[string]int64) int64 {
	var n int64
	for k, v := range m {
		if strings.Contains(k, "checked") {
			n += v
		}
	}
	return n
}

func (t *tally) add(seed uint64, res *result, prop string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	t.simMS += res.SimMS
	t.picks += res.Picks
	t.switches += res.Switches
	t.yields += res.Yields
	t.preempts += res.Preempts
	t.stalls += res.Stalls
	t.mapYields += res.MapYields
	for k, v := range res.Faults {
		t.faults[k] += v
		t.faultRuns[k]++
	}
	for k, v := range res.Probes {
		t.probes[k] += v
	}
	t.inter[res.PickHash] = true
	t.logs[res.LogHash] = true
	n := checkedCount(res.Probes)
	if n > 0 && res.Yields > 0 {
		t.nontriv[res.LogHash+res.PickHash] = true
	}
	if b, err := hex.DecodeString(res.Sites); err == nil {
		for len(t.sites) < len(b) {
			t.sites = append(t.sites, 0)
		}
		for i := range b {
			t.sites[i] |= b[i]
		}
	}
	for _, v := range res.Violations {
		if v.Property != "*" && !v.covers(prop) {
			t.other[v.Property+" "+v.Class]++
		}
	}
	if len(t.samples) < 4 && n > 0 {
		t.samples = append(t.samples, map[string]interface{}{"seed": seed, "simulated_ms": res.SimMS, "events": res.LogLines, "log_hash": res.LogHash, "schedule_hash": res.PickHash, "faults": res.Faults, "oracle": res.Probes})
	}
}

func seedOf(prop string, base, i uint64) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", prop, base, i)))
	var x uint64
	for k := 0; k < 8; k++ {
		x = x<<8 | uint64(h[k])
	}
	return x >> 1
}

func envInt(name string, def int) int {
	if v := os.Getenv(name); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

func check(verif, repo, prop, tier string) int {
	begin := time.Now()
	dir, err := os.MkdirTemp("", "ckubesim-")
	must(err)
	defer os.RemoveAll(dir)
	b := build(verif, repo, filepath.Join(dir, "b"))
	buildS := time.Since(begin).Seconds()
	r := &runner{bin: b.Bin, dir: filepath.Join(dir, "runs")}
	must(os.MkdirAll(r.dir, 0o755))
	base := uint64(envInt("VERIF_SEED", 1))
	budget := 26
	if tier == "thorough" {
		budget = 600
	}
	budget = envInt("SIM_BUDGET_S", budget)
	maxRuns := envInt("SIM_RUNS", 1<<30)
	workers := envInt("SIM_WORKERS", 8)
	ks := loadKnown(verif)

	t := &tally{faults: map[string]int64{}, faultRuns: map[string]int64{}, probes: map[string]int64{}, inter: map[string]bool{}, logs: map[string]bool{}, nontriv: map[string]bool{}, other: map[string]int64{}}
	type hit struct {
		i    uint64
		seed uint64
		v    violation
		res  *result
	}
	var mu sync.Mutex
	var hits []hit
	var failed []string
	knownSeen := map[string]bool{}
	var detRuns, detBad int64
	var idx int64 = -1
	deadline := time.Now().Add(time.Duration(budget) * time.Second)
	var wg sync.WaitGroup
	stop := int32(0)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(deadline) && atomic.LoadInt32(&stop) == 0 {
				i := uint64(atomic.AddInt64(&idx, 1))
				if int(i) >= maxRuns {
					return
				}
				seed := seedOf(prop, base, i)
				res, err := r.runSeed(prop, seed)
				if err == nil && res.Verdict == "hang" {
					// once more, with twice the time
					res, err = r.exec1(2*runTimeout, "gen-run", prop, strconv.FormatUint(seed, 10), "RESULT")
				}
				if err == nil && res.Verdict == "harness" {
					err = fmt.Errorf("seed %d: harness: %s", seed, res.Harness)
				}
				if err != nil {
					mu.Lock()
					failed = append(failed, fmt.Sprintf("seed %d: %v", seed, err))
					if len(failed) > 3 {
						atomic.StoreInt32(&stop, 1)
					}
					mu.Unlock()
					continue
				}
				t.add(seed, res, prop)
				if i%50 == 7 && res.Verdict != "hang" && len(res.raw) > 0 {
					// the same again, from its plan: must be the same execution
					r2, err2 := r.runPlan(r.gen(prop, seed), 2*runTimeout)
					atomic.AddInt64(&detRuns, 1)
					if err2 != nil || !bytes.Equal(r2.raw, res.raw) {
						atomic.AddInt64(&detBad, 1)
					}
				}
				for _, v := range res.Violations {
					if v.Property != "*" && !v.covers(prop) {
						continue
					}
					mu.Lock()
					if k := isKnown(ks, &v); k != nil {
						knownSeen[k.What] = true
					} else {
						hits = append(hits, hit{i, seed, v, res})
						atomic.StoreInt32(&stop, 1)
					}
					mu.Unlock()
					break
				}
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(begin).Seconds() - buildS

	code := 0
	nviol := 0
	var report string
	if len(hits) > 0 {
		sort.Slice(hits, func(a, b int) bool { return hits[a].i < hits[b].i })
		for k, h := range hits {
			if code != 0 || k > 4 {
				break
			}
			p := r.gen(prop, h.seed)
			m := &minimiser{r: r, prop: prop, class: h.v.Class, dead: time.Now().Add(time.Duration(envInt("SIM_MIN_S", 60)) * time.Second)}
			if res, err := r.runPlan(p, 2*runTimeout); err == nil && res.find(prop, h.v.Class) != nil {
				if h.v.Class != "hang" {
					p = m.minimise(p)
				}
				res, err := r.runPlan(p, 2*runTimeout)
				if err == nil && res.find(prop, h.v.Class) != nil {
					v := res.find(prop, h.v.Class)
					p["expect"] = map[string]interface{}{"property": prop, "class": v.Class, "msg": v.Msg, "at_ms": v.AtMS}
					p["expect_log_hash"] = res.LogHash
					p["found_with_seed"] = h.seed
					rp := filepath.Join(verif, "evidence", "replay")
					must(os.MkdirAll(rp, 0o755))
					f := filepath.Join(rp, fmt.Sprintf("%s-%d.json", prop, h.seed))
					bs, _ := json.MarshalIndent(p, "", " ")
					must(os.WriteFile(f, bs, 0o644))
					nviol = len(hits)
					code = 1
					report = fmt.Sprintf("VIOLATION property=%s replay=%s", prop, f)
					fmt.Printf("seed %d: [%s] %s\n", h.seed, h.v.Class, h.v.Msg)
					fmt.Printf("minimised: [%s] %s (%d steps, %d initial objects, %d minimising runs)\n", v.Class, v.Msg, len(p["steps"].([]interface{})), lenOf(p["init"]), m.runs)
				}
			}
			if code == 0 {
				fmt.Printf("seed %d: [%s] %s\n", h.seed, h.v.Class, h.v.Msg)
				failed = append(failed, fmt.Sprintf("seed %d: violation [%s] did not reproduce from its plan", h.seed, h.v.Class))
			}
		}
	}
	if code == 0 && len(failed) > 0 {
		code = 2
	}
	for _, k := range ks {
		if k.Property == prop || strings.Contains(k.Property, prop) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	siteHits := 0
	for _, x := range t.sites {
		siteHits += bits.OnesCount8(x)
	}
	wall := time.Since(begin).Seconds()
	cov := map[string]interface{}{
		"evaluations":         t.runs,
		"distinct_nontrivial": len(t.nontriv),
		"rule": "one evaluation is one simulated execution of the whole system drawn from a seed (topology, configuration, workload, fault sequence, scheduler); " +
			"distinct means a different pair of event-log hash and scheduling-decision hash; non-trivial means code under test ran and the oracle of this property's profile compared at least one answer with the reference",
		"samples":                             t.samples,
		"runs_per_hour":                       int64(float64(t.runs) / searchS * 3600),
		"seeds_per_hour":                      int64(float64(t.runs) / searchS * 3600),
		"simulated_hours":                     float64(t.simMS) / 3600000,
		"simulated_seconds_per_run":           float64(t.simMS) / 1000 / float64(max64(t.runs, 1)),
		"faults_injected":                     t.faults,
		"runs_with_fault":                     t.faultRuns,
		"oracle_comparisons":                  t.probes,
		"distinct_schedules":                  len(t.inter),
		"distinct_schedules_measure":          "distinct hashes over the sequence of scheduler decisions (which runnable goroutine runs next, at every decision)",
		"distinct_event_logs":                 len(t.logs),
		"scheduler_decisions":                 t.picks,
		"goroutine_switches":                  t.switches,
		"yield_points_passed":                 t.yields,
		"forced_preemptions":                  t.preempts,
		"map_write_preemptions":               t.mapYields,
		"injected_stalls":                     t.stalls,
		"yield_sites_reached":                 siteHits,
		"yield_sites_total":                   len(b.Sites) - 1,
		"instrumentation_level":               b.Level,
		"source_hash":                         b.Hash,
		"determinism":                         map[string]interface{}{"seeds_run_twice": detRuns, "different": detBad, "workers": workers},
		"violations_of_other_properties_seen": t.other,
		"build_s":                             buildS,
		"search_s":                            searchS,
		"real_components":                     realParts(prop),
		"stub_components":                     stubParts(prop),
	}
	if len(failed) > 0 {
		cov["harness_errors"] = failed
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"the simulated API servers behave like a linearizable kube-apiserver: per-object versions, watch events in commit order, synthetic ADDED events for a watch without resourceVersion",
			"goroutine switches happen at scheduler yield points: blocking operations, map writes, and the statement and field-read points compiled into the repository's code; tearing of single words and weak memory orderings are not explored",
			"the Go toolchain used for simulation (1.25) runs the repository like the one that builds it",
		},
		"wall_s": wall, "violations": nviol,
	}
	bs, _ := json.MarshalIndent(ev, "", " ")
	must(os.MkdirAll(filepath.Join(verif, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), bs, 0o644))
	for _, f := range failed {
		fmt.Fprintln(os.Stderr, "simctl: error:", f)
	}
	fmt.Printf("%s %s: %d runs, %d distinct, %.1f simulated hours, %d oracle comparisons, %d violations, build %.0fs search %.0fs\n", prop, tier, t.runs, len(t.nontriv), float64(t.simMS)/3600000, checkedCount(t.probes), nviol, buildS, searchS)
	if code == 0 && t.runs == 0 {
		fmt.Fprintln(os.Stderr, "simctl: error: nothing ran")
		code = 2
	}
	if report != "" {
		fmt.Println(report)
	}
	return code
}

func lenOf(x interface{}) int {
	l, _ := x.([]interface{})
	return len(l)
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func replay(verif, repo, file string, verbose bool) int {
	dir, err := os.MkdirTemp("", "ckubesim-")
	must(err)
	defer os.RemoveAll(dir)
	bs, err := os.ReadFile(file)
	must(err)
	p := decodePlan(bs)
	b := build(verif, repo, filepath.Join(dir, "b"))
	r := &runner{bin: b.Bin, dir: filepath.Join(dir, "runs")}
	must(os.MkdirAll(r.dir, 0o755))
	if verbose {
		wd := filepath.Join(dir, "v")
		must(os.MkdirAll(wd, 0o755))
		abs, _ := filepath.Abs(file)
		cmd := exec.Command(b.Bin, "run", abs, filepath.Join(wd, "r.json"), "-v")
		cmd.Dir = wd
		cmd.Env = []string{"HOME=" + wd, "GOMAXPROCS=1", "GOGC=off", "TZ=UTC"}
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		_ = cmd.Run()
	}
	res, err := r.runPlan(p, 2*runTimeout)
	must(err)
	prop := fmt.Sprint(p["property"])
	ex, _ := p["expect"].(map[string]interface{})
	class := ""
	if ex != nil {
		class = fmt.Sprint(ex["class"])
	}
	fmt.Printf("log hash %s (recorded %v)\n", res.LogHash, p["expect_log_hash"])
	for _, v := range res.Violations {
		fmt.Printf("at %d ms: %s [%s] %s\n", v.AtMS, v.Property, v.Class, v.Msg)
	}
	if res.find(prop, class) != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		return 1
	}
	fmt.Println("not reproduced on this tree")
	return 0
}

func main() {
	verif, repo := os.Getenv("SIM_VERIF"), os.Getenv("SIM_REPO")
	if verif == "" {
		verif = "/verif"
	}
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) < 3 {
		fatalf("usage: simctl build DIR | check ID [quick|thorough] | replay FILE [-v]")
	}
	switch os.Args[1] {
	case "build":
		b := build(verif, repo, os.Args[2])
		fmt.Println(b.Bin, b.Level, len(b.Sites), b.Hash)
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(verif, repo, os.Args[2], tier))
	case "replay":
		os.Exit(replay(verif, repo, os.Args[2], len(os.Args) > 3))
	default:
		fatalf("unknown command %s", os.Args[1])
	}
}

func realParts(prop string) []string {
	lib := "encoding/json, sync, context, templates, jsonpath (Go 1.25 with a scheduler that takes its choices from the seed)"
	switch prop {
	case "C05":
		return []string{"memory store, indexes, queries, sorting, pagination", "page and label-selector helpers", "prometheus client", lib}
	case "C18":
		return []string{"fake API server package (pkg/client/fake)", "API proxy", "memory store, indexes, queries, pagination", "HTTP server, router", "client-go, apimachinery, gorilla/mux", "Go net/http client and server", lib}
	}
	return []string{"ckube main, configuration loading and reload", "file watcher", "HTTP server, router, authentication, metrics handlers", "API proxy", "memory store, indexes, queries, pagination", "watcher", "deployment-to-services API", "page and label-selector helpers", "client-go, apimachinery, gorilla/mux, prometheus client", "Go net/http client and server", lib}
}

func stubParts(prop string) []string {
	switch prop {
	case "C05":
		return []string{"the watcher and the HTTP handlers (driven by generated writers and readers that call the store)", "clock and timers (virtual time)"}
	case "C18":
		return []string{"TCP (simulated streams)", "clock and timers (virtual time)"}
	}
	return []string{"Kubernetes API servers (simulated, with full object history)", "TCP (simulated streams)", "clock and timers (virtual time)", "inotify (simulated; files are real files in a scratch directory)", "process exit"}
}
