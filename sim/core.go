package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- randomness

// Rng is the only source of chance in the harness (splitmix64).
type Rng struct{ s uint64 }

func newRng(seed uint64) *Rng { return &Rng{seed} }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return mix(r.s)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Between returns a value in [a, b].
func (r *Rng) Between(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p percent.
func (r *Rng) P(p int) bool { return r.N(100) < p }

func (r *Rng) Pick(ss ...string) string { return ss[r.N(len(ss))] }

func (r *Rng) PickInt(ns ...int) int { return ns[r.N(len(ns))] }

func (r *Rng) Fork() *Rng { return &Rng{r.U64()} }

func hash64(parts ...interface{}) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for _, b := range []byte(fmt.Sprint(p)) {
			h = (h ^ uint64(b)) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	return mix(h)
}

// ---------------------------------------------------------------- the run

// Violation is one broken property.
type Violation struct {
	Property string `json:"property"`
	Class    string `json:"class"` // what kind of violation, stable under minimisation
	Msg      string `json:"msg"`
	AtMS     int64  `json:"at_ms"`
}

// Result is what one simulated run reports.
type Result struct {
	Verdict    string           `json:"verdict"` // ok, violation, harness
	Violations []Violation      `json:"violations,omitempty"`
	Harness    string           `json:"harness,omitempty"`
	SimMS      int64            `json:"sim_ms"`
	LogHash    string           `json:"log_hash"`
	LogLines   int64            `json:"log_lines"`
	Picks      uint64           `json:"picks"`
	PickHash   string           `json:"pick_hash"`
	Switches   uint64           `json:"switches"`
	MapYields  uint64           `json:"map_yields"`
	Yields     uint64           `json:"yields"`
	Preempts   uint64           `json:"preempts"`
	Stalls     uint64           `json:"stalls"`
	Faults     map[string]int64 `json:"faults"`
	Probes     map[string]int64 `json:"probes"`
	YieldActs  [][2]int64       `json:"yield_acts,omitempty"`
	StateHash  string           `json:"state_hash"`
	Sites      string           `json:"sites,omitempty"` // bitmap of yield points reached
}

// Sim is the simulation in progress (one per process).
type Sim struct {
	plan  *Plan
	start time.Time

	mu       sync.Mutex
	seq      int64
	logHash  uint64
	logLines int64
	logOut   *os.File
	faults   map[string]int64
	probes   map[string]int64
	viols    []Violation
	capture  *[]Violation

	resultPath string
	ended      bool
}

var sim *Sim

func newSim(p *Plan, resultPath string) *Sim {
	return &Sim{plan: p, faults: map[string]int64{}, probes: map[string]int64{}, logHash: 14695981039346656037, resultPath: resultPath}
}

// nowMS is simulated milliseconds since the start of the run.
func nowMS() int64 { return int64(time.Since(sim.start) / time.Millisecond) }

// lock takes the simulation lock; map-write preemption is off while it is held.
func (s *Sim) lock()   { runtime.SimNoMap(1); s.mu.Lock() }
func (s *Sim) unlock() { s.mu.Unlock(); runtime.SimNoMap(-1) }

// next returns the next global event number.
func (s *Sim) next() int64 {
	s.lock()
	s.seq++
	n := s.seq
	s.unlock()
	return n
}

func (s *Sim) logf(format string, a ...interface{}) int64 {
	line := fmt.Sprintf(format, a...)
	s.lock()
	s.seq++
	n := s.seq
	line = fmt.Sprintf("%d %d %s\n", n, nowMS(), line)
	for i := 0; i < len(line); i++ {
		s.logHash = (s.logHash ^ uint64(line[i])) * 1099511628211
	}
	s.logLines++
	if s.logOut != nil {
		_, _ = s.logOut.WriteString(line)
	}
	s.unlock()
	return n
}

func (s *Sim) fault(kind string) {
	s.lock()
	s.faults[kind]++
	s.unlock()
	s.logf("FAULT %s", kind)
}

func (s *Sim) probe(name string) {
	s.lock()
	s.probes[name]++
	s.unlock()
}

func (s *Sim) violate(prop, class, format string, a ...interface{}) {
	v := Violation{Property: prop, Class: class, Msg: fmt.Sprintf(format, a...), AtMS: nowMS()}
	if s.capture != nil {
		*s.capture = append(*s.capture, v)
		return
	}
	s.lock()
	if len(s.viols) < 50 {
		s.viols = append(s.viols, v)
	}
	s.unlock()
	s.logf("VIOLATION %s %s %s", prop, class, v.Msg)
}

// trial collects the violations f would report.
func (s *Sim) trial(f func()) []Violation {
	var vs []Violation
	old := s.capture
	s.capture = &vs
	f()
	s.capture = old
	return vs
}

// finish writes the result and ends the process.
func (s *Sim) finish(harness string) {
	os.SimExit = nil
	r := Result{Verdict: "ok", Violations: s.viols, Harness: harness, SimMS: nowMS(), LogLines: s.logLines,
		LogHash: fmt.Sprintf("%016x", s.logHash), Faults: s.faults, Probes: s.probes}
	var ph uint64
	r.Picks, ph, r.Switches, r.MapYields = runtime.SimStats()
	r.PickHash = fmt.Sprintf("%016x", ph)
	r.Yields, r.Preempts, r.Stalls = sched.yields, sched.preempts, sched.stalls
	if s.plan != nil && s.plan.RecordActs {
		r.YieldActs = sched.acts
	}
	top := len(sched.hit)
	for top > 0 && sched.hit[top-1] == 0 {
		top--
	}
	r.Sites = fmt.Sprintf("%x", sched.hit[:top])
	r.StateHash = fmt.Sprintf("%016x", mix(ph^uint64(r.Preempts)<<32^uint64(r.Stalls)<<16))
	if len(s.viols) > 0 {
		r.Verdict = "violation"
	}
	code := 0
	if harness != "" {
		r.Verdict = "harness"
		code = 3
	}
	bs, _ := json.Marshal(r)
	if s.resultPath != "" {
		_ = os.WriteFile(s.resultPath, bs, 0o644)
	} else {
		fmt.Println(string(bs))
	}
	os.Exit(code)
}

func harnessFail(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if sim != nil {
		sim.finish(msg)
	}
	fmt.Fprintln(os.Stderr, "harness: "+msg)
	os.Exit(3)
}

// hguard turns a harness panic into a harness error, never into a finding.
func hguard() {
	if e := recover(); e != nil {
		harnessFail("panic: %v\n%s", e, debug.Stack())
	}
}

// hgo starts a harness goroutine.
func hgo(f func()) {
	go func() {
		runtime.SimNoMap(1)
		runtime.SimSetTag(1)
		defer hguard()
		f()
	}()
}

func sleepMS(ms int64) {
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
}

// sleepUntil sleeps until simulated millisecond at.
func sleepUntil(at int64) { sleepMS(at - nowMS()) }

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func short(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---------------------------------------------------------------- scheduling

// schedState decides, at every yield point compiled into the code under test,
// whether the goroutine keeps running, gives way, or stalls.
type schedState struct {
	on        bool
	rng       Rng
	yields    uint64
	preempts  uint64
	stalls    uint64
	acts      [][2]int64 // recorded (yield number, ns): 0 = give way, >0 = stall
	explicit  map[uint64]int64
	useList   bool
	pPre      uint64 // per 65536
	pStall    uint64 // per 1<<20
	maxStall  uint64 // stalls allowed in the run
	stallMS   []int64
	hit       [1024]byte
	siteMask  uint64 // only sites whose hash hits this mask act (0 = all)
	siteSalt  uint64
	hot       [][2]int64
	pHot      uint64 // per 1<<20, inside the hot windows
	pRare     uint64
	hotIn     int // window that was seen last, plus one
	maxGID    uint64
	markGID   uint64 // the youngest goroutine when the window began
	held      int    // old goroutines held at this moment
	nextServe int64
	nHot      uint64
	maxHot    uint64
	hotMS     []int64
}

// hotNow reports whether this is a moment at which goroutines are held with
// other probabilities, and notes which goroutines are older than that.
func (s *schedState) hotNow() bool {
	gid := runtime.SimGID()
	now := nowMS()
	for i, h := range s.hot {
		if now >= h[0] && now <= h[1] {
			if s.hotIn != i+1 {
				s.hotIn = i + 1
				s.markGID = s.maxGID
			}
			return true
		}
	}
	if gid > s.maxGID {
		s.maxGID = gid
	}
	return false
}

// older: what changes the configuration has been there for long, requests have
// not. It would hardly ever be held if all were held alike.
func (s *schedState) older() bool { return s.pRare != 0 && runtime.SimGID() <= s.markGID }

// hold stops the goroutine for some time.
func (s *schedState) hold(ns int64, hot bool) {
	if !hot || !s.older() {
		runtime.SimSleep(ns)
		return
	}
	s.held++
	runtime.SimSleep(ns)
	s.held--
}

// awaitHold waits until an old goroutine is held; one request every few
// milliseconds.
func (s *schedState) awaitHold(ms int64) {
	for end := nowMS() + ms; nowMS() < end; sleepMS(1) {
		if s.held > 0 && nowMS() >= s.nextServe {
			s.nextServe = nowMS() + 3
			return
		}
	}
}

var sched schedState

func (s *schedState) setup(k SchedKnobs, seed uint64) {
	s.rng = Rng{seed ^ 0xabcdef12345}
	s.pPre = uint64(k.Preempt)
	s.pStall = uint64(k.Stall)
	s.maxStall = uint64(k.MaxStalls)
	s.stallMS = k.StallMS
	s.siteMask = uint64(k.SiteMask)
	s.siteSalt = seed
	s.hot = k.Hot
	s.pHot = uint64(k.HotStall)
	s.pRare = uint64(k.HotRare)
	s.maxHot = uint64(k.HotMax)
	s.hotMS = k.HotMS
	if k.Acts != nil || k.UseActs {
		s.useList = true
		s.explicit = map[uint64]int64{}
		for _, a := range k.Acts {
			s.explicit[uint64(a[0])] = a[1]
		}
	}
	s.on = true
}

func yieldHook(site uint32) {
	s := &sched
	if !s.on {
		return
	}
	s.yields++
	if b := site >> 3; b < uint32(len(s.hit)) {
		s.hit[b] |= 1 << (site & 7)
	}
	hot := s.hot != nil && runtime.SimTag() == 0 && s.hotNow()
	if s.useList {
		if ns, ok := s.explicit[s.yields]; ok {
			if ns == 0 {
				s.preempts++
				runtime.SimPreempt()
			} else {
				s.stalls++
				s.hold(ns, hot)
			}
		}
		return
	}
	if hot && s.nHot < s.maxHot {
		pr := s.pHot
		if s.older() {
			pr = s.pRare
		}
		if s.rng.U64()&0xfffff < pr {
			s.nHot++
			s.stalls++
			ms := s.hotMS[int(s.rng.U64()%uint64(len(s.hotMS)))]
			s.acts = append(s.acts, [2]int64{int64(s.yields), ms * 1e6})
			s.hold(ms*1e6, true)
			return
		}
	}
	if s.siteMask != 0 && mix(uint64(site)*0x9E3779B97F4A7C15^s.siteSalt)&s.siteMask != 0 {
		return
	}
	if s.pPre != 0 && s.rng.U64()&0xffff < s.pPre {
		s.preempts++
		if len(s.acts) < 200000 {
			s.acts = append(s.acts, [2]int64{int64(s.yields), 0})
		}
		runtime.SimPreempt()
		return
	}
	if s.pStall != 0 && s.stalls < s.maxStall && s.rng.U64()&0xfffff < s.pStall {
		s.stalls++
		ms := s.stallMS[int(s.rng.U64()%uint64(len(s.stallMS)))]
		s.acts = append(s.acts, [2]int64{int64(s.yields), ms * 1e6})
		runtime.SimSleep(ms * 1e6)
	}
}
