package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"

	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"

	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
)

// The store alone, under many writers and readers at once: every (type,
// cluster) has one writer, as in ckube, and any number of readers.

func genStore(p *Plan, r *Rng) {
	p.HorizonMS = 1000
	g := &genCtx{horizon: 200, tick: int64(r.PickInt(1, 10, 200)), prof: &profile{}}
	g.nCl = r.Between(1, 3)
	for i := 0; i < g.nCl; i++ {
		p.Clusters = append(p.Clusters, fmt.Sprintf("c%d", i+1))
	}
	genSched(p, r, r.P(50))
	if p.Sched.Preempt == 0 && r.P(80) {
		p.Sched.Preempt = r.PickInt(500, 2000, 8000)
	}
	if r.P(40) {
		// few places, at which goroutines are likely to be held: reaches what
		// needs a particular place or two
		p.Sched.SiteMask = r.PickInt(7, 15, 31, 63)
		p.Sched.Preempt = r.PickInt(0, 8192, 30000)
		p.Sched.Stall = r.PickInt(10000, 50000, 300000)
		p.Sched.MaxStalls = r.Between(5, 100)
		p.Sched.StallMS = [][]int64{{1, 10}, {5, 20, 50}, {1}}[r.N(3)]
	}
	pool := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
	duel := r.P(35) // much work on very few objects
	nRes, nWrites, nReads, discerning := r.Between(1, 3), 25, 25, 60
	if duel {
		nRes, nWrites, nReads, discerning = 1, 120, 80, 90
		g.tick = int64(r.PickInt(10, 50, 200))
	}
	for n := nRes; n > 0; n-- {
		i := r.N(len(pool))
		g.res = append(g.res, pool[i])
		pool = append(pool[:i], pool[i+1:]...)
	}
	if r.P(20) {
		g.res = addTwins(g.res)
	}
	sort.Ints(g.res)
	g.ns = []string{"default", "kube-system", "app-1"}[:r.Between(1, 3)]
	g.names = []string{"web-1", "web-2", "api-1", "web-canary-1", "x", "y.z"}[:r.Between(1, 6)]
	if duel {
		g.ns, g.names = g.ns[:1], g.names[:min(len(g.names), r.Between(1, 3))]
	}
	conf := Conf{Res: g.res, Idx: r.N(len(idxVariants)), Default: 0}
	for i := 0; i < g.nCl; i++ {
		conf.Clusters = append(conf.Clusters, i)
	}
	p.Confs = []Conf{conf}
	g.idx = conf.Idx
	for n := r.N(12); n > 0; n-- {
		p.Init = append(p.Init, Step{K: "put", C: r.N(g.nCl), R: g.anyRes(r), NS: g.anyNS(r), Name: g.anyName(r), V: r.U64() % 100000})
	}
	// the writers: one per type and cluster
	weights := [][]int{{60, 90, 97}, {50, 80, 95}, {85, 98, 100}}[r.N(3)]
	// the store's promise does not need that: in some runs several writers share
	// a cluster's objects of a type among themselves
	shards := 0
	if r.P(25) {
		shards = r.Between(2, 3)
	}
	for _, ri := range g.res {
		for c := 0; c < g.nCl; c++ {
			if r.P(15) {
				continue
			}
			for n := r.Between(1, nWrites); n > 0; n-- {
				s := Step{Who: fmt.Sprintf("w-%d-%d", ri, c), At: g.at(r), C: c, R: ri, NS: g.anyNS(r), Name: g.anyName(r), V: r.U64() % 100000}
				switch x := r.N(100); {
				case x < weights[0]:
					s.K = "put"
				case x < weights[1]:
					s.K = "del"
				case x < weights[2]:
					s.K = "clean"
				default: // what the watcher does when a stream starts again
					s.K = "refill"
				}
				if shards > 0 {
					if s.K != "del" {
						s.K = "put"
					}
					s.Who += fmt.Sprintf("-%d", hash64(s.Name)%uint64(shards))
				}
				p.Steps = append(p.Steps, s)
			}
		}
	}
	for n, k := r.Between(1, 5), 0; k < n; k++ {
		for m := r.Between(2, nReads); m > 0; m-- {
			s := Step{Who: fmt.Sprintf("r%d", k), At: g.at(r), C: r.N(g.nCl), R: g.anyRes(r)}
			if r.P(40) {
				s.K, s.NS, s.Name = "get", g.anyNS(r), g.anyName(r)
			} else {
				s.K = "query"
				s.Q = &QSpec{}
				if r.P(discerning) {
					for s.Q = g.genQuery(r, g.idx); refAccepts(s.Q, g.idx) != 0; {
						s.Q = g.genQuery(r, g.idx)
					}
					s.Q.Labels, s.Q.AllCl = "", false
				}
				if r.P(30) {
					s.NS = g.anyNS(r)
				}
			}
			p.Steps = append(p.Steps, s)
		}
	}
}

// storeWrite is one state of a key in the order of its writer.
type storeWrite struct {
	from, to int64 // the operation's interval
	ver      *Version
}

type storeKey struct {
	c, r     int
	ns, name string
}

type storeItem struct {
	key  storeKey
	ver  *Version
	obj  interface{}
	want map[string]interface{}
}

type storeRead struct {
	s        *Step
	from, to int64
	items    []storeItem
	total    int64
	bad      bool
}

type storeRun struct {
	p      *Plan
	w      *World
	h      *history
	st     store.Store
	kubes  []*Kube
	mu     sync.Mutex
	writes map[storeKey][]storeWrite
	reads  []*storeRead
}

func gvrOf(rt *ResType) store.GroupVersionResource {
	return store.GroupVersionResource{Group: rt.Group, Version: rt.Version, Resource: rt.Resource}
}

// apiObject is what the watch decoder makes of an object.
func apiObject(rt *ResType, js string) interface{} {
	if rt.Typed {
		obj, err := refScheme.New(schema.GroupVersionKind{Group: rt.Group, Version: rt.Version, Kind: rt.Kind})
		if err != nil {
			harnessFail("no type for %v", rt)
		}
		if err := json.Unmarshal([]byte(js), obj); err != nil {
			harnessFail("cannot decode %s: %v", js, err)
		}
		return obj
	}
	u := &unstructured.Unstructured{}
	if err := u.UnmarshalJSON([]byte(js)); err != nil {
		harnessFail("cannot decode %s: %v", js, err)
	}
	return u
}

// sut runs code under test.
func sut(what string, f func()) {
	runtime.SimNoMap(-1)
	defer runtime.SimNoMap(1)
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			sim.violate("C05,C14", "panic", "%s: %v", what, e)
			sim.logf("%s", short(st, 4000))
		}
	}()
	f()
}

func runStore(p *Plan) {
	w := &World{p: p, byName: map[string]*Kube{}}
	x := &storeRun{p: p, w: w, h: &history{w: w}, writes: map[storeKey][]storeWrite{}}
	for _, c := range p.Clusters {
		x.kubes = append(x.kubes, newKube(c, clusterHost(c)))
	}
	conf := &p.Confs[0]
	idx := map[store.GroupVersionResource]map[string]string{}
	for _, r := range conf.Res {
		m := map[string]string{}
		for _, d := range idxVariants[conf.Idx] {
			m[d.key] = d.expr
		}
		idx[gvrOf(&resTypes[r])] = m
	}
	sut("NewMemoryStore", func() { x.st = memory.NewMemoryStore(idx) })
	for i := range p.Init {
		x.do(&p.Init[i])
	}
	sched.setup(p.Sched, p.Seed)
	actors := map[string][]*Step{}
	var order []string
	for i := range p.Steps {
		s := &p.Steps[i]
		if actors[s.Who] == nil {
			order = append(order, s.Who)
		}
		actors[s.Who] = append(actors[s.Who], s)
	}
	left := int64(len(order))
	var lm sync.Mutex
	for _, who := range order {
		steps := actors[who]
		sort.SliceStable(steps, func(i, j int) bool { return steps[i].At < steps[j].At })
		hgo(func() {
			for _, s := range steps {
				sleepUntil(s.At)
				x.do(s)
			}
			lm.Lock()
			left--
			lm.Unlock()
		})
	}
	for n := 0; ; n++ {
		sleepMS(1000)
		lm.Lock()
		l := left
		lm.Unlock()
		if l == 0 {
			break
		}
		if n > 3600 {
			sim.violate("C05,C14", "stuck", "%d of %d clients of the store are still waiting after an hour", l, len(order))
			return
		}
	}
	sched.on = false
	for _, r := range conf.Res {
		x.do(&Step{K: "query", Who: "final", R: r, Q: &QSpec{}})
	}
	x.check()
}

func (x *storeRun) do(s *Step) {
	rt := &resTypes[s.R]
	ns := s.NS
	if !rt.Namespaced {
		ns = ""
	}
	cl := x.p.Clusters[s.C]
	k := x.kubes[s.C]
	key := storeKey{s.C, s.R, ns, s.Name}
	note := func(key storeKey, from int64, v *Version) {
		to := sim.next()
		x.mu.Lock()
		x.writes[key] = append(x.writes[key], storeWrite{from, to, v})
		x.mu.Unlock()
	}
	what := fmt.Sprintf("%s %s %s %s/%s", s.Who, s.K, cl, ns, s.Name)
	put := func(key storeKey, v *Version, fresh bool) {
		obj := apiObject(rt, v.JSON)
		from := sim.next()
		sut(what, func() {
			if fresh {
				_ = x.st.OnResourceAdded(gvrOf(rt), cl, obj)
			} else {
				_ = x.st.OnResourceModified(gvrOf(rt), cl, obj)
			}
		})
		note(key, from, v)
	}
	switch s.K {
	case "put":
		_, had := k.current(rt.GVR)[ns+"/"+s.Name]
		put(key, k.put(rt, ns, s.Name, genBody(rt, ns, s.Name, s.V)), !had)
	case "del":
		v := k.del(rt, ns, s.Name)
		if v == nil {
			return
		}
		obj := apiObject(rt, v.Last)
		from := sim.next()
		sut(what, func() { _ = x.st.OnResourceDeleted(gvrOf(rt), cl, obj) })
		note(key, from, nil)
	case "clean", "refill":
		from := sim.next()
		sut(what, func() { _ = x.st.Clean(gvrOf(rt), cl) })
		x.mu.Lock()
		var ks []storeKey
		for kk := range x.writes {
			if kk.c == s.C && kk.r == s.R {
				ks = append(ks, kk)
			}
		}
		x.mu.Unlock()
		sort.Slice(ks, func(i, j int) bool { return ks[i].ns+"/"+ks[i].name < ks[j].ns+"/"+ks[j].name })
		for _, kk := range ks {
			note(kk, from, nil)
		}
		if s.K == "clean" {
			return
		}
		cur := k.current(rt.GVR)
		for _, n := range sortedKeys(cur) {
			for i := range n {
				if n[i] == '/' {
					put(storeKey{s.C, s.R, n[:i], n[i+1:]}, cur[n], true)
					break
				}
			}
		}
	case "get":
		rd := &storeRead{s: s, from: sim.next()}
		var o interface{}
		sut(what, func() { o = x.st.Get(gvrOf(rt), cl, ns, s.Name) })
		rd.to = sim.next()
		if o != nil {
			if it, ok := x.identify(rd, o); ok {
				rd.items = []storeItem{it}
			} else {
				rd.bad = true
			}
		}
		x.add(rd)
	case "query":
		q := store.Query{Namespace: s.NS, Paginate: x.w.paginate(s.Q)}
		if !rt.Namespaced {
			q.Namespace = ""
		}
		rd := &storeRead{s: s, from: sim.next()}
		var res store.QueryResult
		sut(what, func() { res = x.st.Query(gvrOf(rt), q) })
		rd.to = sim.next()
		rd.total = res.Total
		if res.Error != nil {
			sim.violate("C05,C07", "query-error", "%s %+v: %v", what, *s.Q, res.Error)
			rd.bad = true
		}
		for _, o := range res.Items {
			it, ok := x.identify(rd, o)
			if !ok {
				rd.bad = true
				break
			}
			rd.items = append(rd.items, it)
		}
		x.add(rd)
	}
}

func (x *storeRun) add(rd *storeRead) {
	x.mu.Lock()
	x.reads = append(x.reads, rd)
	x.mu.Unlock()
}

// docOf is an object from the store as a client would see it.
func docOf(o interface{}) map[string]interface{} {
	bs, err := json.Marshal(o)
	if err != nil {
		return nil
	}
	return decodeObj(string(bs))
}

func (x *storeRun) identify(rd *storeRead, o interface{}) (storeItem, bool) {
	s := rd.s
	rt := &resTypes[s.R]
	m := docOf(o)
	bad := func(class, format string, a ...interface{}) (storeItem, bool) {
		sim.violate("C05", class, "%s %s [%d,%d]: %s", s.Who, s.K, rd.from, rd.to, fmt.Sprintf(format, a...))
		return storeItem{}, false
	}
	if m == nil {
		return bad("fabricated", "no object: %v", o)
	}
	anno, _ := jget(m, "metadata", "annotations")
	am, _ := anno.(map[string]interface{})
	cl, _ := am[annoCluster].(string)
	ci := -1
	for i, c := range x.p.Clusters {
		if c == cl {
			ci = i
		}
	}
	if ci < 0 {
		return bad("fabricated", "cluster %q", cl)
	}
	ns, name := jstr(m, "metadata", "namespace"), jstr(m, "metadata", "name")
	rv, _ := strconv.ParseInt(jstr(m, "metadata", "resourceVersion"), 10, 64)
	k := x.kubes[ci]
	k.lock()
	hist := k.objs[ObjKey{rt.GVR, ns, name}]
	var ver *Version
	if hist != nil {
		for _, v := range hist.Versions {
			if v.RV == rv && v.JSON != "" {
				ver = v
			}
		}
	}
	k.unlock()
	if ver == nil {
		return bad("fabricated", "%s %s/%s of %s at version %d was never stored", rt.Resource, ns, name, cl, rv)
	}
	it := storeItem{key: storeKey{ci, s.R, ns, name}, ver: ver, obj: o}
	if d := x.differs(rt, &it, m); d != "" {
		return bad("content", "%s %s/%s of %s at version %d: %s", rt.Resource, ns, name, cl, rv, d)
	}
	it.want = m
	return it, true
}

func (x *storeRun) differs(rt *ResType, it *storeItem, m map[string]interface{}) string {
	normMeta(m)
	x.mu.Lock()
	want := expected(rt, it.ver)
	x.mu.Unlock()
	return jsonDiff("", want, m)
}

func (x *storeRun) matches(s *Step, key storeKey, v *Version) bool {
	if v == nil {
		return false
	}
	rt := &resTypes[key.r]
	if s.K == "get" {
		return true
	}
	if s.NS != "" && rt.Namespaced && s.NS != key.ns {
		return false
	}
	if len(s.Q.Clusters) > 0 {
		in := false
		for _, c := range s.Q.Clusters {
			in = in || c == key.c
		}
		if !in {
			return false
		}
	}
	return x.h.matchDoc(x.p.Clusters[key.c], rt, s.Q, x.p.Confs[0].Idx, v)
}

func (x *storeRun) check() {
	conf := &x.p.Confs[0]
	sort.Slice(x.reads, func(i, j int) bool { return x.reads[i].from < x.reads[j].from })
	// what a reader holds does not change
	for _, rd := range x.reads {
		for i := range rd.items {
			it := &rd.items[i]
			m := docOf(it.obj)
			if m == nil {
				sim.violate("C05", "changed", "%s %s [%d,%d]: the object returned can no longer be encoded", rd.s.Who, rd.s.K, rd.from, rd.to)
				continue
			}
			if d := x.differs(&resTypes[it.key.r], it, m); d != "" {
				sim.violate("C05", "changed", "%s %s [%d,%d]: the object %v returned changed later: %s", rd.s.Who, rd.s.K, rd.from, rd.to, it.key, d)
			}
		}
	}
	var keys []storeKey
	for k := range x.writes {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	// shape of every answer
	got := map[*storeRead]map[storeKey]*Version{}
	for _, rd := range x.reads {
		if rd.bad {
			continue
		}
		s := rd.s
		gm := map[storeKey]*Version{}
		got[rd] = gm
		for _, it := range rd.items {
			if gm[it.key] != nil {
				sim.violate("C05", "twice", "%s %s [%d,%d]: %v is in the answer twice", s.Who, s.K, rd.from, rd.to, it.key)
			}
			gm[it.key] = it.ver
			if s.K == "get" {
				ns := s.NS
				if !resTypes[s.R].Namespaced {
					ns = ""
				}
				if it.key != (storeKey{s.C, s.R, ns, s.Name}) {
					sim.violate("C05", "wrong-object", "%s get [%d,%d]: %v instead of %s/%s of cluster %d", s.Who, rd.from, rd.to, it.key, ns, s.Name, s.C)
				}
			} else if !x.matches(s, it.key, it.ver) {
				sim.violate("C05,C07", "no-match", "%s query [%d,%d]: %v at %s does not satisfy %+v ns=%q", s.Who, rd.from, rd.to, it.key, verName(it.ver), *s.Q, s.NS)
			}
		}
		if s.K != "query" {
			continue
		}
		for i := 1; i < len(rd.items); i++ {
			a, b := rd.items[i-1], rd.items[i]
			ia := refIndex(x.p.Clusters[a.key.c], &resTypes[s.R], conf.Idx, a.ver)
			ib := refIndex(x.p.Clusters[b.key.c], &resTypes[s.R], conf.Idx, b.ver)
			if c, err := refSortCmp(ia, ib, s.Q.Sort); err == nil && c > 0 {
				sim.violate("C05,C07", "order", "%s query [%d,%d]: %v before %v under %q", s.Who, rd.from, rd.to, a.key, b.key, s.Q.Sort)
			}
		}
		n := int64(len(rd.items))
		if s.Q.Page <= 0 || s.Q.Size <= 0 {
			if n != rd.total {
				sim.violate("C05,C06", "total", "%s query [%d,%d]: %d objects, total %d", s.Who, rd.from, rd.to, n, rd.total)
			}
		} else {
			want := int64(0)
			if s.Q.Page-1 <= rd.total/s.Q.Size {
				want = min(s.Q.Size, max(0, rd.total-(s.Q.Page-1)*s.Q.Size))
			}
			if n != want {
				sim.violate("C05,C06", "total", "%s query [%d,%d]: %d objects on page %d of size %d, total %d", s.Who, rd.from, rd.to, n, s.Q.Page, s.Q.Size, rd.total)
			}
		}
		sim.probe("store-query")
	}
	// every object by itself is a register
	lo, hi := map[*storeRead]int64{}, map[*storeRead]int64{}
	for _, key := range keys {
		ws := x.writes[key]
		type seen struct {
			to  int64
			idx int
			rd  *storeRead
		}
		var done []seen
		for _, rd := range x.reads {
			s := rd.s
			gm := got[rd]
			if gm == nil || s.R != key.r {
				continue
			}
			if s.K == "get" && (s.C != key.c || s.Name != key.name || resTypes[s.R].Namespaced && s.NS != key.ns) {
				continue
			}
			g := gm[key]
			paged := s.K == "query" && s.Q.Page > 0 && s.Q.Size > 0
			least, from := -1, (*storeRead)(nil)
			for _, d := range done {
				if d.to < rd.from && d.idx > least {
					least, from = d.idx, d.rd
				}
			}
			idx, all, any := -2, true, false
			timely := ""
			for i := -1; i < len(ws); i++ {
				if i >= 0 && ws[i].from > rd.to {
					break
				}
				if i+1 < len(ws) && ws[i+1].to < rd.from {
					continue // overwritten before the read began
				}
				var v *Version
				if i >= 0 {
					v = ws[i].ver
				}
				m := x.matches(s, key, v)
				all, any = all && m, any || m
				timely += " " + verName(v)
				ok := g == v && (v == nil || m) || g == nil && !m
				if ok && idx == -2 && i >= least {
					idx = i
				}
			}
			if all {
				lo[rd]++
			}
			if any {
				hi[rd]++
			}
			if paged && g == nil {
				continue // it may be on another page
			}
			sim.probe("register-checked")
			if idx == -2 {
				class, more := "stale", ""
				if least >= 0 {
					more = fmt.Sprintf("; %s [%d,%d] had already seen write %d", from.s.Who, from.from, from.to, least)
				}
				sim.violate("C05", class, "%s %s [%d,%d]: %v is %s, possible:%s%s", s.Who, s.K, rd.from, rd.to, key, verName(g), timely, more)
				return
			}
			done = append(done, seen{rd.to, idx, rd})
		}
	}
	for _, rd := range x.reads {
		if rd.s.K == "query" && got[rd] != nil && (rd.total < lo[rd] || rd.total > hi[rd]) {
			sim.violate("C05,C06", "total", "%s query [%d,%d] %+v: total %d, between %d and %d match", rd.s.Who, rd.from, rd.to, *rd.s.Q, rd.total, lo[rd], hi[rd])
		}
	}
}
