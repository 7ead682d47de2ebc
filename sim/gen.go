package main

import (
	"fmt"
	"sort"
	"strings"

	"k8s.io/apimachinery/pkg/util/validation"
)

// genPlan draws one execution for a property.
func genPlan(prop string, seed uint64) *Plan {
	r := newRng(hash64(prop, seed))
	p := &Plan{Property: prop, Seed: hash64("sched", prop, seed), GenSeed: seed}
	switch prop {
	case "C05":
		p.Profile = "store"
		genStore(p, r)
	case "C18":
		p.Profile = "fake"
		genFake(p, r)
	default:
		p.Profile = "world"
		genWorld(p, r, profiles[prop])
		genMode(p, newRng(hash64("mode", prop, seed)))
		x := newRng(hash64("linked", prop, seed))
		p.Linked = x.P(12) || prop == "C11" && x.P(30)
		if x.P(10) || (prop == "C14" || prop == "C15") && x.P(25) {
			p.Scrape = [][]int64{{1}, {0, 1, 20}, {50, 200}, {0, 0, 500}}[x.N(4)]
		}
	}
	for i := range p.Steps {
		p.Steps[i].ID = i + 1
	}
	return p
}

// genMode chooses how ckube finds its clusters.
func genMode(p *Plan, r *Rng) {
	switch x := r.N(100); {
	case x < 10:
		p.Mode = "home"
	case x < 18 || p.Property == "C11" && x < 30:
		p.Mode = "env"
	}
	switch x := r.N(100); {
	case x < 8 || p.Property == "C07" && x < 20:
		p.Labels = "bare"
	case x >= 94 || (p.Property == "C06" || p.Property == "C07") && x >= 85:
		p.Labels = "large"
	}
	p.RV0 = int64(r.PickInt(100, 100, 1, 85, 970, 9960, 99950, 999940, 1<<31-50))
	p.WatchLimitS = int64(r.PickInt(0, 0, 0, 1800, 3500, 7200, 20000))
	if r.P(12) {
		// as behind a proxy for many clusters
		for i := range p.Clusters {
			p.Bases = append(p.Bases, r.Pick("", "/", fmt.Sprintf("/k8s/clusters/c-%d", i+1), "/k8s/clusters/c-m-x/", "/api/v1/proxy"))
		}
	}
	if p.Mode != "env" {
		return
	}
	d := p.Confs[0].Default
	for i := range p.Confs {
		c := &p.Confs[i]
		c.Clusters, c.Default, c.KBad = []int{d}, d, ""
	}
	for i := range p.Steps {
		if s := &p.Steps[i]; s.K == "conf" && s.Name == "openerr" && r.P(50) {
			s.Name = "openerr2" // only the second time the kube config is read
		}
	}
}

// profile weights what a property's runs contain.
type profile struct {
	maxClusters int
	minClusters int
	typed       bool // at least one typed resource
	faults      int  // percent of runs with faults
	maxFaults   int
	faultKinds  []string
	watchFaults int // percent of runs with broken streams
	mutations   [2]int
	reads       [2]int
	readKinds   []string
	horizon     []int64 // seconds
	reload      bool
	token       int // percent of runs with a token
	stall       bool
	quietTail   int64 // ms without mutations before the horizon
	extra       func(p *Plan, r *Rng, g *genCtx)
	resources   []int
	force       []int // types cached in most runs
	minRes      int
	segs        int
	rfaults     int // percent of runs with broken answers
	names       int // percent of runs with special cluster names
	unconf      int // percent of runs with a cluster ckube is not told about
	auth        int // percent of steps presenting something else than the token
}

type genCtx struct {
	res      []int
	ns       []string
	names    []string
	nCl      int
	horizon  int64
	tick     int64
	prof     *profile
	noFaults bool
	idx      int
	odd      bool // some cluster's name is no label value
}

// clusterSets are context names as found in kubeconfigs.
var clusterSets = [][]string{
	{"c1", "c10", "c1.b", "dsm-cluster-c1"},
	{"prod", "Prod_EU", "prod-eu", "default"},
	{"kubernetes-admin@kubernetes", "c1,c2", "c 1", "c1"},
	{"arn:aws:eks:eu-west-1:123456789012:cluster/a", "arn:aws:eks:eu-west-1:123456789012:cluster/ab", "gke_p_z_c", "admin/api-c-example:6443/kube:admin"},
}

// odd tells if some cluster's name is no label value, so that the SDK can not
// put it into a query.
func (p *Plan) odd() bool {
	for _, c := range p.Clusters {
		if len(validation.IsValidLabelValue(c)) > 0 {
			return true
		}
	}
	return false
}

func (g *genCtx) at(r *Rng) int64 {
	t := int64(r.N(int(g.horizon)))
	return t / g.tick * g.tick
}

var syncFaults = []string{"crash", "refuse", "hole", "rst", "err", "hang", "slow", "cutwatch"}

var reloadFaults = []string{"crash", "refuse", "rst", "err", "cutwatch"}

var profiles = map[string]*profile{
	"C01": {names: 15, maxClusters: 3, faults: 80, maxFaults: 4, faultKinds: syncFaults, watchFaults: 60, mutations: [2]int{5, 50}, reads: [2]int{5, 25}, readKinds: []string{"list", "get"}, horizon: []int64{60, 200, 600}, stall: true, segs: 30},
	"C02": {names: 10, maxClusters: 3, faults: 60, maxFaults: 3, faultKinds: syncFaults, watchFaults: 50, mutations: [2]int{5, 40}, reads: [2]int{15, 60}, readKinds: []string{"list", "get", "get", "listq"}, horizon: []int64{60, 200}, stall: true, segs: 50},
	"C03": {names: 10, maxClusters: 2, faults: 60, maxFaults: 3, faultKinds: syncFaults, watchFaults: 50, mutations: [2]int{20, 80}, reads: [2]int{20, 80}, readKinds: []string{"list", "get"}, horizon: []int64{30, 60, 200}, stall: true, segs: 30},
	"C04": {names: 20, maxClusters: 3, minClusters: 1, faults: 100, maxFaults: 3, faultKinds: []string{"crash", "refuse", "hole", "err", "hang"}, watchFaults: 40, mutations: [2]int{10, 40}, reads: [2]int{20, 60}, readKinds: []string{"list", "list", "get"}, horizon: []int64{200, 600, 2000}, stall: true, segs: 20, extra: maybe(30, genSpread)},
	"C06": {names: 10, maxClusters: 3, faults: 20, maxFaults: 2, faultKinds: []string{"rst", "cutwatch"}, mutations: [2]int{5, 30}, reads: [2]int{0, 5}, readKinds: []string{"list"}, horizon: []int64{30}, stall: false, extra: genWalks, segs: 10},
	"C08": {names: 12, maxClusters: 3, faults: 60, maxFaults: 3, faultKinds: []string{"crash", "refuse", "hole", "rst", "err", "hang", "slow"}, mutations: [2]int{0, 20}, reads: [2]int{0, 4}, readKinds: []string{"list", "get"}, horizon: []int64{60, 200}, stall: true, segs: 30, rfaults: 70, extra: genProxies(15, 60)},
	"C09": {names: 40, maxClusters: 4, minClusters: 2, faults: 30, maxFaults: 2, faultKinds: []string{"crash", "refuse", "rst", "err"}, mutations: [2]int{10, 40}, reads: [2]int{10, 30}, readKinds: []string{"list", "get", "get"}, horizon: []int64{60, 200}, stall: true, segs: 10, rfaults: 20, unconf: 40, extra: both(genProxies(15, 50), genWatches(0, 5))},
	"C10": {names: 8, maxClusters: 3, faults: 50, maxFaults: 3, faultKinds: []string{"crash", "refuse", "hole", "rst", "err", "cutwatch", "cutwatch", "slow"}, watchFaults: 60, mutations: [2]int{20, 80}, reads: [2]int{0, 4}, readKinds: []string{"list"}, horizon: []int64{60, 200, 600}, stall: true, segs: 40, extra: both(genWatches(2, 12), genProxies(0, 15), maybe(8, genCrowd))},
	"C11": {names: 12, maxClusters: 4, faults: 40, maxFaults: 2, faultKinds: reloadFaults, mutations: [2]int{10, 40}, reads: [2]int{10, 40}, readKinds: []string{"list", "get", "listq"}, horizon: []int64{60, 200, 400}, stall: true, segs: 10, reload: true, token: 50, extra: both(maybe(15, genEarly), genReloads(1, 6, 25), maybe(15, genStorm))},
	"C12": {names: 8, maxClusters: 4, minClusters: 2, faults: 30, maxFaults: 2, faultKinds: reloadFaults, mutations: [2]int{5, 30}, reads: [2]int{5, 20}, readKinds: []string{"list", "get", "listq"}, horizon: []int64{60, 200}, stall: true, segs: 10, reload: true, token: 40, extra: both(genReloads(2, 8, 40), maybe(50, genStorm), genProxies(0, 15), genWatches(0, 3))},
	"C13": {names: 8, maxClusters: 3, faults: 30, maxFaults: 2, faultKinds: reloadFaults, mutations: [2]int{5, 30}, reads: [2]int{10, 40}, readKinds: []string{"list", "get", "listq", "table"}, horizon: []int64{60, 200}, stall: true, segs: 20, rfaults: 20, token: 92, auth: 45,
		extra: both(genProxies(5, 40), genWatches(0, 6), genServices(0, 6), genRobust(0, 15), maybe(40, both(genReloads(1, 5, 25), maybe(50, genStorm))))},
	"C14": {names: 8, maxClusters: 3, faults: 50, maxFaults: 3, faultKinds: syncFaults, watchFaults: 30, mutations: [2]int{5, 30}, reads: [2]int{5, 20}, readKinds: []string{"list", "get", "listq", "table"}, horizon: []int64{60, 200}, stall: true, segs: 30, rfaults: 35, token: 20,
		extra: both(genRobust(10, 60), genServices(0, 6), genProxies(0, 16), genWatches(0, 3), maybe(6, genCrowd), maybe(20, genReloads(1, 3, 40)))},
	"C15": {names: 15, maxClusters: 3, faults: 70, maxFaults: 4, faultKinds: syncFaults, watchFaults: 50, mutations: [2]int{10, 60}, reads: [2]int{0, 5}, readKinds: []string{"list"}, horizon: []int64{60, 200, 600}, stall: true, segs: 20, extra: both(genProbes, maybe(40, both(genReloads(1, 5, 30), maybe(50, genStorm))))},
	"C16": {names: 25, maxClusters: 3, faults: 40, maxFaults: 3, faultKinds: syncFaults, watchFaults: 30, mutations: [2]int{10, 60}, reads: [2]int{0, 3}, readKinds: []string{"list"}, horizon: []int64{60, 200}, stall: true, segs: 20, resources: []int{0, 1, 3}, force: []int{0, 1}, unconf: 20, extra: both(genDeployments, genServices(15, 60), maybe(10, genReloads(1, 2, 20)))},
	"C17": {names: 5, maxClusters: 3, faults: 90, maxFaults: 5, faultKinds: syncFaults, watchFaults: 80, mutations: [2]int{0, 20}, reads: [2]int{0, 10}, readKinds: []string{"list", "get"}, horizon: []int64{60, 200, 600, 1500}, stall: true, segs: 10, rfaults: 20, token: 10,
		extra: both(genWatches(2, 20), genProxies(0, 15), genRobust(0, 15), maybe(60, genReloads(1, 8, 30)), noJunkWatches)},
	"C07": {names: 10, maxClusters: 3, faults: 30, maxFaults: 2, faultKinds: []string{"rst", "crash", "slow"}, mutations: [2]int{10, 50}, reads: [2]int{20, 60}, readKinds: []string{"listq", "listq", "listq", "list"}, horizon: []int64{60, 200}, stall: true, segs: 20},
}

func genWorld(p *Plan, r *Rng, pf *profile) {
	if pf == nil {
		harnessFail("no profile for %s", p.Property)
	}
	g := &genCtx{prof: pf}
	min := pf.minClusters
	if min == 0 {
		min = 1
	}
	g.nCl = r.Between(min, pf.maxClusters)
	for i := 0; i < g.nCl; i++ {
		p.Clusters = append(p.Clusters, fmt.Sprintf("c%d", i+1))
	}
	if r.P(pf.names) {
		set := clusterSets[r.N(len(clusterSets))]
		o := r.N(len(set))
		for i := range p.Clusters {
			p.Clusters[i] = set[(o+i)%len(set)]
		}
	}
	g.odd = p.odd()
	g.horizon = pf.horizon[r.N(len(pf.horizon))] * 1000
	if long := p.Property == "C01" || p.Property == "C04" || p.Property == "C15" || p.Property == "C17"; long && r.P(6) {
		g.horizon = int64(r.PickInt(3000, 6000, 11000)) * 1000
	}
	g.tick = int64(r.PickInt(1, 10, 100, 1000, 1000, 5000))
	p.HorizonMS = g.horizon
	p.SettleMS = 300000
	switch r.N(4) {
	case 0:
		p.Latency = nil
	case 1:
		p.Latency = []int64{0, 0, 1}
	case 2:
		p.Latency = []int64{0, 1, 1, 5, 20}
	default:
		p.Latency = []int64{0, 10, 100, 400}
	}
	if r.P(pf.segs) {
		p.MaxSeg = r.PickInt(16, 64, 256, 1000)
	}
	genSched(p, r, pf.stall)

	// resources
	pool := pf.resources
	if pool == nil {
		pool = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
	}
	pool = append([]int(nil), pool...)
	nRes := r.Between(1, 4)
	if pf.resources == nil && r.P(6) {
		nRes = len(pool)
	}
	if nRes < pf.minRes {
		nRes = pf.minRes
	}
	for len(g.res) < nRes && len(pool) > 0 {
		i := r.N(len(pool))
		g.res = append(g.res, pool[i])
		pool = append(pool[:i], pool[i+1:]...)
	}
	if pf.resources == nil && r.P(15) {
		g.res = addTwins(g.res)
	}
	if pf.force != nil && r.P(92) {
		g.res = append(g.res, pf.force...)
	}
	sort.Ints(g.res)
	k := 0
	for i, x := range g.res {
		if i == 0 || x != g.res[k-1] {
			g.res[k] = x
			k++
		}
	}
	g.res = g.res[:k]
	g.ns = []string{"default", "kube-system", "app-1"}[:r.Between(1, 3)]
	if r.P(20) {
		g.ns = []string{"app", "app-1", "app-1-x"}[:r.Between(2, 3)]
	}
	if r.P(15) {
		g.ns = []string{"default", "kube-system", "app-1", "kube-public", "app", "x", "monitoring", "y.z"}[:r.Between(4, 7)]
	}
	g.names = append([]string(nil), []string{"web-1", "web-2", "api-1", "web-canary-1", "x", "y.z"}[:r.Between(1, 6)]...)
	if r.P(8) {
		g.names = append(g.names, r.Pick("healthy", "metrics"))
	}
	cl := []int{}
	for i := 0; i < g.nCl; i++ {
		cl = append(cl, i)
	}
	conf := Conf{Res: g.res, Idx: r.N(len(idxVariants)), Clusters: cl, Default: r.N(g.nCl)}
	if g.nCl > 1 && r.P(pf.unconf) {
		i := r.N(g.nCl)
		conf.Clusters = append(append([]int{}, cl[:i]...), cl[i+1:]...)
		conf.Default = conf.Clusters[r.N(len(conf.Clusters))]
	}
	if r.P(pf.token) {
		conf.Token = r.Pick("s3cretTOKEN", "alphaTOKEN1")
	}
	if r.P(5) {
		conf.Dup = r.Between(1, 2)
	}
	p.Confs = []Conf{conf}
	g.idx = conf.Idx

	// what exists before ckube starts
	n := r.N(16)
	for i := 0; i < n; i++ {
		p.Init = append(p.Init, Step{K: "put", C: r.N(g.nCl), R: g.anyRes(r), NS: g.anyNS(r), Name: g.anyName(r), V: r.U64() % 100000})
	}
	crowd := 3
	if p.Property == "C06" {
		crowd = 8
	}
	if r.P(crowd) && pf.reads[1] > 0 {
		// a crowd, as a page of an API server's list or more
		c, res, ns := r.N(g.nCl), g.anyRes(r), g.anyNS(r)
		for i := r.Between(101, 1100); i > 0; i-- {
			p.Init = append(p.Init, Step{K: "put", C: c, R: res, NS: ns, Name: fmt.Sprintf("o%d", i), V: r.U64() % 1000})
		}
	}
	// churn
	m := r.Between(pf.mutations[0], pf.mutations[1])
	hotAt := g.at(r)
	for i := 0; i < m; i++ {
		s := Step{At: g.at(r), C: r.N(g.nCl), R: g.anyRes(r), NS: g.anyNS(r), Name: g.anyName(r), V: r.U64() % 100000}
		if r.P(25) {
			s.At = hotAt // many things at one instant
		}
		if pf.quietTail > 0 && s.At > g.horizon-pf.quietTail {
			s.At = g.horizon - pf.quietTail
		}
		switch x := r.N(100); {
		case x < 60:
			s.K = "put"
		case x < 90:
			s.K = "del"
		case x < 95:
			s.K = "burst"
			s.N = int64(r.Between(2, 8))
		default:
			s.K = "delall"
		}
		if r.P(50) {
			s.Who = fmt.Sprintf("actor%d", s.C)
		}
		p.Steps = append(p.Steps, s)
	}
	// faults
	if r.P(pf.faults) && pf.maxFaults > 0 {
		nf := r.Between(1, pf.maxFaults)
		for i := 0; i < nf; i++ {
			p.Steps = append(p.Steps, genFault(r, g, pf.faultKinds[r.N(len(pf.faultKinds))], hotAt))
		}
		if r.P(12) {
			p.Steps = append(p.Steps, Step{K: "startdown", At: int64(r.PickInt(1, 10, 50)) * 1000, C: r.N(g.nCl), S: r.Pick("", "", "hole")})
		}
	}
	if pf.faults > 0 && pf.reads[1] > 0 && r.P(8) {
		// a collection loses everything while nobody watches it; somebody looks
		// long afterwards
		c, res, at := r.N(g.nCl), g.anyRes(r), g.at(r)
		p.Steps = append(p.Steps, Step{K: "cutwatch", At: at, C: c, R: res, N: int64(res)}, Step{K: "delall", At: at + int64(r.PickInt(1, 500, 2000)), C: c, R: res})
		for _, d := range []int64{8, 15, 27, 34, 48, 70}[r.N(4):] {
			rd := g.genRead(r, "list")
			rd.R, rd.NS, rd.At = res, "", at+d*1000
			rd.Q = &QSpec{}
			if !g.odd {
				rd.Q.Clusters = []int{c}
			}
			rd.C, rd.X = -1, ""
			p.Steps = append(p.Steps, rd)
		}
	}
	if r.P(pf.watchFaults) {
		nf := r.Between(1, 5)
		for i := 0; i < nf; i++ {
			s := Step{K: "wfault", At: 0, C: r.N(g.nCl), N: -1, M: int64(r.PickInt(0, 0, 1, 2, 3, 7)), S: r.Pick("cut", "rst", "garbage", "truncate", "error410", "error-only", "bookmark", "stall")}
			if r.P(50) {
				s.N = int64(g.anyRes(r))
			}
			if r.P(40) {
				s.At = g.at(r)
			}
			s.D = int64(r.PickInt(100, 5000, 40000))
			if r.P(25) && s.S != "stall" && s.S != "error-only" && s.S != "bookmark" {
				s.V = uint64(r.PickInt(5000, 20000, 60000, 120000))
			}
			p.Steps = append(p.Steps, s)
			if s.At == 0 || r.P(30) {
				continue
			}
			// the streams that are open now give way to the one it strikes,
			// while somebody looks
			p.Steps = append(p.Steps, Step{K: "cutwatch", At: s.At + 1, C: s.C, R: int(max(s.N, 0)), N: s.N})
			for _, d := range []int64{2, 4, 6, 9, 14, 40}[:r.N(7)] {
				rd := g.genRead(r, r.Pick("list", "list", "get"))
				if s.N >= 0 {
					rd.R = int(s.N)
				}
				if rd.K == "list" || rd.NS == "" && !resTypes[rd.R].Namespaced {
					rd.NS = ""
				} else if rd.NS == "" {
					rd.NS = g.anyNS(r)
				} else if !resTypes[rd.R].Namespaced {
					rd.NS = ""
				}
				rd.Who = "onlooker"
				rd.At = s.At + d*1000 + int64(r.N(1500))
				p.Steps = append(p.Steps, rd)
			}
		}
	}
	// readers
	nr := r.Between(pf.reads[0], pf.reads[1])
	nCli := r.Between(1, 3)
	for i := 0; i < nr; i++ {
		s := g.genRead(r, pf.readKinds[r.N(len(pf.readKinds))])
		s.Who = fmt.Sprintf("reader%d", r.N(nCli))
		s.At = g.at(r)
		if r.P(25) {
			s.At = hotAt + int64(r.N(3))*g.tick
		}
		p.Steps = append(p.Steps, s)
	}
	if pf.extra != nil {
		pf.extra(p, r, g)
	}
	if conf.Token != "" || len(p.Confs) > 1 || pf.auth > 0 {
		setTokens(p.Steps, p, r, pf.auth)
	}
	genMore(p, g)
}

func both(fs ...func(p *Plan, r *Rng, g *genCtx)) func(p *Plan, r *Rng, g *genCtx) {
	return func(p *Plan, r *Rng, g *genCtx) {
		for _, f := range fs {
			f(p, r, g)
		}
	}
}

// genSpread takes one cluster away for long and ends streams of another one
// meanwhile: they are opened again as if nothing else were wrong.
func genSpread(p *Plan, r *Rng, g *genCtx) {
	if g.nCl < 2 {
		return
	}
	a := r.N(g.nCl)
	b := (a + 1 + r.N(g.nCl-1)) % g.nCl
	s := Step{K: r.Pick("hole", "hole", "hang", "refuse", "crash"), At: g.at(r) / 2, C: a, R: g.anyRes(r), D: int64(r.PickInt(90, 150, 200)) * 1000}
	if r.P(25) {
		s = Step{K: "startdown", At: s.D, C: a, S: r.Pick("hole", "hole", "")}
		for _, x := range p.Steps {
			if x.K == "startdown" {
				return
			}
		}
	}
	p.Steps = append(p.Steps, s)
	from := s.At
	if s.K == "startdown" {
		from = 0
	}
	for i := r.Between(1, 4); i > 0; i-- {
		c := Step{K: "cutwatch", At: from + int64(r.Between(4, 80))*1000, C: b, R: g.anyRes(r)}
		if r.P(60) {
			c.N = -1
		}
		p.Steps = append(p.Steps, c)
	}
}

// maybe does something in some percent of the runs.
func maybe(pct int, f func(p *Plan, r *Rng, g *genCtx)) func(p *Plan, r *Rng, g *genCtx) {
	return func(p *Plan, r *Rng, g *genCtx) {
		if r.P(pct) {
			f(p, r, g)
		}
	}
}

func (g *genCtx) anyRes(r *Rng) int     { return g.res[r.N(len(g.res))] }
func (g *genCtx) anyNS(r *Rng) string   { return g.ns[r.N(len(g.ns))] }
func (g *genCtx) anyName(r *Rng) string { return g.names[r.N(len(g.names))] }

func genSched(p *Plan, r *Rng, stall bool) {
	k := &p.Sched
	k.Pick = r.PickInt(0, 1, 1, 2, 2)
	if r.P(60) {
		k.MapProb = r.PickInt(655, 3276, 13107)
	}
	if r.P(80) {
		k.Preempt = r.PickInt(256, 2048, 8192, 20000)
	}
	k.SiteMask = r.PickInt(0, 0, 1, 3, 7)
	if stall && r.P(50) {
		k.Stall = r.PickInt(100, 1000, 8000)
		k.MaxStalls = r.Between(1, 6)
		k.StallMS = [][]int64{{1, 10}, {5, 200}, {50, 1000, 3000}}[r.N(3)]
	}
}

func genFault(r *Rng, g *genCtx, kind string, hot int64) Step {
	s := Step{K: kind, At: g.at(r), C: r.N(g.nCl), R: g.anyRes(r)}
	if r.P(30) {
		s.At = hot
	}
	s.D = int64(r.PickInt(100, 1000, 5000, 20000, 60000, 200000))
	if g.horizon >= 600000 && r.P(25) {
		s.D = g.horizon / 4 * int64(r.Between(1, 3))
	}
	if s.At+s.D > g.horizon {
		s.D = g.horizon - s.At
	}
	switch kind {
	case "err":
		s.N = int64(r.PickInt(500, 503, 429, 401, 403, 404, 504))
		s.S = r.Pick("status", "html", "empty")
		if s.N == 429 || s.N == 503 {
			s.M = int64(r.PickInt(0, 1, 5))
		}
		s.V = uint64(r.N(2))
	case "slow":
		s.N = int64(r.PickInt(50, 500, 2000))
	case "cutwatch":
		if r.P(50) {
			s.N = -1
		}
	}
	return s
}

var searchParts = []string{"web", "!web", "1", "name=web", "name=\"x\"", "name=!web", "WEB", "!Web", "name=Web", "name=!API", "app=\"APP-WEB\"", "__ckube_as__:app in (A, APP-web)", "app=app-web", "app=\"a\"", "app=!\"b\"", "num=1", "!constant", "c1",
	"__ckube_as__:app in (a, app-web)", "__ckube_as__:name notin (x,web-1)", "__ckube_as__:app=a,num!=5", "__ckube_as__:!missing", "__ckube_as__:is_deleted=false", "is_deleted=true", "namespace=default"}

var searchV0 = []string{"labels=tier", "created_at=2020", "labels=\"app"}
var searchV1 = []string{"phase=Running", "note=hello", "note=x;y", "tpl=web", "fixed=constant", "note=a=b", "note=!", "uid=c1-uid-1", "ports=8", "broken=", "broken=web", "__ckube_as__:phase in (Running)"}
var searchV2 = []string{"qname=web", "path=/web-1/c1", "path=\"/", "each=app:a,", "each=tier", "half=web-1-", "half=\"x-\"", "unread=", "unread=x", "nothing=", "nothing=x", "nothing=!x", "defines=", "defines=<", "tier=[", "tier=!back", "app=none", "__ckube_as__:app in (none)", "__ckube_as__:unread=", "__ckube_as__:nothing="}
var sorts = []string{"", "name", "name desc", "namespace,name", "cluster desc,name", "num!int", "num!int desc,name", "app", "app desc", "num", "is_deleted,name desc", "namespace desc, num!int, name", "name asc", "name  desc", " namespace , name"}

func (g *genCtx) genQ(r *Rng, idx int) *QSpec {
	q := &QSpec{}
	x := r.N(5)
	if g.odd {
		x = 0
	}
	switch x {
	case 0:
	case 1, 2:
		q.AllCl = true
	default:
		q.Clusters = []int{r.N(g.nCl)}
		if r.P(40) {
			if x := r.N(g.nCl); x != q.Clusters[0] {
				q.Clusters = append(q.Clusters, x)
			}
		}
		q.Eq = len(q.Clusters) == 1 && r.P(30)
	}
	return q
}

var searchVals = []string{"web", "1", "a", "app-web", "x;y", "x;", ";y", ";", ";;", "x; q", "a=b", "=", "!bang", "~", "?", "ünï", "true", "false", "c1", "-", "constant", "\"\"", "\"web", "1234567", "e+", "9007199254740993", "default"}

// genPart composes one part of a search.
func (g *genCtx) genPart(r *Rng, idx int) string {
	keys := []string{"cluster", "is_deleted"}
	for _, d := range idxVariants[idx] {
		keys = append(keys, d.key)
	}
	v := searchVals[r.N(len(searchVals))]
	neg := ""
	if r.P(25) {
		neg = "!"
	}
	akeys := append([]string{"is_deleted", "nokey"}, keys[4:]...) // the helpers rewrite cluster and namespace
	switch r.N(10) {
	case 0, 1, 2: // fuzzy
		if v[0] == ';' && neg == "" {
			return "note=" + v // a part can not begin with a semicolon
		}
		for _, c := range v {
			if c == '=' || c == '!' {
				return neg + "web"
			}
		}
		return neg + v
	case 3:
		op := r.Pick("in", "notin")
		return fmt.Sprintf("%s%s %s (%s,%s)", advPrefix, akeys[r.N(len(akeys))], op, r.Pick("a", "web-1", "x", "true", "5"), r.Pick("b", "app-web", "default", "c1"))
	case 4:
		return advPrefix + akeys[r.N(len(akeys))] + r.Pick("=", "!=", "==") + r.Pick("a", "app-web", "1", "false")
	case 5: // outside the language
		if r.P(30) {
			return r.Pick(advPrefix+"app in (", advPrefix+"a b c", advPrefix+"==x", "nokey=1", "y=3", advPrefix+"app in ()x")
		}
	}
	if r.P(10) && v != "\"\"" {
		v = "\"" + v + "\""
	}
	return keys[r.N(len(keys))] + "=" + neg + v
}

// genSort composes a sort of several keys.
func genSort(r *Rng, idx int) string {
	keys := []string{"cluster", "is_deleted", "num!int", "num!int"}
	for _, d := range idxVariants[idx] {
		keys = append(keys, d.key)
	}
	if idx == 1 {
		keys = append(keys, "rank!int", "rank!int")
	}
	var l []string
	for n := r.Between(1, 4); n > 0; n-- {
		k := keys[r.N(len(keys))]
		if r.P(10) && !strings.Contains(k, "!") {
			k += "!str"
		}
		l = append(l, k+r.Pick("", " desc", " desc", " asc"))
	}
	return strings.Join(l, r.Pick(",", ", "))
}

// genQuery makes a list query.
func (g *genCtx) genQuery(r *Rng, idx int) *QSpec {
	q := g.genQ(r, idx)
	pool := append([]string(nil), searchParts...)
	if idx == 0 {
		pool = append(pool, searchV0...)
	} else if idx == 1 {
		pool = append(pool, searchV1...)
	} else {
		pool = append(pool, searchV2...)
	}
	n := r.PickInt(0, 1, 1, 2, 3)
	if r.P(4) {
		n = r.Between(4, 8)
	}
	for i := 0; i < n; i++ {
		s := pool[r.N(len(pool))]
		if r.P(55) {
			s = g.genPart(r, idx)
		}
		q.Parts = append(q.Parts, s)
	}
	if r.P(2) {
		q.Parts = append(q.Parts, "!"+strings.Repeat("w", r.PickInt(30, 300, 2000, 9000)))
	}
	if r.P(70) {
		q.Sort = sorts[r.N(len(sorts))]
		if idx == 1 && r.P(10) {
			q.Sort = r.Pick("note,name", "weight desc", "big", "phase!str,name desc", "ports,name", "broken,name desc", "weight!int", "fixed,num!int", "rank!int", "rank!int desc,name")
		}
		if idx == 2 && r.P(15) {
			q.Sort = r.Pick("path desc", "each,name", "half", "tier desc,num!int", "nothing,name", "qname desc")
		}
		if r.P(30) {
			q.Sort = genSort(r, idx)
		}
		if r.P(3) {
			q.Sort = r.Pick("nokey", "name down", "name!float", "name desc asc", "name!int")
		}
	}
	if r.P(20) {
		q.Namespaces = []string{g.anyNS(r)}
	}
	if r.P(35) {
		q.Labels = r.Pick("app=a", "app in (a,app-web)", "tier!=web", "tier", "!tier", "num=5,app=b", "app notin (a)", "app==a", "app=a,app=b", "app=a,app=a", "app in (a,app-web),app=a", "app=app-web,app in (a,b)", "app=a,app!=a", "app,app!=a")
	}
	if r.P(25) {
		q.Size = int64(r.PickInt(1, 2, 3, 5, 100))
		q.Page = int64(r.PickInt(1, 1, 2, 3))
		if r.P(12) {
			q.Size = []int64{0, 5, -1, 1 << 62, 1<<63 - 1, 3, 0}[r.N(7)]
			q.Page = []int64{0, 2, -1, 1 << 62, 1<<63 - 1, 0, 4}[r.N(7)]
		}
	}
	return q
}

func (g *genCtx) genRead(r *Rng, kind string) Step {
	s := Step{K: "list", C: -1, R: g.anyRes(r), Q: &QSpec{}}
	switch kind {
	case "list":
		s.Q = g.genQ(r, 0)
		if r.P(40) && resTypes[s.R].Namespaced {
			s.NS = g.anyNS(r)
		}
		g.mark(r, &s)
	case "listq":
		s.Q = g.genQuery(r, g.idx)
		if r.P(30) && resTypes[s.R].Namespaced {
			s.NS = g.anyNS(r)
		}
		g.mark(r, &s)
	case "table":
		s = g.genRead(r, r.Pick("list", "listq"))
		s.S = "table"
	case "get":
		s.K = "get"
		s.Q = nil
		if resTypes[s.R].Namespaced {
			s.NS = g.anyNS(r)
		}
		s.Name = g.anyName(r)
		s.C = r.N(g.nCl+1) - 1
	}
	return s
}

// mark lets a list name its cluster as other requests do, and rarely spells
// its namespace in another case.
func (g *genCtx) mark(r *Rng, s *Step) {
	if len(s.Q.Clusters) == 0 && !s.Q.AllCl && !s.Q.badAdv() && r.P(15) {
		s.X = r.Pick("rv", "fm")
		s.C = r.N(g.nCl)
		if r.P(15) {
			s.C = g.nCl // no such cluster
		}
	}
	if s.NS != "" && r.P(3) {
		s.NS = strings.ToUpper(s.NS[:1]) + s.NS[1:]
	}
}

func genWalks(p *Plan, r *Rng, g *genCtx) {
	n := r.Between(2, 6)
	for i := 0; i < n; i++ {
		q := g.genQuery(r, p.Confs[0].Idx)
		q.Size = int64(r.PickInt(1, 2, 3, 4, 7))
		q.Page = 0
		s := Step{K: "walk", At: g.horizon + 120000, Who: fmt.Sprintf("walker%d", i), C: -1, R: g.anyRes(r), Q: q, N: 40}
		if len(p.Init) > 100 {
			q.Size = int64(r.PickInt(30, 100, 101, 500, 501, 512, 999, 1000, 1001, 5000))
			s.N = 80
		}
		if r.P(30) && resTypes[s.R].Namespaced {
			s.NS = g.anyNS(r)
		}
		p.Steps = append(p.Steps, s)
		if r.P(50) { // far past the end, or anywhere
			q := *q
			q.Page = int64(r.PickInt(2, 3, 5, 9, 20, 45, 1000, 1<<40))
			f := s
			f.K, f.N, f.Q, f.Who = "list", 0, &q, fmt.Sprintf("far%d", i)
			p.Steps = append(p.Steps, f)
		}
	}
}

// addTwins adds the types which share a plural with those of the list.
func addTwins(res []int) []int {
	for _, i := range append([]int(nil), res...) {
		for j := range resTypes {
			if j != i && resTypes[j].Resource == resTypes[i].Resource {
				have := false
				for _, k := range res {
					have = have || k == j
				}
				if !have {
					res = append(res, j)
				}
			}
		}
	}
	return res
}
