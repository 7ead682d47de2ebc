package main

import (
	"fmt"
	"sort"
)

var badConf = []string{"trunc", "empty", "type", "garbage", "gone"}
var badKube = []string{"trunc", "garbage", "empty", "nocert", "gone"}
var confHow = []string{"write", "write", "parts", "replace", "recreate", "swap", "swap", "mvnew"}

// genReloads lets the configuration change while everything else goes on.
// bad: percent of generations that are unusable.
func genReloads(lo, hi, bad int) func(p *Plan, r *Rng, g *genCtx) {
	return func(p *Plan, r *Rng, g *genCtx) {
		n := r.Between(lo, hi)
		at := make([]int64, n)
		for i := range at {
			at[i] = 10000 + g.at(r)*8/10
			if i > 0 && r.P(20) {
				at[i] = at[i-1] + int64(r.PickInt(0, 10, 500, 1900, 2100))
			}
		}
		sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
		good := 0 // the last usable generation
		how := confHow[r.N(len(confHow))]
		for i := range at {
			c := g.mutateConf(r, p.Confs[good])
			if r.P(10) {
				c = p.Confs[r.N(len(p.Confs))] // back to an earlier one
				c.Bad, c.KBad = "", ""
			}
			s := Step{K: "conf", Who: "admin", At: at[i], N: int64(len(p.Confs)), V: r.U64() % 4}
			last := i == len(at)-1
			if !last && r.P(bad) {
				switch r.N(3) {
				case 0:
					c.Bad = badConf[r.N(len(badConf))]
				case 1:
					c.KBad = badKube[r.N(len(badKube))]
				default:
					c.Bad, c.KBad = badConf[r.N(len(badConf))], badKube[r.N(len(badKube))]
				}
			} else {
				good = len(p.Confs)
			}
			p.Confs = append(p.Confs, c)
			if r.P(60) {
				how = confHow[r.N(len(confHow))]
			}
			s.S = how
			switch how {
			case "parts":
				s.D = int64(r.PickInt(0, 1, 20, 500))
			case "recreate", "mvnew":
				s.D = int64(r.PickInt(0, 1, 100, 1000, 1999, 2500, 10000, 30000))
			}
			s.M = int64(r.PickInt(0, 0, 1, 100, 3000))
			if !last && r.P(10) {
				s.Name = "openerr"
				s.D += int64(r.N(2))
			} else if r.P(15) {
				s.Name = "adderr"
			}
			p.Steps = append(p.Steps, s)
			// readers at the moment of the change
			for k := r.N(8); k > 0; k-- {
				rs := g.genRead(r, r.Pick("list", "get", "listq"))
				rs.Who = fmt.Sprintf("around%d", r.N(4))
				rs.At = at[i] + int64(r.PickInt(0, 0, 1, 2, 5, 20, 100, 1000, 2000, 2001, 2010, 5000))
				p.Steps = append(p.Steps, rs)
			}
		}
		// the last change may be unusable: what was in force stays
		if n > 0 && r.P(bad*3/4) {
			c := p.Confs[len(p.Confs)-1]
			switch r.N(3) {
			case 0:
				c.Bad = badConf[r.N(len(badConf))]
			case 1:
				c.KBad = badKube[r.N(len(badKube))]
			default:
				c.Bad, c.KBad = badConf[r.N(len(badConf))], badKube[r.N(len(badKube))]
			}
			when := at[n-1] + 2*60000 + 15000 + 2*p.Sched.stallBudget() + int64(r.N(30000))
			p.Steps = append(p.Steps, Step{K: "conf", Who: "admin", At: when, N: int64(len(p.Confs)), V: r.U64()%2 + 2, S: r.Pick("write", "replace", "swap")})
			p.Confs = append(p.Confs, c)
		}
	}
}

// genEarly changes the configuration while ckube starts.
func genEarly(p *Plan, r *Rng, g *genCtx) {
	c := g.mutateConf(r, p.Confs[0])
	s := Step{K: "conf", Who: "early", At: int64(r.N(120)), N: int64(len(p.Confs)), V: r.U64() % 4, S: r.Pick("write", "replace", "swap")}
	p.Confs = append(p.Confs, c)
	p.Steps = append(p.Steps, s)
	k := &p.Sched
	k.Hot = append(k.Hot, [2]int64{0, 200})
	k.HotStall = r.PickInt(5000, 20000, 100000)
	k.HotMax = 60
	k.HotMS = [][]int64{{1, 5}, {10, 30}, {20, 50}}[r.N(3)]
}

// genStorm surrounds the moments at which changes take effect with requests,
// and holds goroutines for moments then. The configurations differ in what
// their answers show.
func genStorm(p *Plan, r *Rng, g *genCtx) {
	if r.P(80) {
		p.Latency = nil
	}
	k := &p.Sched
	hold := r.P(55)
	if hold { // what changes the configuration is held, requests come meanwhile
		k.HotStall = r.PickInt(0, 0, 1000)
		k.HotRare = r.PickInt(30000, 100000, 200000)
		k.HotMax = 400
		k.HotMS = [][]int64{{1, 2}, {2, 5}, {3, 8}}[r.N(3)]
	} else { // requests are held, the configuration changes meanwhile
		k.HotStall = r.PickInt(5000, 20000, 50000)
		k.HotMax = r.PickInt(100, 200, 300)
		k.HotMS = [][]int64{{5}, {10, 30}, {20, 50}}[r.N(3)]
	}
	k.Preempt = r.PickInt(0, 256, 2048)
	prev := &p.Confs[0]
	var storm []Step
	for i := range p.Steps {
		s := &p.Steps[i]
		if s.K != "conf" {
			continue
		}
		c := &p.Confs[s.N]
		if !c.usable() {
			continue
		}
		if r.P(70) {
			g.contrast(r, prev, c)
		}
		s.At += 333 // not when everything else happens
		if r.P(70) {
			s.M = 0
		}
		eff := s.At
		switch s.S {
		case "write", "parts":
		case "replace", "swap":
			eff += 2000
		default:
			eff += (s.D/2000 + 1) * 2000
		}
		if r.P(35) { // objects change as well
			for n := r.Between(5, 60); n > 0; n-- {
				m := Step{K: r.Pick("put", "put", "del"), At: eff - 20 + int64(r.N(300)), C: r.N(g.nCl), R: g.anyRes(r), NS: g.anyNS(r), Name: g.anyName(r), V: r.U64() % 100000}
				if r.P(50) {
					m.At = eff + int64(r.N(4))
				}
				storm = append(storm, m)
			}
		}
		if len(k.Hot) == 0 || r.P(80) {
			k.Hot = append(k.Hot, [2]int64{eff - 80, eff + 500})
			var types []int
			for i := range resTypes {
				if c.hasRes(i) != prev.hasRes(i) {
					types = append(types, i)
				}
			}
			for n := r.Between(20, 80); n > 0; n-- {
				rs := g.genRead(r, r.Pick("list", "list", "get", "listq"))
				if len(types) > 0 && r.P(40) {
					rs.R = types[r.N(len(types))]
					if !resTypes[rs.R].Namespaced {
						rs.NS = ""
					} else if rs.K == "get" && rs.NS == "" {
						rs.NS = g.anyNS(r)
					}
				}
				if r.P(50) { // the default cluster
					rs.C = -1
					if rs.Q != nil {
						rs.Q.Clusters, rs.Q.AllCl = nil, false
					}
				}
				rs.Who = fmt.Sprintf("storm%d", r.N(25))
				if hold {
					rs.At = eff + int64(r.N(2))
					rs.Hold = 450
				} else {
					rs.At = eff - 60 + int64(r.N(80))
				}
				storm = append(storm, rs)
			}
		}
		prev = c
	}
	p.Steps = append(p.Steps, storm...)
}

// contrast makes two configurations tell from each other by their answers.
func (g *genCtx) contrast(r *Rng, a, c *Conf) {
	var cl []int
	for i := 0; i < g.nCl; i++ {
		if i != a.Default && (!a.hasCluster(i) || r.P(40)) {
			cl = append(cl, i)
		}
	}
	if len(cl) > 0 && r.P(70) {
		c.Clusters = cl
		c.Default = cl[r.N(len(cl))]
	}
	if r.P(60) {
		c.Token = r.Pick("", "alphaTOKEN1", "betaTOKEN22", "gammaTOK333")
	}
	if r.P(50) {
		c.Idx = r.N(len(idxVariants))
	}
	if r.P(60) {
		var res []int
		for i := range resTypes {
			if c.hasRes(i) && r.P(60) || !c.hasRes(i) && r.P(25) {
				res = append(res, i)
			}
		}
		c.Res = res
	}
}

// mutateConf changes something about a configuration.
func (g *genCtx) mutateConf(r *Rng, c Conf) Conf {
	c.Bad, c.KBad = "", ""
	for n := r.Between(1, 2); n > 0; n-- {
		switch r.N(7) {
		case 0: // other types
			var res []int
			for i := range resTypes {
				if c.hasRes(i) && r.P(70) || !c.hasRes(i) && r.P(20) {
					res = append(res, i)
				}
			}
			c.Res = res
		case 1:
			c.Idx = r.N(len(idxVariants))
		case 2: // other clusters
			var cl []int
			for i := 0; i < g.nCl; i++ {
				if r.P(60) {
					cl = append(cl, i)
				}
			}
			if len(cl) == 0 {
				cl = []int{r.N(g.nCl)}
			}
			c.Clusters = cl
			if !c.hasCluster(c.Default) {
				c.Default = cl[r.N(len(cl))]
			}
		case 3:
			c.Default = c.Clusters[r.N(len(c.Clusters))]
		case 4:
			c.Token = r.Pick("", "alphaTOKEN1", "betaTOKEN22", "gammaTOK333")
		case 5: // a cluster is somewhere else now
			i := c.Clusters[r.N(len(c.Clusters))]
			var mv []int
			for k := 0; k < g.nCl; k++ {
				if c.moved(k) != (k == i) {
					mv = append(mv, k)
				}
			}
			c.Moved = mv
		default: // touched, nothing changed
		}
	}
	return c
}

// setTokens makes every client present the token of the configuration in force
// when it acts (or an older one), and some present something else.
func setTokens(steps []Step, p *Plan, r *Rng, odd int) {
	for i := range steps {
		s := &steps[i]
		switch s.K {
		case "list", "get", "walk", "px", "watch", "svc", "http":
		default:
			continue
		}
		gen := 0
		for k := range p.Steps {
			if c := &p.Steps[k]; c.K == "conf" && c.At <= s.At && p.Confs[c.N].usable() {
				gen = int(c.N)
			}
		}
		s.AGen = gen
		if len(p.Confs) > 1 && r.P(10) {
			s.AGen = r.N(len(p.Confs))
		}
		if r.P(odd) {
			s.Auth = r.Pick("none", "empty", "wrong", "prefix", "suffix", "case", "spaced", "raw", "elsewhere", "elsewhere", "basic")
		}
	}
}

// finalReload asks questions only the last configuration answers like this.
func (w *World) finalReload(conf *Conf) {
	gen := w.finalGen()
	ask := func(s *Step) {
		s.AGen = gen
		s.Who = "final"
		s.ID = 9000 + len(w.reads)
		w.apply(s)
	}
	for i := range resTypes {
		if !conf.hasRes(i) {
			ask(&Step{K: "list", C: -1, R: i, Q: &QSpec{}})
		}
	}
	for i := range w.p.Clusters {
		for _, r := range conf.Res {
			ask(&Step{K: "get", C: i, R: r, NS: "default", Name: "x"})
			if !w.p.odd() {
				ask(&Step{K: "list", C: -1, R: r, Q: &QSpec{Clusters: []int{i}}})
			}
			break
		}
	}
	for _, r := range conf.Res {
		q := &QSpec{Clusters: conf.Clusters, Parts: []string{searchV0[0]}}
		if w.p.odd() {
			q.Clusters = nil
		}
		if conf.Idx == 1 {
			q.Parts = []string{"tpl=web"}
		}
		ask(&Step{K: "list", C: -1, R: r, Q: q})
		ask(&Step{K: "list", C: -1, R: r, Q: &QSpec{}})
	}
	if len(conf.Res) > 0 {
		for g := range w.p.Confs {
			s := &Step{K: "list", C: -1, R: conf.Res[0], Q: &QSpec{}, Who: "final", ID: 9500 + g, AGen: g}
			w.apply(s)
		}
		w.apply(&Step{K: "list", C: -1, R: conf.Res[0], Q: &QSpec{}, Who: "final", ID: 9600, Auth: "none"})
	}
}
