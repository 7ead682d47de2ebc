package main

import (
	"fmt"
	"sort"
	"strings"
)

// genMore adds rarer situations to a plan. It draws from a generator of its
// own.
func genMore(p *Plan, g *genCtx) {
	r := newRng(hash64("more", p.Property, p.GenSeed))
	is := func(l ...string) bool {
		for _, x := range l {
			if x == p.Property {
				return true
			}
		}
		return false
	}
	from := len(p.Steps)
	add := func(s Step) { p.Steps = append(p.Steps, s) }
	if is("C01", "C04", "C15", "C17") && r.P(8) {
		// a cluster is away for so long that waiting ever longer shows
		s := Step{K: r.Pick("refuse", "crash", "hole", "err", "err"), At: g.at(r) / 4, C: r.N(g.nCl), R: g.anyRes(r), D: int64(r.PickInt(400, 900, 1800, 2600)) * 1000}
		if s.K == "err" {
			s.N, s.S = int64(r.PickInt(500, 503, 401)), "status"
		}
		add(s)
		p.HorizonMS = max(p.HorizonMS, s.At+s.D+int64(r.PickInt(1, 100))*1000)
	}
	if is("C04") && r.P(20) && g.nCl > 1 {
		// many types of a cluster that hangs, and another one that does not
		c := &p.Confs[0]
		have := map[int]bool{}
		for _, x := range c.Res {
			have[x] = true
		}
		for n := r.Between(4, 8); len(c.Res) < n; {
			if x := r.N(len(resTypes)); !have[x] {
				have[x] = true
				c.Res = append(c.Res, x)
			}
		}
		c.Res = append([]int(nil), c.Res...)
		sort.Ints(c.Res)
		a := r.N(g.nCl)
		b := (a + 1 + r.N(g.nCl-1)) % g.nCl
		at := g.at(r) / 2
		k := r.Pick("hang", "hang", "hole")
		add(Step{K: "cutwatch", At: at, C: a, N: -1})
		add(Step{K: k, At: at + int64(r.PickInt(100, 300)), C: a, D: int64(r.PickInt(60, 150, 200)) * 1000})
		for i := r.Between(1, 4); i > 0; i-- {
			add(Step{K: "cutwatch", At: at + int64(r.Between(3, 60))*1000, C: b, N: -1})
		}
		p.HorizonMS = max(p.HorizonMS, at+100000)
	}
	if is("C13") && r.P(60) {
		for n := r.Between(3, 14); n > 0; n-- {
			add(g.genDisguised(r))
		}
	}
	if is("C14", "C15") && r.P(35) {
		// several scrape at once
		at := g.at(r)
		for n := r.Between(3, 8); n > 0; n-- {
			add(Step{K: "http", C: -1, At: at, H: &HTTPRq{Method: "GET", Path: "/metrics"}, Auth: r.Pick("", "none")})
		}
		add(Step{K: "http", C: -1, At: at, H: &HTTPRq{Method: "GET", Path: "/healthy"}, Auth: "none"})
	}
	if is("C10", "C14") && r.P(2) {
		at := g.at(r) / 2
		for n := r.Between(110, 260); n > 0; n-- {
			add(Step{K: "watch", At: at + int64(r.N(2000)), R: g.anyRes(r), C: -1})
		}
		for n := r.Between(2, 8); n > 0; n-- {
			s := g.genRead(r, r.Pick("list", "get"))
			s.At = at + 3000 + int64(r.N(10000))
			add(s)
		}
	}
	if is("C10") && r.P(7) {
		// streams that live for long
		p.HorizonMS = max(p.HorizonMS, int64(r.PickInt(700, 1500, 2400))*1000)
		for n := r.Between(1, 4); n > 0; n-- {
			s := g.genWatch(r)
			s.At, s.D, s.N = int64(r.Between(1, 20))*1000, 0, 0
			add(s)
		}
		for n := r.Between(3, 12); n > 0; n-- {
			add(Step{K: "put", At: int64(r.N(int(p.HorizonMS))), C: r.N(g.nCl), R: g.anyRes(r), NS: g.anyNS(r), Name: g.anyName(r), V: r.U64() % 100000})
		}
	}
	if is("C09", "C13") {
		for n := r.N(12); n > 0; n-- {
			s := g.genRead(r, "listq")
			s.Who, s.At = fmt.Sprintf("reader%d", r.N(3)), g.at(r)
			add(s)
		}
	}
	if is("C06") {
		// results of several pages, in several clusters
		for n := r.Between(2, 5); n > 0; n-- {
			s := Step{K: "walk", At: g.horizon + 120000, Who: fmt.Sprintf("wide%d", n), C: -1, R: g.anyRes(r), N: 40}
			s.Q = &QSpec{AllCl: !g.odd && r.P(70), Size: int64(r.PickInt(1, 2, 3, 5)), Sort: r.Pick("", "name", "name desc", "app", "app desc", "num!int desc", "namespace desc,name desc", "cluster desc", "namespace", "num", genSort(r, g.idx))}
			if r.P(60) {
				s.Q.Labels = r.Pick("tier!=web", "app", "!absent", "app notin (a)", "num!=5", "app in (a,b,app-web)", "tier notin (db,web)")
			}
			if r.P(20) {
				s.Q.Parts = []string{r.Pick("w", "1", "!x", "name=-", "app=a")}
			}
			if len(p.Init) > 100 {
				s.Q.Size, s.N = int64(r.PickInt(100, 101, 512, 1000)), 80
			}
			add(s)
		}
		for n := r.N(8); n > 0; n-- { // the same names everywhere
			s := Step{K: "put", R: g.anyRes(r), NS: g.anyNS(r), Name: g.anyName(r), V: r.U64() % 100000}
			for s.C = 0; s.C < g.nCl; s.C++ {
				p.Init = append(p.Init, s)
			}
		}
	}
	if is("C16") && r.P(4) {
		// a namespace of many services
		s := Step{K: "put", C: r.N(g.nCl), R: 1, NS: g.anyNS(r)}
		for n := r.Between(105, 180); n > 0; n-- {
			s.Name, s.V = fmt.Sprintf("%s-%d", r.Pick("web", "api", "x"), n), r.U64()%100000
			p.Init = append(p.Init, s)
		}
		s.R = 0
		for n := r.Between(1, 4); n > 0; n-- {
			s.Name, s.V = fmt.Sprintf("web-%d", n), r.U64()%100000
			p.Init = append(p.Init, s)
		}
		for n := r.Between(2, 5); n > 0; n-- {
			c := s.C
			if strings.Contains(p.clusterName(c), "/") {
				c = -1 // no path names it
			}
			add(Step{K: "svc", At: g.at(r), C: c, NS: s.NS, Name: r.Pick("web", "web", "api")})
		}
	}
	if conf := &p.Confs[0]; conf.Token != "" || len(p.Confs) > 1 || g.prof.auth > 0 {
		setTokens(p.Steps[from:], p, r, g.prof.auth)
	}
}

// genDisguised draws an ordinary request that pretends to be of a kind, from a
// place or by somebody that some servers treat differently.
func (g *genCtx) genDisguised(r *Rng) Step {
	s := Step{K: "http", C: -1, At: g.at(r), S: "disguised"}
	h := &HTTPRq{Method: "GET", Header: map[string]string{}}
	s.H = h
	rt := &resTypes[g.anyRes(r)]
	ns := ""
	if rt.Namespaced && r.P(50) {
		ns = g.anyNS(r)
	}
	h.Path = rt.path(ns, "")
	switch r.N(5) {
	case 0:
		if rt.Namespaced {
			ns = g.anyNS(r)
		}
		h.Path = rt.path(ns, g.anyName(r))
	case 1:
		h.Path = fmt.Sprintf("/custom/v1/namespaces/%s/deployments/web/services", g.anyNS(r))
	case 2:
		h.Path = "/api/v1/nodes"
	}
	for n := r.Between(1, 2); n > 0; n-- {
		switch r.N(12) {
		case 0, 1:
			h.Header["Connection"] = "Upgrade"
			h.Header["Upgrade"] = r.Pick("websocket", "SPDY/3.1")
		case 2:
			h.Header[r.Pick("X-Forwarded-User", "X-Remote-User", "Impersonate-User")] = r.Pick("admin", "system:admin")
		case 3:
			h.Header[r.Pick("X-Original-URL", "X-Rewrite-URL", "X-Forwarded-Path", "X-Forwarded-Prefix")] = r.Pick("/healthy", "/metrics")
		case 4:
			h.Header["User-Agent"] = r.Pick("kube-probe/1.21", "Prometheus/2.30.0", "ckube", "Go-http-client/1.1")
		case 5:
			h.Header[r.Pick("Proxy-Authorization", "X-Authorization", "X-Forwarded-Authorization")] = "Bearer s3cretTOKEN"
		case 6:
			h.Header["Cookie"] = r.Pick("token=s3cretTOKEN", "Authorization=Bearer%20s3cretTOKEN")
		case 7:
			h.Header[r.Pick("X-Forwarded-For", "X-Real-IP", "X-Client-IP")] = r.Pick("127.0.0.1", "::1", "10.0.0.1")
		case 8:
			h.Header["X-Http-Method-Override"] = r.Pick("OPTIONS", "GET")
		case 9:
			h.Header["Origin"] = r.Pick("http://ckube", "null")
			h.Header["Access-Control-Request-Method"] = "GET"
		case 10:
			h.Query = r.Pick("token=s3cretTOKEN", "access_token=s3cretTOKEN", "x=/healthy", "path=/metrics")
		default:
			h.Header["Referer"] = r.Pick("http://ckube/healthy", "http://ckube/metrics")
		}
	}
	return s
}
