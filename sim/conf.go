package main

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/url"
	"strings"
)

// confSet is what ckube's configuration may be at some moment of an interval.
type confSet struct {
	confs []*Conf
	any   bool // a file was half written: its contents may be anything in between
}

// settled reports whether the event is a complete, readable change that must
// have taken effect convMS later.
func (w *World) settled(e *ConfEvent) bool {
	c := &w.p.Confs[e.Gen]
	return c.usable() && !e.Faulty && e.DoneMS >= 0
}

// convMS is how long ckube may take to act on a change of its files: the
// watcher waits two seconds before it looks at a replaced file again.
func (w *World) convMS() int64 { return 15000 + 2*w.p.Sched.stallBudget() }

// confsAt lists the configurations that may be in force, for one file
// (0: config.json, 1: kubeconfig).
func (w *World) confsAt(facet int, t0, t1 int64) confSet {
	base := 0
	for i, e := range w.confs {
		// a change that is soon followed by another may never have been read
		held := i+1 == len(w.confs) || e.DoneMS+w.convMS() <= w.confs[i+1].StartMS
		if w.settled(e) && held && e.DoneMS+w.convMS() <= t0 {
			base = i
		}
	}
	var out confSet
	for i := base; i < len(w.confs); i++ {
		e := w.confs[i]
		if e.StartMS > t1 {
			break
		}
		c := &w.p.Confs[e.Gen]
		if (facet == 0 && c.Bad != "") || (facet == 1 && c.KBad != "") {
			continue
		}
		out.confs = append(out.confs, c)
		if facet == 1 && i > base && e.What == "parts" {
			out.any = true
		}
	}
	return out
}

// possible lists the configurations that may answer during [t0, t1]. The two
// files change one after the other, so any combination of a recent one with a
// recent other may be loaded. any: half a kubeconfig may have been loaded.
func (w *World) possible(t0, t1 int64) (cs []*Conf, any bool) {
	as, bs := w.confsAt(0, t0, t1), w.confsAt(1, t0, t1)
	seen := map[string]bool{}
	for _, a := range as.confs {
		for _, b := range bs.confs {
			c := &Conf{Res: a.Res, Idx: a.Idx, Token: a.Token, Clusters: b.Clusters, Default: b.Default, Moved: b.Moved}
			id := fmt.Sprint(*c)
			if !seen[id] {
				seen[id] = true
				cs = append(cs, c)
			}
		}
	}
	return cs, as.any || bs.any
}

// reloaded reports whether the run changes the configuration at all.
func (w *World) reloaded() bool { return len(w.confs) > 1 }

// explained judges an answer: some configuration that may be in force must
// account for it.
func (h *history) explained(rd *Read, f func(conf *Conf)) {
	cs, any := h.w.possible(rd.T0, rd.T1)
	if any {
		sim.probe("conf-any")
		return
	}
	if !h.w.reloaded() {
		f(cs[0])
		return
	}
	if rd.Step != nil && rd.Err == "" && !(rd.Step.K == "http" && openPath(rd.Step.H.Path)) {
		// it was let in, so the configuration that answered is one that lets it in
		hd := h.w.authOf(rd.Step)
		var in []*Conf
		for _, c := range cs {
			if authWith(c.Token, hd).allow {
				in = append(in, c)
			}
		}
		if len(in) > 0 {
			cs = in
		}
	}
	var vs []Violation
	for i, c := range cs {
		v := sim.trial(func() { f(c) })
		if len(v) == 0 {
			if len(cs) > 1 {
				sim.probe("explained-changing")
			} else {
				sim.probe("explained-settled")
			}
			return
		}
		if i == 0 || len(v) < len(vs) {
			vs = v
		}
	}
	if len(cs) == 1 {
		for _, v := range vs {
			sim.violate(v.Property+",C11,C12", v.Class, "%s (configuration %+v in force)", v.Msg, *cs[0])
		}
		return
	}
	sim.violate("C12", "unexplained-"+vs[0].Class, "no configuration possible at t=[%d,%d] accounts for the answer, the closest %+v does not: %s", rd.T0, rd.T1, *cs[0], vs[0].Msg)
}

// through judges an answer that must come from an API server because the type
// is not cached. It returns the answer's document.
func (h *history) through(rd *Read, conf *Conf, named []int) map[string]interface{} {
	unknown, trouble := false, false
	known := 0
	for _, c := range named {
		if !conf.hasCluster(c) {
			unknown = true
			continue
		}
		known++
		if h.troubled(h.w.p.clusterName(c), rd.T0, rd.T1) {
			trouble = true
		}
	}
	if known == 0 {
		if rd.Status != 404 {
			sim.violate(srv(rd.Status, "C09"), "unknown-cluster", "%s: status %d, none of the clusters is configured", rd.URL, rd.Status)
		}
		return nil
	}
	if unknown && rd.Status == 404 {
		return nil
	}
	for _, lg := range h.upstreamOf(rd) {
		trouble = trouble || lg.Fault != ""
	}
	if rd.Status != 200 {
		if !trouble && !(rd.Step.K == "get" && rd.Status == 404) {
			sim.violate(srv(rd.Status, "C08,C09,C11"), "through-status", "%s t=[%d,%d]: status %d %s although the API server is healthy: %s", rd.URL, rd.T0, rd.T1, rd.Status, rd.Err, short(string(rd.Body), 200))
		}
		return nil
	}
	doc, err := decodeDoc(rd.Body)
	if err != nil {
		sim.violate("C08,C11", "bad-json", "%s: answer is not a JSON document: %v: %s", rd.URL, err, short(string(rd.Body), 200))
		return nil
	}
	return doc
}

// changing reports whether the configuration may be changing during [t0, t1].
func (w *World) changing(t0, t1 int64) bool {
	for i, e := range w.confs {
		if i == 0 {
			continue
		}
		if e.StartMS <= t1 && (e.DoneMS < 0 || e.DoneMS+w.convMS() > t0) {
			return true
		}
	}
	return false
}

// finalConf is the configuration in force at the end.
// finalConf is the configuration in force at the end. A last generation that
// is unusable is only generated when the one before had taken effect.
func (w *World) finalConf() *Conf { return &w.p.Confs[w.finalGen()] }

func (w *World) finalGen() int {
	for i := len(w.confs) - 1; i > 0; i-- {
		if g := w.confs[i].Gen; w.p.Confs[g].usable() {
			return g
		}
	}
	return w.confs[0].Gen
}

func (c *Conf) usable() bool { return c.Bad == "" && c.KBad == "" }

func (c *Conf) hasRes(r int) bool {
	for _, x := range c.Res {
		if x == r {
			return true
		}
	}
	return false
}

// moved tells if the cluster is at its other address.
func (c *Conf) moved(i int) bool {
	for _, x := range c.Moved {
		if x == i {
			return true
		}
	}
	return false
}

func (c *Conf) hasCluster(i int) bool {
	for _, x := range c.Clusters {
		if x == i {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- tokens

type authView struct{ allow, deny bool }

// tokenOf is the Authorization header a step presents.
func (w *World) authOf(s *Step) string {
	gen := s.AGen
	if gen >= len(w.p.Confs) {
		gen = 0
	}
	return authText(w.p.Confs[gen].Token, s.Auth)
}

// elsewhere puts the token everywhere but in the Authorization header.
func (w *World) elsewhere(s *Step, req *http.Request) {
	if s == nil || s.Auth != "elsewhere" || s.AGen >= len(w.p.Confs) {
		return
	}
	all := true
	for i := range w.p.Confs {
		all = all && w.p.Confs[i].Token != ""
	}
	t := w.p.Confs[s.AGen].Token
	if t == "" {
		return
	}
	for _, k := range []string{"X-Forwarded-Authorization", "Proxy-Authorization", "X-Authorization", "Authorization2", "X-Original-Authorization"} {
		req.Header.Set(k, "Bearer "+t)
	}
	for _, k := range []string{"X-Auth-Token", "X-Token", "Token", "X-Api-Key", "Sec-WebSocket-Protocol", "User-Agent", "Referer"} {
		req.Header.Set(k, t)
	}
	req.Header.Set("Cookie", "token="+url.QueryEscape(t))
	if all && (s.K == "list" || s.K == "get" || s.K == "px") {
		q := req.URL.Query()
		for _, k := range []string{"token", "access_token", "Authorization"} {
			q.Set(k, t)
		}
		req.URL.RawQuery = q.Encode()
	}
}

// authText presents a token in some manner.
func authText(tok, how string) string {
	switch how {
	case "":
		if tok == "" {
			return ""
		}
		return "Bearer " + tok
	case "none", "elsewhere":
		return ""
	case "basic":
		return "Basic " + base64.StdEncoding.EncodeToString([]byte("user:"+tok))
	case "empty":
		return "Bearer "
	case "wrong":
		return "Bearer wrong"
	case "prefix":
		if len(tok) > 1 {
			return "Bearer " + tok[:len(tok)-1]
		}
		return "Bearer "
	case "suffix":
		if len(tok) > 1 {
			return "Bearer " + tok[1:]
		}
		return "Bearer "
	case "case":
		u := strings.ToUpper(tok)
		if u == tok {
			u = strings.ToLower(tok)
		}
		return "Bearer " + u
	case "spaced":
		if len(tok) > 2 {
			return "Bearer " + tok[:2] + " " + tok[2:]
		}
		return "Bearer"
	case "raw":
		return tok
	}
	return how
}

// authWith says what a configuration must do with an Authorization header.
func authWith(tok, header string) authView {
	if tok == "" {
		return authView{allow: true}
	}
	if header == "Bearer "+tok || header == tok {
		return authView{allow: true}
	}
	if !strings.Contains(header, tok) {
		return authView{deny: true}
	}
	return authView{true, true} // contains the token among other things
}

// mayAuth combines the configurations possible during a request.
func (h *history) mayAuth(rd *Read) authView {
	hd := ""
	if rd.Step != nil {
		hd = h.w.authOf(rd.Step)
	}
	if rd.Step == nil || rd.Final {
		return authView{allow: true}
	}
	var v authView
	for _, c := range h.w.confsAt(0, rd.T0, rd.T1).confs {
		x := authWith(c.Token, hd)
		v.allow = v.allow || x.allow
		v.deny = v.deny || x.deny
	}
	return v
}

// checkAuth verifies that a protected request without the token is refused
// and one with it is not.
func (h *history) checkAuth(rd *Read) {
	if rd.Step == nil || rd.Final || rd.Err != "" {
		return
	}
	if rd.Step.K == "http" && !rd.Step.wellFormed() {
		return
	}
	if rd.Step.K == "http" && openPath(rd.Step.H.Path) {
		if rd.Status == 401 {
			sim.violate("C13,C14", "refused-open", "%s %s: status 401 on an open path", rd.Method, rd.URL)
		}
		return
	}
	v := h.mayAuth(rd)
	hd := h.w.authOf(rd.Step)
	if !v.allow {
		sim.probe("auth-denied")
		if rd.Status != 401 && !(rd.Step.K == "http" && harmless(rd)) {
			sim.violate("C13", "not-refused", "%s %s with Authorization %q t=[%d,%d]: status %d: %s", rd.Method, rd.URL, hd, rd.T0, rd.T1, rd.Status, short(string(rd.Body), 200))
		}
		if rd.Step.K == "px" {
			if l := h.upstream(itoa(int(rd.Step.V))); len(l) > 0 {
				sim.violate("C13", "leaked-upstream", "%s %s with Authorization %q: refused, but sent to cluster %s", rd.Method, rd.URL, hd, l[0].Cluster)
			}
		}
		return
	}
	if !v.deny {
		sim.probe("auth-allowed")
		if rd.Status == 401 {
			for _, lg := range h.upstreamOf(rd) {
				if lg.Status == 401 {
					return
				}
			}
			sim.violate("C13", "wrongly-refused", "%s %s with Authorization %q t=[%d,%d]: status 401: %s", rd.Method, rd.URL, hd, rd.T0, rd.T1, short(string(rd.Body), 200))
		}
	}
}

func (h *history) upstreamOf(rd *Read) []*ReqLog {
	if rd.Step.K == "px" {
		return h.upstream(itoa(int(rd.Step.V)))
	}
	var out []*ReqLog
	for _, k := range h.w.kubes {
		for _, lg := range k.reqs {
			if lg.AtMS >= rd.T0 && lg.AtMS <= rd.T1 {
				out = append(out, lg)
			}
		}
	}
	return out
}

// openPath is the documented set of paths that need no token.
func openPath(p string) bool { return p == "/healthy" || p == "/metrics" }

// harmless are answers the router gives before any handler runs.
func harmless(rd *Read) bool {
	if rd.Method == "OPTIONS" && rd.Step.H.Path == "*" {
		return true // answered by the HTTP library
	}
	switch rd.Status {
	case 301, 400, 405, 413, 417, 431, 501, 505:
		return true
	}
	return false
}
