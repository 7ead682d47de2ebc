package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"

	"github.com/DaoCloud/ckube/page"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
)

// ---------------------------------------------------------------- generation

const unknownCluster = "nowhere"

// clusterName names cluster i of a plan; one past the end is a cluster nobody
// configured.
func (p *Plan) clusterName(i int) string {
	if i >= 0 && i < len(p.Clusters) {
		return p.Clusters[i]
	}
	return p.unknown()
}

func alnum(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

// unknown is a cluster nobody configured, often one much like one somebody did.
func (p *Plan) unknown() string {
	if len(p.Clusters) == 0 {
		return unknownCluster
	}
	c := p.Clusters[hash64("unknown", p.Seed)%uint64(len(p.Clusters))]
	var u string
	switch hash64("manner", p.Seed) % 6 {
	case 0:
		if u = strings.ToUpper(c); u == c {
			u = strings.ToLower(c)
		}
	case 1:
		u = c + "x"
	case 2:
		u = c[:len(c)-1]
	case 3:
		u = "default"
	}
	if u == "" || contains(p.Clusters, u) || !alnum(u[0]) || !alnum(u[len(u)-1]) {
		return unknownCluster
	}
	return u
}

var patchTypes = []string{"application/merge-patch+json", "application/strategic-merge-patch+json", "application/apply-patch+yaml", "application/json-patch+json"}

var otherPaths = []string{"/version", "/openapi/v2", "/apis", "/api", "/api/v1", "/apis/apps/v1", "/apis/notfound.sim/v1", "/readyz/ping", "/logs/x.log",
	"/api/v1/namespaces/default/pods/web-1/log", "/api/v1/namespaces/default/pods/web-1/status", "/api/v1/namespaces/default/services/web-1/proxy/a/b", "/apis/apps/v1/namespaces/default/deployments/web-1/scale",
	"/api/v1/nodes", "/apis/unknown.group/v1/namespaces/default/things/a%20b", "/apis/unknown.group/v1/things", "/api/v1/namespaces/default/secrets/s%C3%BC",
	"/apis/unknown.group/v1/namespaces/default/things/a%2Fb", "/api/v1/namespaces/default/services/https:web-1:443/proxy/a%2Fb%3Fc/", "/apis/unknown.group/v1/things/100%25%23%3F", "/apis/unknown.group/v1/things/%61bc", "/apis/unknown.group/v1/things/a+b;c=d,e@f!$&'()*:",
	"/api/v1/namespaces/watch/secrets/x", "/apis/unknown.group/v1/namespaces/watch/things", "/apis/unknown.group/v1/namespaces/default/things/watch/status", "/api/v1/namespaces/default/services/watch/proxy/watch/x",
	"/apis/unknown.group/v1/namespaces/default/things/x/nothing", "/livez/nothing"}

// genPx draws a request that has to be passed on to an API server.
func (g *genCtx) genPx(p *Plan, r *Rng, num uint64) Step {
	s := Step{K: "px", C: -1, V: num, At: g.at(r)}
	h := &HTTPRq{Header: map[string]string{}}
	s.H = h
	q := url.Values{}
	q.Set("simreq", fmt.Sprint(num))
	rtI := r.N(len(resTypes))
	if r.P(40) {
		rtI = g.anyRes(r)
	}
	s.R = rtI
	rt := &resTypes[rtI]
	ns := ""
	if rt.Namespaced {
		ns = g.anyNS(r)
	}
	name := g.anyName(r)
	body := func(nm string) string {
		b := genBody(rt, ns, nm, r.U64()%100000)
		m, _ := b["metadata"].(map[string]interface{})
		m["name"] = nm
		if ns != "" {
			m["namespace"] = ns
		}
		b["kind"], b["apiVersion"] = rt.Kind, rt.apiVersion()
		if r.P(10) {
			b["spacing"] = "tab\tquote\" <&> ünïcode"
		}
		bs, _ := json.Marshal(b)
		if r.P(20) {
			return " " + string(bs) + "\n"
		}
		if r.P(2) {
			b["blob"] = strings.Repeat("large ", r.PickInt(11000, 180000, 360000))
			bs, _ = json.Marshal(b)
		}
		return string(bs)
	}
	manners := []string{"", "", "cluster", "sel"}
	switch x := r.N(100); {
	case x < 14: // collections
		h.Method = "GET"
		h.Path = rt.path(ns, "")
		if r.P(30) {
			h.Path = rt.path("", "")
		}
		manners = append(manners, "rv", "rv", "fm")
		for _, o := range []string{"fieldSelector=metadata.name=x", "limit=5", "timeoutSeconds=30", "timeout=32s", "pretty=true", "continue=abc%3D", "labelSelector=app%3Da,tier%21%3Dweb", "labelSelector=app in (a,b)", "labelSelector=app=a,app=b", "labelSelector=num>5", "resourceVersionMatch=NotOlderThan"} {
			if r.P(20) {
				kv := strings.SplitN(o, "=", 2)
				v, _ := url.QueryUnescape(kv[1])
				q.Set(kv[0], v)
			}
		}
	case x < 24: // objects
		h.Method = "GET"
		h.Path = rt.path(ns, name)
		manners = append(manners, "rv", "rv", "fm")
	case x < 42: // create
		h.Method = "POST"
		h.Path = rt.path(ns, "")
		h.Body = body(name)
		manners = append(manners, "fm", "fm", "fm")
		h.Header["Content-Type"] = r.Pick("application/json", "application/json", "application/yaml", "application/json; charset=utf-8")
		if r.P(20) {
			q.Set("dryRun", "All")
		}
	case x < 54:
		h.Method = "PUT"
		h.Path = rt.path(ns, name)
		h.Body = body(name)
		h.Header["Content-Type"] = "application/json"
		manners = append(manners, "fm", "fm")
	case x < 66:
		h.Method = "PATCH"
		h.Path = rt.path(ns, name)
		h.Header["Content-Type"] = patchTypes[r.N(len(patchTypes))]
		h.Body = fmt.Sprintf(`{"metadata":{"labels":{"patched":"p%d"}}}`, num)
		if strings.HasPrefix(h.Header["Content-Type"], "application/json-patch") {
			h.Body = `[{"op":"add","path":"/metadata/labels/x","value":"y"}]`
		}
		if r.P(30) {
			q.Set("force", "true")
		}
		manners = append(manners, "fm", "fm")
	case x < 82:
		h.Method = "DELETE"
		h.Path = rt.path(ns, name)
		if r.P(20) { // a collection
			h.Path = rt.path(ns, "")
			if r.P(70) {
				q.Set("labelSelector", r.Pick("app=nosuch", "app in (nosuch,none)", "app=nosuch,tier!=web"))
			}
		}
		manners = append(manners, "dry", "dry", "dry")
	case x < 94:
		h.Method = r.Pick("GET", "GET", "GET", "POST", "PUT", "DELETE", "PATCH")
		h.Path = otherPaths[r.N(len(otherPaths))]
		if h.Method == "POST" || h.Method == "PUT" || h.Method == "PATCH" {
			h.Body = r.Pick(`{"a":1}`, "plain text body", "{\"metadata\":{\"name\":\"q\"}}")
			h.Header["Content-Type"] = "application/json"
			if h.Method == "PATCH" {
				h.Header["Content-Type"] = patchTypes[0]
			}
		}
		if r.P(30) {
			q.Set("container", "main")
			q.Add("command", "ls")
			q.Add("command", "-l")
		}
		manners = []string{"", "", "cluster", "fm"}
	default:
		h.Method = r.Pick("HEAD", "HEAD", "OPTIONS")
		h.Path = rt.path(ns, name)
		if r.P(40) {
			h.Path = rt.path(ns, "")
		}
	}
	s.S = manners[r.N(len(manners))]
	if s.S == "sel" && (g.odd || strings.Contains(q.Get("labelSelector"), ">")) {
		s.S = ""
	}
	if s.S != "" {
		s.C = r.N(g.nCl)
		if r.P(12) {
			s.C = g.nCl // not a cluster
		}
	}
	cl := p.clusterName(s.C)
	switch s.S {
	case "rv":
		q.Set("resourceVersion", "dsm-cluster-"+cl)
	case "fm":
		q.Set("fieldManager", "dsm-cluster-"+cl)
	case "cluster":
		q.Set("cluster", cl)
	case "sel":
		pg := page.Paginate{}
		cs := []string{cl}
		if r.P(30) && g.nCl > 1 {
			s.Cs = []int{r.N(g.nCl)}
			cs = append(cs, p.Clusters[s.Cs[0]])
		}
		_ = pg.Clusters(cs)
		if r.P(30) {
			pg.Search += ";name=" + strings.Repeat("w", r.PickInt(1, 30, 200))
		}
		lo, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: q.Get("labelSelector")}, pg)
		if err != nil {
			harnessFail("QueryListOptions: %v", err)
		}
		q.Set("labelSelector", lo.LabelSelector)
	default:
		if (h.Method == "POST" || h.Method == "PUT" || h.Method == "PATCH") && r.P(40) {
			q.Set("fieldManager", "kubectl")
		}
		if h.Method == "GET" && r.P(20) {
			q.Set("resourceVersion", r.Pick("0", "123"))
		}
	}
	if h.Method == "DELETE" {
		o := map[string]interface{}{}
		if r.P(60) {
			o["kind"], o["apiVersion"] = "DeleteOptions", "v1"
		}
		if r.P(50) {
			o["propagationPolicy"] = r.Pick("Foreground", "Background", "Orphan")
		}
		if r.P(40) {
			o["gracePeriodSeconds"] = r.PickInt(0, 30)
		}
		if r.P(20) {
			o["preconditions"] = map[string]interface{}{"uid": "some-uid"}
		}
		var dry []string
		if s.S == "dry" {
			dry = append(dry, "dsm-cluster-"+cl)
		}
		if r.P(25) {
			dry = append(dry, "All")
		}
		if dry != nil {
			o["dryRun"] = dry
		}
		if len(o) > 0 || s.S == "dry" {
			bs, _ := json.Marshal(o)
			h.Body = string(bs)
		}
	}
	h.Query = q.Encode()
	if len(h.Header) == 0 {
		h.Header = nil
	}
	return s
}

// genRFault breaks answers to some passed-on requests.
func genRFault(r *Rng, g *genCtx) Step {
	s := Step{K: "rfault", At: g.at(r), C: r.N(g.nCl), D: int64(r.Between(1, 4)), S: r.Pick("status", "status", "html", "rst-before", "rst-after", "truncate", "slow")}
	if r.P(40) {
		s.At = 0
	}
	s.Name = r.Pick("", "", "GET", "POST", "PUT", "PATCH", "DELETE")
	switch s.S {
	case "status", "html":
		s.N = int64(r.PickInt(500, 503, 429, 429, 409, 403, 404, 504, 401))
		if s.N == 429 || s.N >= 500 {
			s.M = int64(r.PickInt(0, 1, 1, 3))
		}
	case "slow":
		s.N = int64(r.PickInt(1000, 20000, 50000))
	case "rst-before", "rst-after":
		s.N = (s.D + s.At) % 2 // closed, not reset
	}
	return s
}

func genProxies(lo, hi int) func(p *Plan, r *Rng, g *genCtx) {
	return func(p *Plan, r *Rng, g *genCtx) {
		n := r.Between(lo, hi)
		cli := r.Between(1, 6)
		hot := g.at(r)
		for i := 0; i < n; i++ {
			s := g.genPx(p, r, uint64(i+1))
			s.Who = fmt.Sprintf("px%d", r.N(cli))
			if r.P(30) {
				s.At = hot
			}
			if r.P(25) {
				s.Who = "" // not waiting for its own earlier requests
			}
			p.Steps = append(p.Steps, s)
		}
		if g.prof.rfaults > 0 && r.P(g.prof.rfaults) {
			n := r.Between(1, 6)
			for i := 0; i < n; i++ {
				p.Steps = append(p.Steps, genRFault(r, g))
			}
		}
	}
}

// ---------------------------------------------------------------- oracle

// troubled reports whether cluster c had a fault, or may have had one, at any
// moment of [t0, t1].
func (h *history) troubled(c string, t0, t1 int64) bool {
	for _, f := range h.w.faults {
		if f.C < len(h.w.p.Clusters) && h.w.p.Clusters[f.C] == c && f.From <= t1 && f.To+1000 >= t0 {
			return true
		}
	}
	return false
}

const pxBoundMS = 60000 + 25000

// normQuery is a query as a sorted list of key=value without the parts ckube
// owns.
func normQuery(raw string, drop func(k, v string) bool) []string {
	vs, err := url.ParseQuery(raw)
	if err != nil {
		return []string{"unparsable:" + raw}
	}
	var out []string
	for k, l := range vs {
		for _, v := range l {
			if drop(k, v) {
				continue
			}
			if k == "labelSelector" {
				v = normSelector(v)
				if v == "" {
					continue
				}
			}
			out = append(out, k+"="+v)
		}
	}
	sort.Strings(out)
	return out
}

const paginateKey = "ckube.daocloud.io/query"

// normSelector is a label selector as a canonical conjunction without the
// pagination requirement.
func normSelector(s string) string {
	if s == "" || s == "<none>" {
		return ""
	}
	sel, err := labels.Parse(s)
	if err != nil {
		return "raw:" + s
	}
	rs, _ := sel.Requirements()
	var out []string
	for _, m := range rs {
		if m.Key() == paginateKey {
			continue
		}
		op := string(m.Operator())
		switch op {
		case "=", "==":
			op = "in"
		case "!=":
			op = "notin"
		}
		out = append(out, m.Key()+" "+op+" "+strings.Join(m.Values().List(), ","))
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

// deleteBody is a DeleteOptions document without ckube's marker.
func deleteBody(b string) (map[string]interface{}, bool) {
	if strings.TrimSpace(b) == "" {
		return map[string]interface{}{}, true
	}
	m := decodeObj(b)
	if m == nil {
		return nil, false
	}
	if dr, ok := m["dryRun"].([]interface{}); ok {
		var out []interface{}
		for _, d := range dr {
			if s, _ := d.(string); !strings.HasPrefix(s, "dsm-cluster-") {
				out = append(out, d)
			}
		}
		if len(out) == 0 {
			delete(m, "dryRun")
		} else {
			m["dryRun"] = out
		}
	}
	return m, true
}

// decodePath undoes escapes, but an escaped slash separates nothing.
func decodePath(p string) string {
	parts := strings.Split(p, "/")
	for i, x := range parts {
		if u, err := url.PathUnescape(x); err == nil {
			parts[i] = strings.ReplaceAll(u, "/", "%2F")
		}
	}
	return strings.Join(parts, "/")
}

// upstream lists what reached the API servers on behalf of a request.
func (h *history) upstream(num string) []*ReqLog {
	var out []*ReqLog
	for _, k := range h.w.kubes {
		k.lock()
		for _, lg := range k.reqs {
			if lg.Req == num {
				out = append(out, lg)
			}
		}
		k.unlock()
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Seq < out[j].Seq })
	return out
}

// checkPx verifies one passed-on request.
func (h *history) checkPx(rd *Read) {
	s := rd.Step
	rq := s.H
	logs := h.upstream(fmt.Sprint(s.V))
	what := fmt.Sprintf("%s %s%s t=[%d,%d] -> %d %s", rq.Method, rq.Path, "?"+rq.Query, rd.T0, rd.T1, rd.Status, rd.Err)
	// who may answer
	auth := h.mayAuth(rd)
	if !auth.allow {
		return // checkAuth
	}
	ks := h.w.confsAt(1, rd.T0, rd.T1)
	targets := map[string]bool{} // cluster -> configured
	missing := false
	for _, c := range ks.confs {
		ts := []int{c.Default}
		if s.S != "" {
			ts = append([]int{s.C}, s.Cs...) // any of the clusters named
		}
		for _, t := range ts {
			if c.hasCluster(t) {
				targets[h.w.p.clusterName(t)] = true
			} else {
				missing = true
			}
		}
	}
	if ks.any {
		for _, c := range h.w.p.Clusters {
			targets[c] = true
		}
		missing = true
	}
	exclusive := len(targets) == 1 && !missing
	only := ""
	for t := range targets {
		only = t
	}
	if rd.Err == "" && rd.Status == 401 && len(logs) == 0 && auth.deny {
		return // the token was changing
	}
	// routing
	for _, lg := range logs {
		if !targets[lg.Cluster] {
			var tl []string
			for t := range targets {
				tl = append(tl, t)
			}
			sort.Strings(tl)
			sim.violate("C09,C08", "misrouted", "%s reached cluster %s, meant for %v", what, lg.Cluster, tl)
			return
		}
		if a := lg.Header.Get("Authorization"); a != "" {
			sim.violate("C13,C09", "credentials", "%s: the client's Authorization %q went to cluster %s", what, a, lg.Cluster)
		}
	}
	if rd.Err == "timeout" || rd.T1-rd.T0 > pxBoundMS+h.deltaMS+h.throttleMS(rd.T0) {
		sim.violate("C14,C08", "slow-answer", "%s: no answer within %d ms", what, pxBoundMS)
		return
	}
	if len(targets) == 0 {
		if rd.Status != 404 || rd.Err != "" {
			sim.violate(srv(rd.Status, "C09,C08"), "unknown-cluster", "%s: the cluster is not configured, want 404: %s", what, short(string(rd.Body), 200))
		}
		sim.probe("px-unknown-cluster")
		return
	}
	// fidelity of what was sent
	for _, lg := range logs {
		h.checkForwarded(what, rq, lg)
	}
	// repeats
	applied := 0
	for i, lg := range logs {
		if lg.Applied {
			applied++
		}
		if i == 0 || rq.Method == "GET" || rq.Method == "HEAD" || rq.Method == "OPTIONS" {
			continue
		}
		prev := logs[i-1]
		if prev.Retry <= 0 || (prev.Status != 429 && prev.Status < 500) {
			sim.violate("C08", "repeated-write", "%s: sent again although the first attempt ended with status %d fault %q and nobody asked for a retry", what, prev.Status, prev.Fault)
		}
	}
	if applied > 1 && rq.Method != "GET" && rq.Method != "HEAD" && rq.Method != "OPTIONS" {
		sim.violate("C08", "applied-twice", "%s: took effect %d times", what, applied)
	}
	// the answer
	if len(logs) == 0 {
		if rd.Err == "" && rd.Status < 300 {
			sim.violate("C08,C09,C14", "invented-answer", "%s: answered without asking the API server: %s", what, short(string(rd.Body), 200))
			return
		}
		if missing && rd.Status == 404 {
			return
		}
		if exclusive && !h.troubled(only, rd.T0, rd.T1) && h.throttleMS(rd.T0) < 50000 {
			sim.violate("C08,C09,C12", "not-forwarded", "%s: the API server of %s is healthy and never saw it: %s", what, only, short(string(rd.Body), 300))
		}
		return
	}
	last := logs[len(logs)-1]
	if rd.Err != "" {
		if len(logs) > 0 && !h.troubled(last.Cluster, rd.T0, rd.T1) && last.Fault == "" {
			sim.violate("C08,C14", "no-answer", "%s: cluster %s answered %d", what, last.Cluster, last.Status)
		}
		return
	}
	clean := last.Fault == "" || last.Fault == "slow" || (last.Fault == "truncate" && (rq.Method == "HEAD" || last.Resp == ""))
	switch {
	case rd.Status < 300:
		if last.Status >= 300 || last.Status == 0 || (!clean) {
			sim.violate("C08,C14", "false-success", "%s: cluster %s answered %d fault %q", what, last.Cluster, last.Status, last.Fault)
			return
		}
		if rq.Method != "HEAD" && string(rd.Body) != last.Resp {
			sim.violate("C08", "answer-differs", "%s: cluster %s sent %d bytes %s, client got %d bytes %s", what, last.Cluster, len(last.Resp), short(last.Resp, 150), len(rd.Body), short(string(rd.Body), 150))
			return
		}
		if rd.Status != last.Status {
			sim.violate("C08", "status-differs", "%s: cluster %s answered %d, client got %d", what, last.Cluster, last.Status, rd.Status)
			return
		}
		sim.probe("px-relayed")
		sim.probe("px-" + rq.Method)
	case last.Status >= 300 && (clean || last.Fault == "status" || last.Fault == "html"):
		if rd.Status != last.Status && rd.Status >= 500 && (h.troubled(last.Cluster, rd.T0, rd.T1) || last.Fault == "slow" && rd.T1-rd.T0 >= 58000) {
			sim.probe("px-failed-under-fault") // the answer may have been lost, or too late
			return
		}
		if rd.Status != last.Status {
			sim.violate("C08", "status-differs", "%s: cluster %s answered %d: %s", what, last.Cluster, last.Status, short(string(rd.Body), 300))
			return
		}
		if rq.Method != "HEAD" && last.Resp != "" && string(rd.Body) != last.Resp {
			if h.troubled(last.Cluster, rd.T0, rd.T1) {
				sim.probe("px-failed-under-fault") // it broke behind its header
				return
			}
			sim.violate("C08", "error-differs", "%s: cluster %s answered %d with %s, client got %s", what, last.Cluster, last.Status, short(last.Resp, 250), short(string(rd.Body), 250))
			return
		}
		sim.probe("px-error-relayed")
	case clean && last.Status > 0 && last.Status < 300 && !h.troubled(last.Cluster, rd.T0, rd.T1) && rd.T1-rd.T0 < 58000:
		sim.violate("C08", "false-failure", "%s: cluster %s answered %d: %s", what, last.Cluster, last.Status, short(string(rd.Body), 300))
	default:
		sim.probe("px-failed-under-fault")
	}
}

// checkForwarded compares a request as sent by the client with what an API
// server received.
func (h *history) checkForwarded(what string, rq *HTTPRq, lg *ReqLog) {
	if strings.HasPrefix(lg.Fault, "body:") {
		return // the connection broke while it was being sent
	}
	if lg.Method != rq.Method {
		sim.violate("C08", "method", "%s: cluster %s received method %s", what, lg.Cluster, lg.Method)
		return
	}
	if decodePath(lg.Path) != decodePath(rq.Path) {
		sim.violate("C08", "path", "%s: cluster %s received path %s", what, lg.Cluster, lg.Path)
		return
	}
	want := normQuery(rq.Query, func(k, v string) bool {
		return k == "cluster" || k == "timeout" && lg.Watch || ((k == "resourceVersion" || k == "fieldManager") && strings.HasPrefix(v, "dsm-cluster-"))
	})
	got := normQuery(lg.Query, func(k, v string) bool { return k == "cluster" || k == "timeout" && lg.Watch })
	if strings.Join(want, "&") != strings.Join(got, "&") {
		sim.violate("C08", "query", "%s: cluster %s received query %v, want %v", what, lg.Cluster, got, want)
		return
	}
	if strings.Contains(lg.Query, "ckube.daocloud.io%2Fquery%3D") || strings.Contains(lg.Query, "ckube.daocloud.io%2Fquery+in") {
		sim.violate("C08", "query", "%s: cluster %s received ckube's own query as a requirement no object meets: %s", what, lg.Cluster, lg.Query)
	}
	if rq.Method == "DELETE" {
		a, ok1 := deleteBody(rq.Body)
		b, ok2 := deleteBody(lg.Body)
		if strings.Contains(lg.Body, "dsm-cluster-") {
			sim.violate("C08", "body", "%s: cluster %s received the cluster marker in the body: %s", what, lg.Cluster, short(lg.Body, 200))
			return
		}
		if ok1 && (!ok2 || jsonDiff("", a, b) != "") {
			sim.violate("C08", "body", "%s: delete options %s arrived at %s as %s", what, short(rq.Body, 200), lg.Cluster, short(lg.Body, 200))
		}
		return
	}
	if rq.Method == "GET" || rq.Method == "HEAD" || rq.Method == "OPTIONS" {
		return
	}
	if lg.Body != rq.Body {
		sim.violate("C08", "body", "%s: body %s arrived at %s as %s", what, short(rq.Body, 200), lg.Cluster, short(lg.Body, 200))
		return
	}
	if ct := rq.Header["Content-Type"]; ct != "" && lg.Header.Get("Content-Type") != ct {
		sim.violate("C08", "content-type", "%s: content type %q arrived at %s as %q", what, ct, lg.Cluster, lg.Header.Get("Content-Type"))
	}
}

var _ = http.MethodGet
