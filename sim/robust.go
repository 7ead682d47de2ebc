package main

import (
	"bufio"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/prometheus/client_golang/prometheus"
)

// ---------------------------------------------------------------- generation

var junkPaths = []string{
	"/", "//", "/api", "/api/", "/apis", "/apis/", "/api/v1", "/apis/apps", "/apis/apps/v1", "/healthy/", "/healthyx", "/metrics/", "/custom/v1", "/custom/v1/clusters/c1/namespaces/default/deployments//services",
	"/api/v1//pods", "/api/v1/pods/", "/api/v1/namespaces//pods", "/api/v1/namespaces/default/pods//", "/api/v1/../v1/pods", "/api/./v1/pods", "/api/v1/pods%2Fweb-1", "/api/v1/%70ods", "/api/v1/pods%00", "/api/v1/namespaces/%2e%2e/pods",
	"/api/v1/pods;x=y", "/api/v1/PODS", "/api/v2/pods", "/apis//v1/pods", "/apis/apps/v1/namespaces/default/deployments/web/scale/x/y/z", "/watch/", "/api/v1/watch/", "/%", "/%zz", "/\x01", "*", "/\xff\xfe", "/api/v1/namespaces/default/pods/ü",
	"/custom/v1/namespaces/ /deployments/x/services", "/debug/pprof/", "/.git/config", "/api/v1/namespaces/default/pods/web-1/exec",
}

var junkQueries = []string{
	"", "?", "&", "&&==", "%", "%zz", "a=%zz", "labelSelector", "labelSelector=", "labelSelector=%", "labelSelector=x%3E5", "labelSelector=a+in+(", "labelSelector=%3D", "labelSelector=!", "labelSelector=,", "labelSelector=a%3Db,a%3Dc", "labelSelector=a%3Da&labelSelector=b%3Db",
	"labelSelector=%00", "labelSelector=%ff%fe", "labelSelector=a%3D%3D%3Db", "labelSelector=<none>", "limit=-1", "limit=x", "limit=0", "timeoutSeconds=x", "timeout=-5s", "timeout=bogus", "watch", "watch=", "watch=maybe", "watch=0",
	"cluster", "cluster=", "cluster=%00", "cluster=c1&cluster=c2", "resourceVersion=", "resourceVersion=dsm-cluster-", "resourceVersion=dsm-cluster", "fieldManager=dsm-cluster-%2F", "fieldSelector=%3D%3D", "x;y", "a;b=c", "=", "==", "pretty=1&pretty=2", "continue=%7B%7D",
	"cluster=" + unknownCluster, "resourceVersion=dsm-cluster-" + unknownCluster,
}

// junkPaginate are contents of ckube's own requirement.
var junkPaginate = []string{
	"", "{", "[]", "null", "5", "\"x\"", "{}", "{\"page\":\"x\"}", "{\"page\":1e400}", "{\"page\":-1,\"page_size\":-1}", "{\"page\":9223372036854775807,\"page_size\":9223372036854775807}", "{\"page\":1,\"page_size\":9223372036854775808}",
	"{\"page\":1,\"page_size\":1.5}", "{\"search\":5}", "{\"search\":\"=\"}", "{\"search\":\";\"}", "{\"search\":\";;;\"}", "{\"search\":\"!\"}", "{\"search\":\"__ckube_as__:\"}", "{\"search\":\"__ckube_as__:x>5\"}", "{\"search\":\"name=\"}", "{\"search\":\"=x\"}", "{\"search\":\"nokey=x\"}",
	"{\"search\":\"__ckube_as__:cluster in ()\"}", "{\"search\":\"__ckube_as__:cluster\"}", "{\"search\":\"__ckube_as__:!cluster\"}", "{\"search\":\"__ckube_as__:cluster in (nowhere)\"}", "{\"search\":\"__ckube_as__:cluster notin (c1)\"}",
	"{\"sort\":\",\"}", "{\"sort\":\"!\"}", "{\"sort\":\"name!\"}", "{\"sort\":\"!int\"}", "{\"sort\":\"name!int!str\"}", "{\"sort\":\" \"}", "{\"sort\":\"desc\"}", "{\"sort\":\"name desc desc\"}", "{\"sort\":\"name,,name\"}", "{\"sort\":\"\\u0000\"}", "{\"total\":-5}", "\xff\xfe{",
}

func junkSelector(r *Rng) string {
	v := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString([]byte(junkPaginate[r.N(len(junkPaginate))]))
	switch r.N(9) {
	case 0:
		return paginateKey + "=" + v
	case 1:
		return paginateKey + " in (" + v + ")"
	case 2:
		return paginateKey + " notin (" + v + ",x)"
	case 3:
		return paginateKey + " notin (0." + v + ",2." + v + ")"
	case 4:
		return paginateKey + r.Pick("", "!=", "=", " notin ()", " notin (!)", " notin (a.b.c)", " notin (1.,2.)", " notin (-1.x,0.y)", " exists", " notin (99999999999999999999.x)")
	case 5:
		return paginateKey + " notin (" + v + ")," + paginateKey + "=" + v
	default:
		return r.Pick("", "app=a,", "app in (a,b),!x,") + paginateKey + " notin (" + v + ")"
	}
}

// genHTTP draws a request no well-behaved client would send, or a
// misbehaving client.
func (g *genCtx) genHTTP(r *Rng) Step {
	s := Step{K: "http", C: -1, At: g.at(r), D: 0}
	h := &HTTPRq{Method: "GET", Header: map[string]string{}}
	s.H = h
	rt := &resTypes[g.anyRes(r)]
	if r.P(20) {
		rt = &resTypes[r.N(len(resTypes))]
	}
	ns := ""
	if rt.Namespaced && r.P(50) {
		ns = g.anyNS(r)
	}
	switch r.N(10) {
	case 0, 1, 2:
		h.Path = junkPaths[r.N(len(junkPaths))]
	case 3:
		h.Path = rt.path(ns, g.anyName(r))
	case 4:
		h.Path = rt.path(ns, strings.Repeat(r.Pick("x", "%2F", "../", "/"), r.PickInt(1, 50, 700, 3000)))
	case 5:
		h.Path = fmt.Sprintf("/custom/v1/%snamespaces/%s/deployments/%s/services", r.Pick("", "clusters/c1/", "clusters/nowhere/", "clusters/%20/", "clusters/a,b/"), r.Pick("default", "none", "%00", "a%2Fb"), r.Pick("web", "!", "x;y", "a=b", "\"", "%22web%22", "-", "web%3Bname"))
	default:
		h.Path = rt.path(ns, "")
	}
	switch r.N(4) {
	case 0:
	case 1:
		h.Query = junkQueries[r.N(len(junkQueries))]
	case 2:
		h.Query = junkQueries[r.N(len(junkQueries))] + "&" + junkQueries[r.N(len(junkQueries))]
	default:
		h.Query = "labelSelector=" + url.QueryEscape(junkSelector(r))
	}
	if r.P(40) {
		h.Method = r.Pick("HEAD", "OPTIONS", "POST", "PUT", "PATCH", "DELETE", "TRACE", "CONNECT", "FOO", "get", "PROPFIND", "M-SEARCH")
	}
	if r.P(50) && h.Method != "GET" || r.P(5) {
		h.Body = r.Pick("", "{", "null", "[]", "{\"dryRun\":5}", "{\"dryRun\":[]}", "{\"dryRun\":[\"dsm-cluster-\"]}", "{\"dryRun\":[\"dsm-cluster-nowhere\"]}", "\x00\xff", "{\"dryRun\":[5]}", strings.Repeat("[", 5000), strings.Repeat("z", 200000))
	}
	for n := r.N(3); n > 0; n-- {
		switch r.N(9) {
		case 0:
			h.Header["Accept"] = r.Pick("application/json;as=Table;v=v1;g=meta.k8s.io,application/json", "application/json;as=Table", "text/html", "", "application/vnd.kubernetes.protobuf", "*/*;q=x")
		case 1:
			h.Header["Content-Type"] = r.Pick("", "text/plain", "application/json-patch+json", "x", "application/vnd.kubernetes.protobuf")
		case 2:
			h.Header["X-Long"] = strings.Repeat("h", r.PickInt(10, 8000, 1100000))
		case 3:
			h.Header["Transfer-Encoding"] = r.Pick("chunked", "identity", "gzip", "bogus")
		case 4:
			h.Header["Content-Length"] = r.Pick("-1", "x", "5", "0", "99999999999999999999")
		case 5:
			h.Header["Expect"] = r.Pick("100-continue", "200-ok")
		case 6:
			h.Header["Connection"] = r.Pick("Upgrade", "close", "keep-alive", "x")
			h.Header["Upgrade"] = r.Pick("websocket", "SPDY/3.1", "h2c")
		case 7:
			h.Header["Accept-Encoding"] = r.Pick("gzip", "deflate, br")
		default:
			h.Header["X-Forwarded-For"] = "::1"
			h.Header["Origin"] = "http://evil"
		}
	}
	s.S = r.Pick("", "", "", "", "", "slow", "abandon", "noread", "reset", "garbage")
	s.V = r.U64() % 1000
	s.M = int64(r.PickInt(0, 10, 1000, 7000, 15000))
	return s
}

// genRobust adds hostile requests, health probes and some ordinary load.
func genRobust(lo, hi int) func(p *Plan, r *Rng, g *genCtx) {
	return func(p *Plan, r *Rng, g *genCtx) {
		hot := g.at(r)
		for n := r.Between(lo, hi); n > 0; n-- {
			s := g.genHTTP(r)
			if r.P(20) {
				s.At = hot
			}
			p.Steps = append(p.Steps, s)
		}
		genProbes(p, r, g)
	}
}

// genProbes asks for the health and metrics all the time.
func genProbes(p *Plan, r *Rng, g *genCtx) {
	for n := r.Between(5, 25); n > 0; n-- {
		s := Step{K: "http", C: -1, At: g.at(r), H: &HTTPRq{Method: "GET", Path: r.Pick("/healthy", "/healthy", "/metrics")}, Auth: r.Pick("", "none", "wrong")}
		if r.P(30) {
			s.Who = "prober"
		}
		if r.P(30) {
			s.H.Header = map[string]string{"Accept": r.Pick("text/plain", "application/json", "*/*")}
		}
		p.Steps = append(p.Steps, s)
	}
}

// genDeployments makes pods and services that belong together.
func genDeployments(p *Plan, r *Rng, g *genCtx) {
	if r.P(6) { // a deployment of many pods
		s := Step{K: "put", C: r.N(g.nCl), R: 0, NS: g.anyNS(r)}
		dep := r.Pick("web", "api", "web-canary")
		for n := r.PickInt(30, 60, 120, 250); n > 0; n-- {
			s.Name, s.V = fmt.Sprintf("%s-%d", dep, n), r.U64()%100000
			p.Init = append(p.Init, s)
		}
		s.R = 1
		for n := r.Between(2, 8); n > 0; n-- {
			s.Name, s.V = fmt.Sprintf("%s-%d", dep, n), r.U64()%100000
			p.Init = append(p.Init, s)
		}
	}
	for n := r.Between(4, 25); n > 0; n-- {
		s := Step{K: "put", C: r.N(g.nCl), R: r.N(2), NS: g.anyNS(r), Name: r.Pick("web-1", "web-2", "web-canary-1", "api-1", "x", "y.z", "web-x-y-1", "web-x-y-z-1", "web-x-1"), V: r.U64() % 100000}
		if r.P(70) {
			p.Init = append(p.Init, s)
			continue
		}
		s.At = g.at(r)
		if r.P(30) {
			s.K = "del"
		}
		p.Steps = append(p.Steps, s)
	}
}

func genServices(lo, hi int) func(p *Plan, r *Rng, g *genCtx) {
	return func(p *Plan, r *Rng, g *genCtx) {
		for n := r.Between(lo, hi); n > 0; n-- {
			s := Step{K: "svc", At: g.at(r), C: r.N(g.nCl+1) - 1, NS: g.anyNS(r), Name: r.Pick("web", "web", "web-canary", "api", "we", "web-", "x", "canary", "!web", "y.z", "web-x", "web-x-y", "web-x-y-z", "x-y")}
			s.Who = fmt.Sprintf("svc%d", r.N(3))
			if r.P(12) {
				s.C = g.nCl // not a cluster
			}
			if len(p.Init) > 0 && r.P(70) {
				// where something is
				x := &p.Init[r.N(len(p.Init))]
				if len(p.Steps) > 0 && r.P(60) {
					x = &p.Steps[r.N(len(p.Steps))]
				}
				if x.K == "put" && x.R == 0 {
					s.C, s.NS = x.C, x.NS
					s.Name = r.Pick("web", "web-canary", "api", "x", "web-x", "web-x-y", "web-x-y-z")
				}
			}
			if s.C >= 0 && strings.Contains(p.clusterName(s.C), "/") {
				s.C = -1 // no path names it
			}
			p.Steps = append(p.Steps, s)
		}
	}
}

// ---------------------------------------------------------------- clients

// doRaw writes a request byte by byte, without the help of a HTTP library, and
// may misbehave while doing so.
func (w *World) doRaw(s *Step) {
	h := s.H
	uri := h.Path
	if h.Query != "" {
		uri += "?" + h.Query
	}
	hd := map[string]string{}
	for k, v := range h.Header {
		hd[k] = v
	}
	if a := w.authOf(s); a != "" && hd["Authorization"] == "" {
		hd["Authorization"] = a
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: ckube\r\n", h.Method, uri)
	for _, k := range sortedKeys(hd) {
		fmt.Fprintf(&b, "%s: %s\r\n", k, hd[k])
	}
	if _, ok := hd["Connection"]; !ok {
		b.WriteString("Connection: close\r\n")
	}
	_, te := hd["Transfer-Encoding"]
	if _, ok := hd["Content-Length"]; !ok && !te && h.Body != "" {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(h.Body))
	}
	b.WriteString("\r\n")
	b.WriteString(h.Body)
	data := []byte(b.String())
	if s.S == "garbage" {
		r := newRng(s.V)
		for n := r.Between(1, 20); n > 0; n-- {
			data[r.N(len(data))] = byte(r.N(256))
		}
	}
	rd := &Read{Who: s.Who, Step: s, Kind: "http", Method: h.Method, URL: uri, C: -1, T0: nowMS(), Sent: nowMS(), T1: -1}
	rd.Seq0 = sim.logf("client raw #%d %s %s %s", s.ID, s.S, h.Method, short(uri, 200))
	w.lock()
	w.reads = append(w.reads, rd)
	w.unlock()
	done := func(err error) {
		rd.T1 = nowMS()
		if err != nil {
			rd.Err = err.Error()
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				rd.Err = "timeout"
			}
		}
		rd.Seq1 = sim.logf("client raw #%d -> %d %s %x", s.ID, rd.Status, rd.Err, hash64(string(rd.Body)))
	}
	conn, err := simnet.dial(context.Background(), fmt.Sprintf("raw%d", s.ID), "ckube:80", 30*time.Second, time.Time{})
	if err != nil {
		done(err)
		return
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(100 * time.Second))
	switch s.S {
	case "slow": // in pieces, with pauses
		sim.fault("client-slow-request")
		n := int(s.V%4) + 2
		for i := 0; i < n; i++ {
			if _, err := conn.Write(data[i*len(data)/n : (i+1)*len(data)/n]); err != nil {
				break
			}
			sleepMS(s.M)
		}
		rd.Sent = nowMS()
	case "abandon": // hang up in the middle of the request
		sim.fault("client-abandon")
		_, _ = conn.Write(data[:int(s.V)%(len(data)+1)])
		sleepMS(s.M)
		done(errors.New("abandoned"))
		return
	case "reset":
		sim.fault("client-reset")
		_, _ = conn.Write(data)
		sleepMS(s.M % 1000)
		conn.(*simConn).p.reset(errReset)
		done(errors.New("abandoned"))
		return
	case "noread":
		sim.fault("client-noread")
		_, _ = conn.Write(data)
		sleepMS(s.M)
		done(errors.New("abandoned"))
		return
	default:
		_, _ = conn.Write(data)
	}
	resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: h.Method})
	for err == nil && resp.StatusCode == 100 {
		resp, err = http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: h.Method})
	}
	if err != nil {
		done(err)
		return
	}
	rd.Status = resp.StatusCode
	rd.Header = resp.Header
	rd.Body, err = io.ReadAll(resp.Body)
	done(err)
}

// ---------------------------------------------------------------- oracle

// wellFormed reports whether a raw request can be answered at all: whether
// some server would take it for a complete request.
func (s *Step) wellFormed() bool {
	if s.S == "disguised" {
		return true
	}
	if s.S != "" && s.S != "slow" {
		return false
	}
	h := s.H
	for _, k := range []string{"Transfer-Encoding", "Content-Length", "Expect", "Upgrade", "Connection"} {
		if _, ok := h.Header[k]; ok {
			return false
		}
	}
	return h.Method != "CONNECT"
}

func (s *Step) maybeWatch() bool {
	return strings.Contains(s.H.Query, "watch=") || strings.Contains(s.H.Path, "/watch/")
}

// checkHTTP judges the answer to a raw request.
func (h *history) checkHTTP(rd *Read) {
	s := rd.Step
	rq := s.H
	what := fmt.Sprintf("raw #%d %s %q %s t=[%d,%d] -> %d %s", s.ID, rq.Method, short(rd.URL, 300), s.S, rd.T0, rd.T1, rd.Status, rd.Err)
	if rd.Err == "abandoned" {
		sim.probe("http-abandoned")
		return
	}
	if rq.Path == "/healthy" && rq.Method == "GET" && rq.Query == "" && s.wellFormed() {
		lim := 1000 + h.netMS() + h.w.p.Sched.stallBudget()
		if rd.Status != 200 || string(rd.Body) != "1" || rd.T1-rd.Sent > lim {
			sim.violate("C14", "unhealthy", "%s: want 200 within %d ms: %s", what, lim, short(string(rd.Body), 200))
		}
		sim.probe("health-checked")
		return
	}
	if rq.Path == "/metrics" && rq.Method == "GET" && s.wellFormed() && rq.Query == "" {
		if rd.Status != 200 || !strings.Contains(string(rd.Body), "up{") {
			sim.violate("C14,C15", "no-metrics", "%s: %s", what, short(string(rd.Body), 200))
		}
		sim.probe("metrics-checked")
		h.explained(rd, func(c *Conf) { h.checkMetrics(rd, c) })
		return
	}
	if !s.wellFormed() {
		sim.probe("http-malformed")
		return
	}
	if s.maybeWatch() {
		return
	}
	if _, err := url.ParseRequestURI(rd.URL); (s.S == "slow" && (rq.Body != "" || rq.Method != "GET" || len(rd.URL) > 100000) || err != nil || strings.Contains(rd.URL, " ")) && strings.Contains(rd.Err, "reset") {
		sim.probe("http-refused-early")
		return // answered and closed before it was sent in full
	}
	if rd.Err != "" {
		ups := h.upstreamOf(rd)
		for _, lg := range ups {
			if lg.Fault != "" {
				return
			}
		}
		for _, c := range h.w.p.Clusters {
			if h.troubled(c, rd.T0, rd.T1) {
				return
			}
		}
		sim.violate("C14", "no-answer", "%s: the client got no answer", what)
		return
	}
	if s.S == "slow" && rd.Sent-rd.T0 > 30000 {
		sim.probe("http-too-slow")
		return // took longer than what a request forwarded may take
	}
	if rd.Status >= 500 && rd.Status != 501 && rd.Status != 505 {
		for _, lg := range h.upstreamOf(rd) {
			if lg.Status >= 500 || lg.Fault != "" {
				return
			}
		}
		for _, c := range h.w.p.Clusters {
			if h.troubled(c, rd.T0, rd.T1) {
				return
			}
		}
		sim.violate("C14", "server-error", "%s: %s", what, short(string(rd.Body), 300))
		return
	}
	sim.probe("http-answered")
	if ct := rd.Header.Get("Content-Type"); strings.HasPrefix(ct, "application/json") && rq.Method != "HEAD" && rd.Status == 400 && len(rd.Body) > 0 {
		var x interface{}
		if json.Unmarshal(rd.Body, &x) != nil {
			sim.violate("C14", "bad-error", "%s: the error is not a JSON document: %s", what, short(string(rd.Body), 200))
		}
	}
}

// ---------------------------------------------------------------- services

// podDeployment names the deployment a pod belongs to.
func podDeployment(m map[string]interface{}) string {
	l, ok := jget(m, "metadata", "ownerReferences")
	if !ok {
		return ""
	}
	os, _ := l.([]interface{})
	for _, x := range os {
		o, _ := x.(map[string]interface{})
		n := jstr(o, "name")
		if i := strings.LastIndex(n, "-"); jstr(o, "kind") == "ReplicaSet" && i >= 0 {
			return n[:i]
		}
	}
	return ""
}

func strMap(m map[string]interface{}, path ...string) map[string]string {
	v, ok := jget(m, path...)
	if !ok {
		return nil
	}
	mm, _ := v.(map[string]interface{})
	out := map[string]string{}
	for k, x := range mm {
		out[k], _ = x.(string)
	}
	return out
}

func selects(sel, labels map[string]string) bool {
	if len(sel) == 0 {
		return false
	}
	for k, v := range sel {
		if x, ok := labels[k]; !ok || x != v {
			return false
		}
	}
	return true
}

// checkSvc judges a deployment's services.
func (h *history) checkSvc(rd *Read, conf *Conf) {
	s := rd.Step
	ci := s.C
	if ci < 0 {
		ci = conf.Default
	}
	c := h.w.p.clusterName(ci)
	pods, svcs := &resTypes[0], &resTypes[1]
	if !conf.hasRes(0) || !conf.hasRes(1) {
		if rd.Status < 400 || rd.Status >= 500 {
			sim.violate("C16,C14", "svc-uncached", "%s t=[%d,%d]: status %d %s although pods or services are not cached: %s", rd.URL, rd.T0, rd.T1, rd.Status, rd.Err, short(string(rd.Body), 200))
		}
		sim.probe("svc-uncached")
		return
	}
	if !conf.hasCluster(ci) && rd.Status == 404 {
		return
	}
	if rd.Status != 200 {
		sim.violate("C16,C14", "svc-status", "%s t=[%d,%d]: status %d %s: %s", rd.URL, rd.T0, rd.T1, rd.Status, rd.Err, short(string(rd.Body), 200))
		return
	}
	var docs []interface{}
	d := json.NewDecoder(strings.NewReader(string(rd.Body)))
	d.UseNumber()
	if err := d.Decode(&docs); err != nil || docs == nil {
		sim.violate("C16", "svc-json", "%s: answer is not a list: %s", rd.URL, short(string(rd.Body), 200))
		return
	}
	if !conf.hasCluster(ci) {
		if len(docs) > 0 {
			sim.violate(srv(rd.Status, "C16,C09"), "svc-unknown-cluster", "%s: services of a cluster that is not configured: %s", rd.URL, short(string(rd.Body), 300))
		}
		return
	}
	vp, vs := h.viewOf(c, pods.GVR, rd.T0, rd.T1), h.viewOf(c, svcs.GVR, rd.T0, rd.T1)
	// which label sets pods of the deployment have for certain, or may have
	var must, may []map[string]string
	for _, o := range h.keys[cg(c, pods.GVR)] {
		if o.Key.NS != s.NS {
			continue
		}
		var al []*Version
		if vp.constrained {
			al = vp.allowed(o.Key)
		} else {
			al = append(al, nil)
			for _, v := range o.Versions {
				if v.JSON != "" && v.AtMS <= rd.T1 {
					al = append(al, v)
				}
			}
		}
		for _, v := range al {
			if v != nil && podDeployment(expected(pods, v)) == s.Name {
				ls := strMap(expected(pods, v), "metadata", "labels")
				may = append(may, ls)
				if len(al) == 1 {
					must = append(must, ls)
				}
			}
		}
	}
	any := func(sel map[string]string, of []map[string]string) bool {
		for _, ls := range of {
			if selects(sel, ls) {
				return true
			}
		}
		return false
	}
	got := map[string]*Version{}
	for _, x := range docs {
		m, _ := x.(map[string]interface{})
		it, ok := h.parseItem(rd, svcs, m, true)
		if !ok {
			return
		}
		id := it.ns + "/" + it.name
		if got[id] != nil {
			sim.violate("C16", "svc-twice", "%s: service %s twice", rd.URL, id)
		}
		got[id] = it.ver
		if it.cluster != c || it.ns != s.NS {
			sim.violate("C16,C09", "svc-elsewhere", "%s: service %s of cluster %s", rd.URL, id, it.cluster)
			return
		}
		if sel := strMap(expected(svcs, it.ver), "spec", "selector"); !any(sel, may) {
			sim.violate("C16", "svc-wrong", "%s t=[%d,%d]: service %s selects %v, but no pod of deployment %s has these labels (%d pods)", rd.URL, rd.T0, rd.T1, id, sel, s.Name, len(may))
			return
		}
	}
	sim.probe("svc-checked")
	if len(docs) > 0 {
		sim.probe("svc-found")
	}
	if !vp.constrained || !vs.constrained {
		return
	}
	for _, o := range h.keys[cg(c, svcs.GVR)] {
		if o.Key.NS != s.NS {
			continue
		}
		al := vs.allowed(o.Key)
		g := got[o.Key.NS+"/"+o.Key.Name]
		if g != nil {
			if !hasVer(al, g) {
				sim.violate("C16,"+h.freshProps(c, vs), "stale", "%s t=[%d,%d]: service %s/%s at %s, must be one of %s", rd.URL, rd.T0, rd.T1, o.Key.NS, o.Key.Name, verName(g), verNames(al))
			}
			continue
		}
		all := true
		for _, v := range al {
			if v == nil || !any(strMap(expected(svcs, v), "spec", "selector"), must) {
				all = false
			}
		}
		if all {
			sim.violate("C16", "svc-missing", "%s t=[%d,%d]: service %s/%s (%s) selects pods of deployment %s in %s and is missing", rd.URL, rd.T0, rd.T1, o.Key.NS, o.Key.Name, verNames(al), s.Name, c)
		}
	}
}

// ---------------------------------------------------------------- metrics

// parseMetrics reads the text exposition format: name -> sorted labels -> value.
func parseMetrics(body string) map[string]map[string]float64 {
	out := map[string]map[string]float64{}
	for _, l := range strings.Split(body, "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		i := strings.LastIndex(l, " ")
		if i < 0 {
			return nil
		}
		v, err := strconv.ParseFloat(l[i+1:], 64)
		if err != nil {
			return nil
		}
		name, ls := l[:i], ""
		if j := strings.Index(name, "{"); j >= 0 {
			ls = strings.TrimSuffix(name[j+1:], "}")
			name = name[:j]
		}
		if out[name] == nil {
			out[name] = map[string]float64{}
		}
		out[name][ls] = v
	}
	return out
}

func resLabels(c string, rt *ResType, ns string) string {
	return fmt.Sprintf("cluster=%q,group=%q,namespace=%q,resource=%q,version=%q", c, rt.Group, ns, rt.Resource, rt.Version)
}

// checkMetrics compares the counts ckube reports with what it may hold.
func (h *history) checkMetrics(rd *Read, conf *Conf) {
	ms := parseMetrics(string(rd.Body))
	if ms == nil {
		sim.violate("C15", "metrics-format", "%s: not in the text format: %s", rd.URL, short(string(rd.Body), 300))
		return
	}
	if ms["up"][`component="ckube"`] != 1 {
		sim.violate("C15", "not-up", "%s t=%d: up is %v", rd.URL, rd.T1, ms["up"])
	}
	claimed := map[string]bool{}
	for _, r := range conf.Res {
		rt := &resTypes[r]
		for _, ci := range conf.Clusters {
			c := h.w.p.Clusters[ci]
			rotating := rd.Final && h.rotating(c, rt.GVR, rd.T0, rd.T1)
			nss := map[string]bool{}
			for _, o := range h.keys[cg(c, rt.GVR)] {
				nss[o.Key.NS] = true
			}
			for _, ns := range sortedKeys(nss) {
				l := resLabels(c, rt, ns)
				claimed[l] = true
				if rotating {
					continue
				}
				var lo, hi int64
				if rd.Final {
					for _, k := range sortedKeys(h.w.byName[c].current(rt.GVR)) {
						if strings.HasPrefix(k, ns+"/") {
							lo++
						}
					}
					hi = lo
				} else {
					v := h.viewOf(c, rt.GVR, rd.T0, rd.T1)
					if !v.constrained {
						continue
					}
					for _, o := range h.keys[cg(c, rt.GVR)] {
						if o.Key.NS != ns {
							continue
						}
						all, any := true, false
						for _, x := range v.allowed(o.Key) {
							if x != nil {
								any = true
							} else {
								all = false
							}
						}
						if all {
							lo++
						}
						if any {
							hi++
						}
					}
				}
				got := int64(ms["ckube_resources_total"][l])
				if got < lo || got > hi {
					sim.violate("C15", "count", "t=[%d,%d] final=%v: ckube_resources_total{%s} is %d, the cache holds between %d and %d", rd.T0, rd.T1, rd.Final, l, got, lo, hi)
					return
				}
				sim.probe("count-checked")
			}
		}
	}
	for _, l := range sortedKeys(ms["ckube_resources_total"]) {
		if v := ms["ckube_resources_total"][l]; v != 0 && !claimed[l] {
			sim.violate("C15", "count-unknown", "t=[%d,%d] final=%v: ckube_resources_total{%s} is %v, which nothing in the configuration accounts for", rd.T0, rd.T1, rd.Final, l, v)
			return
		}
	}
	// reloads
	ok := ms["ckube_reload_config_total"][`status="success"`]
	bad := ms["ckube_reload_config_total"][`status="failed"`]
	must, mustFail := 0.0, 0.0
	started := false
	for i, e := range h.w.confs {
		if i == 0 || e.StartMS > rd.T1 {
			continue
		}
		started = true
		held := i+1 == len(h.w.confs) || e.DoneMS+h.w.convMS() <= h.w.confs[i+1].StartMS
		if h.w.settled(e) && held && e.DoneMS+h.w.convMS() <= rd.T0 && e.Wrote && e.StartMS > h.w.upMS {
			must++
		}
		// a file that is gone is waited for rather than read
		if c, p := &h.w.p.Confs[e.Gen], h.w.confs[i-1]; !c.usable() && c.Bad != "gone" && c.KBad != "gone" && h.w.p.Confs[p.Gen].Bad != "gone" && h.w.p.Confs[p.Gen].KBad != "gone" && !p.Faulty && !e.Faulty && held && e.DoneMS >= 0 && e.DoneMS+h.w.convMS() <= rd.T0 && e.Wrote && e.StartMS > h.w.upMS {
			mustFail++
		}
	}
	if bad < mustFail {
		sim.violate("C15,C11", "reload-count", "t=[%d,%d]: %v failed reloads reported, at least %v changes could not take effect", rd.T0, rd.T1, bad, mustFail)
	}
	if mustFail > 0 {
		sim.probe("failed-reloads-checked")
	}
	if ok < must {
		sim.violate("C15,C11", "reload-count", "t=[%d,%d]: %v successful reloads reported, at least %v changes took effect", rd.T0, rd.T1, ok, must)
	}
	if !started && ok+bad > 0 {
		sim.violate("C15,C11", "reload-count", "t=[%d,%d]: %v successful and %v failed reloads reported, but nothing changed", rd.T0, rd.T1, ok, bad)
	}
	sim.probe("counters-checked")
}

// ---------------------------------------------------------------- tables

// parseTable identifies the rows of a table with versions.
func (h *history) parseTable(rd *Read, rt *ResType, conf *Conf, clusters []string) (a answer) {
	doc, err := decodeDoc(rd.Body)
	if err != nil || jstr(doc, "kind") != "Table" {
		sim.violate("C02", "bad-table", "%s: answer is not a table: %v: %s", rd.URL, err, short(string(rd.Body), 200))
		return a
	}
	var cols []string
	cd, _ := doc["columnDefinitions"].([]interface{})
	for _, c := range cd {
		m, _ := c.(map[string]interface{})
		cols = append(cols, jstr(m, "name"))
	}
	rows, _ := doc["rows"].([]interface{})
	seen := map[string]bool{}
	for _, x := range rows {
		m, _ := x.(map[string]interface{})
		cells, _ := m["cells"].([]interface{})
		if len(cells) != len(cols) {
			sim.violate("C02", "bad-table", "%s: row of %d cells under %d columns", rd.URL, len(cells), len(cols))
			return a
		}
		row := map[string]string{}
		for i, c := range cells {
			if _, dup := row[cols[i]]; dup {
				sim.violate("C02", "bad-table", "%s: column %q twice", rd.URL, cols[i])
				return a
			}
			row[cols[i]], _ = c.(string)
		}
		it := item{cluster: row["cluster"], ns: row["namespace"], name: row["name"], doc: m}
		id := it.cluster + "|" + it.ns + "/" + it.name
		it.hist = h.byName[cg(it.cluster, rt.GVR)+"|"+it.ns+"/"+it.name]
		if it.hist == nil || seen[id] || !contains(clusters, it.cluster) {
			sim.violate("C02,C07", "table-row", "%s: row %v is no object of %v or there twice", rd.URL, row, clusters)
			return a
		}
		seen[id] = true
		v := h.viewOf(it.cluster, rt.GVR, rd.T0, rd.T1)
		var al []*Version
		if v.constrained {
			al = v.allowed(it.hist.Key)
		}
		for _, ver := range it.hist.Versions {
			if ver.JSON == "" || ver.AtMS > rd.T1 {
				continue
			}
			ix := refIndex(it.cluster, rt, conf.Idx, ver)
			same := len(ix) == len(row)
			for k, x := range ix {
				if row[k] != x {
					same = false
				}
			}
			if same && (it.ver == nil || hasVer(al, ver)) {
				it.ver = ver
			}
		}
		if it.ver == nil {
			sim.violate("C02", "table-row", "%s: row %v shows no state of object %s", rd.URL, row, id)
			return a
		}
		it.rv = it.ver.RV
		a.items = append(a.items, it)
	}
	sim.probe("table-checked")
	a.ok = true
	return a
}

// slowCollector stands for the collectors of the process and the Go runtime: it
// contributes nothing but the time they take.
type slowCollector struct {
	mu sync.Mutex
	n  int
	ms []int64
}

func (c *slowCollector) Describe(chan<- *prometheus.Desc) {}

func (c *slowCollector) Collect(chan<- prometheus.Metric) {
	c.mu.Lock()
	d := c.ms[c.n%len(c.ms)]
	c.n++
	c.mu.Unlock()
	if d > 0 && runtime.SimInBubble() {
		sim.fault("slow-scrape")
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
}
