package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// GVR names a resource type.
type GVR struct{ Group, Version, Resource string }

func (g GVR) String() string { return g.Group + "/" + g.Version + "/" + g.Resource }

// ResType describes a resource type the simulated API servers know.
type ResType struct {
	GVR
	Kind       string
	Namespaced bool
	Typed      bool // built into client-go (otherwise a custom resource)
}

var resTypes = []ResType{
	{GVR{"", "v1", "pods"}, "Pod", true, true},                                                    // 0
	{GVR{"", "v1", "services"}, "Service", true, true},                                            // 1
	{GVR{"", "v1", "namespaces"}, "Namespace", false, true},                                       // 2
	{GVR{"apps", "v1", "deployments"}, "Deployment", true, true},                                  // 3
	{GVR{"networking.istio.io", "v1alpha3", "virtualservices"}, "VirtualService", true, false},    // 4
	{GVR{"gateway.networking.k8s.io", "v1beta1", "gatewayclasses"}, "GatewayClass", false, false}, // 5
	{GVR{"sim.ckube.io", "v1", "artifacts"}, "Artifact", true, false},                             // 6
	{GVR{"", "v1", "configmaps"}, "ConfigMap", true, true},                                        // 7
	{GVR{"sim.ckube.io", "v1", "widgets"}, "Widget", true, false},                                 // 8
	{GVR{"serving.knative.dev", "v1", "services"}, "Service", true, false},                        // 9, the plural and kind of 1
	{GVR{"sim.ckube.io", "v2", "widgets"}, "Widget", true, false},                                 // 10, another version of 8
	{GVR{"metrics.k8s.io", "v1beta1", "pods"}, "PodMetrics", true, false},                         // 11, the plural of 0 and another kind
}

func resByGVR(g GVR) *ResType {
	for i := range resTypes {
		if resTypes[i].GVR == g {
			return &resTypes[i]
		}
	}
	return nil
}

func (r *ResType) apiVersion() string {
	if r.Group == "" {
		return r.Version
	}
	return r.Group + "/" + r.Version
}

func (r *ResType) basePath() string {
	if r.Group == "" {
		return "/api/" + r.Version
	}
	return "/apis/" + r.Group + "/" + r.Version
}

// path of the collection or of one object.
func (r *ResType) path(ns, name string) string {
	p := r.basePath()
	if r.Namespaced && ns != "" {
		p += "/namespaces/" + ns
	}
	p += "/" + r.Resource
	if name != "" {
		p += "/" + name
	}
	return p
}

// Version is one committed state of one object.
type Version struct {
	RV      int64
	JSON    string // as served, "" when this is a deletion
	Last    string // for deletions: the final state carried by the event
	UID     string
	AtMS    int64 // committed
	Seq     int64
	EndMS   int64 // superseded (-1: current)
	Deliver map[int]int64
}

// ObjKey identifies an object within a cluster.
type ObjKey struct {
	G        GVR
	NS, Name string
}

// ObjHist is everything that ever happened to an object.
type ObjHist struct {
	Key      ObjKey
	Versions []*Version
}

func (h *ObjHist) cur() *Version {
	if len(h.Versions) == 0 {
		return nil
	}
	v := h.Versions[len(h.Versions)-1]
	if v.JSON == "" {
		return nil
	}
	return v
}

// Watch is one watch stream a simulated API server served.
type Watch struct {
	ID       int
	Cluster  string
	G        GVR
	NS       string
	FromSUT  bool
	Cache    bool // opened by ckube for its cache (not on behalf of a client)
	URI      string
	OpenMS   int64
	CloseMS  int64 // -1 while open
	conn     *simConn
	queue    []watchItem
	cond     *sync.Cond
	stop     bool
	Sent     []*WatchEvent // lines written to the connection
	nQueued  int
	nInit    int
	hdrMS    int64
	Why      string
	Req      string    // correlation id of the client watch behind it
	Reset    bool      // its connection was reset
	Raw      []byte    // everything written to the stream
	Marks    []rawMark // when it became readable at the other end
	bookmark bool      // an event without an object was sent
	ByPeer   bool      // its client closed the connection first
}

type rawMark struct {
	Off   int
	AtMS  int64 // -1: not yet
	Write int64
}

type watchItem struct {
	typ  string
	key  ObjKey
	ver  *Version
	line string
	init bool
}

// WatchEvent is an event that has been written to a watch connection.
type WatchEvent struct {
	Typ       string
	Key       ObjKey
	Ver       *Version
	Line      string
	SentMS    int64
	DeliverMS int64 // when the last byte became readable at the other end (-1: not yet)
	Seq       int64
}

// ReqLog is one request an API server received.
type ReqLog struct {
	Seq     int64
	AtMS    int64
	Cluster string
	Method  string
	Path    string
	Query   string
	Body    string
	Header  http.Header
	Watch   bool
	Remote  string
	Conn    int
	Status  int
	Applied bool
	DoneMS  int64
	Fault   string
	Retry   int    // Retry-After sent with the status
	Resp    string // body of the answer
	Req     string // correlation number (simreq)
	Host    string // the address that was asked
	Broken  bool   // the connection was reset, maybe before the answer arrived
}

// Kube is one simulated Kubernetes API server with its durable state.
type Kube struct {
	name string // cluster / context name
	host string
	mu   sync.Mutex
	rv   int64
	uid  int64
	objs map[ObjKey]*ObjHist
	keys []ObjKey // creation order
	up   bool
	ln   net.Listener
	srv  *http.Server

	watches []*Watch
	reqs    []*ReqLog
	token   string
	labels  string // see Plan.Labels
	// watchLimit is when the server ends a watch, 0 for 40 minutes
	watchLimit time.Duration
	base       string // path of the API server on its host

	// faults
	err5xx     int    // status for every request while set
	errBody    string // "status", "html", "empty"
	retryAfter int
	errLeft    int // number of requests left to fail (-1: until cleared)
	errWatch   bool
	slowMS     int64
	hang       bool // accept requests and never answer
	hangCond   *sync.Cond
	watchFault []*WatchFault
	respFault  []*RespFault
}

// WatchFault breaks a watch stream at a chosen point.
type WatchFault struct {
	Res     int // index into resTypes, -1 any
	After   int // events delivered before it strikes
	Kind    string
	StMS    int64 // for stalls
	used    bool
	UntilMS int64 // strikes every stream until then, at least one
}

// RespFault breaks the answer to a request that matches; Method is WATCH for
// the watches of clients.
type RespFault struct {
	Method string // "" any
	Kind   string
	Code   int
	Retry  int
	Left   int
}

func newKube(name, host string) *Kube {
	k := &Kube{name: name, host: host, objs: map[ObjKey]*ObjHist{}, rv: 100}
	k.hangCond = sync.NewCond(&k.mu)
	return k
}

func (k *Kube) lock()   { runtime.SimNoMap(1); k.mu.Lock() }
func (k *Kube) unlock() { k.mu.Unlock(); runtime.SimNoMap(-1) }

var discardLog = log.New(io.Discard, "", 0)

type connKey struct{}

// start brings the server up (durable state survives).
func (k *Kube) start() {
	if k.up {
		return
	}
	ln, err := simnet.listen(k.host, "8080")
	if err != nil {
		harnessFail("listen %s: %v", k.host, err)
	}
	k.up = true
	k.ln = ln
	k.srv = &http.Server{Handler: http.HandlerFunc(k.serve), ErrorLog: discardLog,
		ConnContext: connContext}
	srv := k.srv
	hgo(func() { _ = srv.Serve(ln) })
	sim.logf("kube %s up", k.name)
}

// crash takes the server down at once: connections die, memory is lost.
func (k *Kube) crash() {
	if !k.up {
		return
	}
	k.up = false
	_ = k.ln.Close()
	n := simnet.resetAll(k.host)
	k.lock()
	for _, w := range k.watches {
		if w.CloseMS < 0 {
			w.stop = true
			w.cond.Broadcast()
		}
	}
	k.hang = false
	k.hangCond.Broadcast()
	k.unlock()
	sim.logf("kube %s crashed (%d conns)", k.name, n)
}

// ------------------------------------------------------------ state changes

func (k *Kube) hist(key ObjKey) *ObjHist {
	h := k.objs[key]
	if h == nil {
		h = &ObjHist{Key: key}
		k.objs[key] = h
		k.keys = append(k.keys, key)
	}
	return h
}

// largeNums are what floating point numbers of one kind or another mix up.
var largeNums = []string{"7", "21", "16777216", "16777217", "16777218", "20000001", "4294967296", "4294967297", "9007199254740992", "9007199254740993", "1700000000000000001", "1700000000000000002"}

// ranks are further numbers, of which no label can hold all.
var ranks = []string{"0", "-1", "-7", "-21", "-100", "3", "12", "1.5", "-0.5", "1e3", "007", "-16777217", "-9007199254740993", "-9007199254740992"}

// commit writes a new state of an object (k.mu held). body lacks the server
// managed metadata.
func (k *Kube) commit(rt *ResType, key ObjKey, body map[string]interface{}) *Version {
	h := k.hist(key)
	cur := h.cur()
	k.rv++
	meta, _ := body["metadata"].(map[string]interface{})
	nm := map[string]interface{}{}
	for mk, mv := range meta {
		nm[mk] = mv
	}
	// as an admission webhook would: clients sort by this label as a number
	lb, _ := nm["labels"].(map[string]interface{})
	switch k.labels {
	case "bare":
		if len(lb) == 1 && lb["num"] == "5" {
			delete(nm, "labels") // the junk of genBody
		}
	case "large":
		na := map[string]interface{}{}
		if a, ok := nm["annotations"].(map[string]interface{}); ok {
			for ak, av := range a {
				na[ak] = av
			}
		}
		na["rank"] = ranks[int(hash64("rank", key.Name, k.rv)%uint64(len(ranks)))]
		nm["annotations"] = na
		if n, _ := lb["num"].(string); len(n) > 0 && len(n) < 4 {
			nl := map[string]interface{}{}
			for lk, lv := range lb {
				nl[lk] = lv
			}
			nl["num"] = largeNums[int(hash64(n, key.Name, k.rv)%uint64(len(largeNums)))]
			nm["labels"] = nl
			lb = nl
		}
	}
	if n, _ := lb["num"].(string); k.labels != "bare" && (n == "" || strings.Trim(n, "0123456789") != "") {
		nl := map[string]interface{}{"num": "5"}
		for lk, lv := range lb {
			if lk != "num" {
				nl[lk] = lv
			}
		}
		nm["labels"] = nl
	}
	nm["name"] = key.Name
	if rt.Namespaced {
		nm["namespace"] = key.NS
	} else {
		delete(nm, "namespace")
	}
	uid := ""
	if cur != nil {
		uid = cur.UID
	} else {
		k.uid++
		uid = fmt.Sprintf("%s-uid-%d", k.name, k.uid)
	}
	nm["uid"] = uid
	nm["resourceVersion"] = strconv.FormatInt(k.rv, 10)
	if _, ok := nm["creationTimestamp"]; !ok {
		nm["creationTimestamp"] = time.Unix(1600000000+k.uid*37, 0).UTC().Format(time.RFC3339)
	}
	nb := map[string]interface{}{}
	for bk, bv := range body {
		nb[bk] = bv
	}
	nb["metadata"] = nm
	nb["kind"] = rt.Kind
	nb["apiVersion"] = rt.apiVersion()
	bs, err := json.Marshal(nb)
	if err != nil {
		harnessFail("marshal object: %v", err)
	}
	typ := "MODIFIED"
	if cur == nil {
		typ = "ADDED"
	} else {
		cur.EndMS = nowMS()
	}
	if n := len(h.Versions); n > 0 && h.Versions[n-1].EndMS < 0 {
		h.Versions[n-1].EndMS = nowMS()
	}
	v := &Version{RV: k.rv, JSON: string(bs), UID: uid, AtMS: nowMS(), EndMS: -1}
	v.Seq = sim.logf("commit %s %s %s %s/%s rv=%d", k.name, typ, key.G.Resource, key.NS, key.Name, k.rv)
	h.Versions = append(h.Versions, v)
	k.notify(typ, key, v, v.JSON)
	return v
}

// remove deletes an object (k.mu held).
func (k *Kube) remove(key ObjKey) *Version {
	h := k.objs[key]
	if h == nil || h.cur() == nil {
		return nil
	}
	cur := h.cur()
	k.rv++
	cur.EndMS = nowMS()
	last := setRV(cur.JSON, k.rv)
	v := &Version{RV: k.rv, UID: cur.UID, AtMS: nowMS(), EndMS: -1, Last: last}
	v.Seq = sim.logf("commit %s DELETED %s %s/%s rv=%d", k.name, key.G.Resource, key.NS, key.Name, k.rv)
	h.Versions = append(h.Versions, v)
	k.notify("DELETED", key, v, last)
	return v
}

func setRV(js string, rv int64) string {
	m := decodeObj(js)
	if meta, ok := m["metadata"].(map[string]interface{}); ok {
		meta["resourceVersion"] = strconv.FormatInt(rv, 10)
	}
	bs, _ := json.Marshal(m)
	return string(bs)
}

func decodeObj(js string) map[string]interface{} {
	d := json.NewDecoder(strings.NewReader(js))
	d.UseNumber()
	m := map[string]interface{}{}
	if err := d.Decode(&m); err != nil {
		return nil
	}
	return m
}

func (k *Kube) notify(typ string, key ObjKey, v *Version, js string) {
	for _, w := range k.watches {
		if w.CloseMS >= 0 || w.stop || w.G != key.G || (w.NS != "" && w.NS != key.NS) {
			continue
		}
		w.queue = append(w.queue, watchItem{typ: typ, key: key, ver: v, line: `{"type":"` + typ + `","object":` + js + "}\n"})
		w.nQueued++
		w.cond.Broadcast()
	}
}

// put creates or replaces an object directly (an actor other than ckube).
func (k *Kube) put(rt *ResType, ns, name string, body map[string]interface{}) *Version {
	if !rt.Namespaced {
		ns = ""
	}
	k.lock()
	defer k.unlock()
	return k.commit(rt, ObjKey{rt.GVR, ns, name}, body)
}

func (k *Kube) del(rt *ResType, ns, name string) *Version {
	if !rt.Namespaced {
		ns = ""
	}
	k.lock()
	defer k.unlock()
	return k.remove(ObjKey{rt.GVR, ns, name})
}

// current returns the live objects of a type, by "ns/name".
func (k *Kube) current(g GVR) map[string]*Version {
	k.lock()
	defer k.unlock()
	out := map[string]*Version{}
	for key, h := range k.objs {
		if key.G == g {
			if v := h.cur(); v != nil {
				out[key.NS+"/"+key.Name] = v
			}
		}
	}
	return out
}

// ------------------------------------------------------------ http

func (k *Kube) serve(w http.ResponseWriter, r *http.Request) {
	runtime.SimNoMap(1)
	defer func() {
		if e := recover(); e != nil {
			if e == http.ErrAbortHandler {
				panic(e)
			}
			harnessFail("kube handler panic: %v\n%s", e, debug.Stack())
		}
	}()
	body, berr := io.ReadAll(r.Body)
	if base := strings.TrimSuffix(k.base, "/"); base != "" {
		if !strings.HasPrefix(r.URL.Path, base+"/") {
			sim.violate("C01,C08,C09,C10,C11", "outside-base", "cluster %s, which is at %s, was asked for %s", k.name, k.base, r.RequestURI)
			w.WriteHeader(404)
			return
		}
		r.URL.Path = strings.TrimPrefix(r.URL.Path, base)
		r.URL.RawPath = strings.TrimPrefix(r.URL.RawPath, base)
		r.RequestURI = strings.TrimPrefix(r.RequestURI, base)
	}
	conn, _ := r.Context().Value(connKey{}).(*simConn)
	lg := &ReqLog{AtMS: nowMS(), Cluster: k.name, Method: r.Method, Path: r.URL.EscapedPath(), Query: r.URL.RawQuery, Body: string(body), Header: r.Header.Clone(), Remote: r.RemoteAddr, Host: r.Host, DoneMS: -1}
	if conn != nil {
		lg.Conn = conn.p.id
	}
	if berr != nil {
		lg.Fault = "body:" + berr.Error()
	}
	q := r.URL.Query()
	lg.Req = q.Get("simreq")
	wv := strings.ToLower(q.Get("watch"))
	lg.Watch = wv == "1" || wv == "true" || isWatchPath(r.URL.Path)
	lg.Seq = sim.logf("req %s %s %s?%s body=%d auth=%q", k.name, r.Method, lg.Path, lg.Query, len(body), r.Header.Get("Authorization"))
	k.lock()
	k.reqs = append(k.reqs, lg)
	nreq := len(k.reqs)
	k.unlock()
	if nreq > 20000 {
		sim.violate("C17", "request-storm", "API server %s received %d requests", k.name, nreq)
		sim.finish("")
	}
	defer func() { lg.DoneMS = nowMS() }()
	if berr != nil {
		w.WriteHeader(400)
		return
	}
	// the API server dies or hangs
	k.lock()
	for k.hang {
		lg.Fault = "hang"
		done := r.Context().Done()
		select {
		case <-done:
			k.unlock()
			return
		default:
		}
		stopWait := make(chan struct{})
		go func() {
			select {
			case <-done:
				k.mu.Lock()
				k.hangCond.Broadcast()
				k.mu.Unlock()
			case <-stopWait:
			}
		}()
		k.hangCond.Wait()
		close(stopWait)
	}
	if lg.Fault == "hang" {
		lg.Fault = "" // it goes on after all
	}
	slow := k.slowMS
	fail := k.err5xx != 0 && (k.errLeft != 0)
	if fail && k.errLeft > 0 {
		k.errLeft--
	}
	code, ebody, retry := k.err5xx, k.errBody, k.retryAfter
	var rf *RespFault
	if !fail {
		for _, f := range k.respFault {
			if f.Left > 0 && (lg.Watch && f.Method == "WATCH" && lg.Req != "" || !lg.Watch && (f.Method == "" || f.Method == r.Method)) {
				f.Left--
				rf = f
				break
			}
		}
	}
	k.unlock()
	if slow > 0 {
		sleepMS(slow)
		if r.Context().Err() != nil {
			return
		}
	}
	if fail {
		sim.fault("api-" + strconv.Itoa(code))
		lg.Status = code
		lg.Fault = "status"
		lg.Retry = retry
		lg.Resp = writeErr(w, code, ebody, retry)
		return
	}
	if rf != nil {
		sim.fault("resp-" + rf.Kind)
		lg.Fault = rf.Kind
		switch rf.Kind {
		case "status":
			lg.Status = rf.Code
			lg.Retry = rf.Retry
			lg.Resp = writeErr(w, rf.Code, "status", rf.Retry)
			return
		case "html":
			lg.Status = rf.Code
			lg.Retry = rf.Retry
			writeErr(w, rf.Code, "html", rf.Retry)
			return
		case "rst-before":
			k.span("rst")
			if rf.Code > 0 {
				panic(http.ErrAbortHandler)
			}
			conn.p.reset(errReset)
			return
		case "rst-after":
			k.span("rst")
			rec := &recorder{h: http.Header{}}
			k.handle(rec, r, lg, body)
			if rf.Code > 0 {
				panic(http.ErrAbortHandler)
			}
			conn.p.reset(errReset)
			return
		case "truncate":
			rec := &recorder{h: http.Header{}}
			k.handle(rec, r, lg, body)
			w.Header().Set("Content-Type", "application/json")
			w.Header().Set("Content-Length", strconv.Itoa(rec.buf.Len()))
			w.WriteHeader(rec.code())
			_, _ = w.Write(rec.buf.Bytes()[:rec.buf.Len()/2])
			w.(http.Flusher).Flush()
			sleepMS(50)
			k.span("rst")
			conn.p.reset(errReset)
			return
		case "slow":
			sleepMS(int64(rf.Code))
		}
	}
	k.handle(w, r, lg, body)
}

// span notes a reset: requests about to reuse the connection break with it.
func (k *Kube) span(kind string) {
	for i, x := range world.kubes {
		if x == k {
			world.span(kind, i, nowMS(), nowMS())
		}
	}
}

type recorder struct {
	h   http.Header
	c   int
	buf bytes.Buffer
}

func (r *recorder) Header() http.Header         { return r.h }
func (r *recorder) WriteHeader(c int)           { r.c = c }
func (r *recorder) Write(b []byte) (int, error) { return r.buf.Write(b) }
func (r *recorder) code() int {
	if r.c == 0 {
		return 200
	}
	return r.c
}

func writeErr(w http.ResponseWriter, code int, body string, retry int) string {
	if retry > 0 {
		w.Header().Set("Retry-After", strconv.Itoa(retry))
	}
	switch body {
	case "html":
		w.Header().Set("Content-Type", "text/html")
		w.WriteHeader(code)
		_, _ = w.Write([]byte("<html>upstream error</html>"))
	case "empty":
		w.WriteHeader(code)
	default:
		return writeStatus(w, code, "InternalError", "simulated failure")
	}
	return ""
}

// writeStatus answers with an error the way API servers do. Its details are what
// clients show to their users, and some decide by the reason.
func writeStatus(w http.ResponseWriter, code int, reason, msg string) string {
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	bs, _ := json.Marshal(map[string]interface{}{
		"kind": "Status", "apiVersion": "v1", "metadata": map[string]interface{}{}, "status": "Failure",
		"message": msg, "reason": reason, "code": code,
		"details": map[string]interface{}{"kind": "simulated", "causes": []interface{}{map[string]interface{}{"reason": "FieldValueInvalid", "message": msg, "field": "spec.x"}}},
	})
	_, _ = w.Write(bs)
	return string(bs)
}

func writeJSON(w http.ResponseWriter, code int, js string) {
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	_, _ = w.Write([]byte(js))
}

// parsePath splits an API path into its parts.
func parsePath(p string) (rt *ResType, ns, name, sub string, watch bool) {
	parts := strings.Split(strings.Trim(p, "/"), "/")
	for i := range parts {
		if u, err := url.PathUnescape(parts[i]); err == nil {
			parts[i] = u
		}
	}
	var g GVR
	if len(parts) >= 3 && parts[0] == "api" {
		g.Version = parts[1]
		parts = parts[2:]
	} else if len(parts) >= 4 && parts[0] == "apis" {
		g.Group, g.Version = parts[1], parts[2]
		parts = parts[3:]
	} else {
		return nil, "", "", "", false
	}
	if parts[0] == "watch" && len(parts) > 1 {
		watch = true
		parts = parts[1:]
	}
	if parts[0] == "namespaces" && len(parts) >= 3 {
		ns = parts[1]
		parts = parts[2:]
	}
	g.Resource = parts[0]
	rt = resByGVR(g)
	if len(parts) > 1 {
		name = parts[1]
	}
	if len(parts) > 2 {
		sub = strings.Join(parts[2:], "/")
	}
	return
}

// isWatchPath recognises the old form of watches: /api/v1/watch/pods
func isWatchPath(path string) bool {
	parts := strings.Split(strings.Trim(path, "/"), "/")
	return len(parts) > 3 && parts[0] == "api" && parts[2] == "watch" || len(parts) > 4 && parts[0] == "apis" && parts[3] == "watch"
}

func (k *Kube) handle(w http.ResponseWriter, r *http.Request, lg *ReqLog, body []byte) {
	st := func(code int, js string) {
		lg.Status = code
		lg.Resp = js
		writeJSON(w, code, js)
	}
	fail := func(code int, reason, msg string) {
		lg.Status = code
		lg.Resp = writeStatus(w, code, reason, msg)
	}
	rt, ns, name, sub, watchPath := parsePath(r.URL.Path)
	if rt == nil {
		// anything else: answer with a recognisable document
		lg.Applied = true
		if strings.Contains(r.URL.Path, "/notfound") {
			fail(404, "NotFound", "no such path")
			return
		}
		if strings.HasSuffix(r.URL.Path, "/nothing") {
			lg.Status = 200
			w.Header().Set("Content-Type", "text/plain")
			return
		}
		st(200, k.echo(r, body))
		return
	}
	if sub != "" {
		if sub == "log" {
			lg.Status = 200
			lg.Applied = true
			w.Header().Set("Content-Type", "text/plain")
			lg.Resp = "line one of " + name + "\nline two {\"x\":1}\n"
			_, _ = w.Write([]byte(lg.Resp))
			return
		}
		lg.Applied = true
		st(200, k.echo(r, body))
		return
	}
	key := ObjKey{rt.GVR, ns, name}
	if !rt.Namespaced {
		key.NS = ""
	}
	q := r.URL.Query()
	if (lg.Watch || watchPath) && r.Method == "GET" {
		k.serveWatch(w, r, lg, rt, ns)
		return
	}
	switch r.Method {
	case "GET", "HEAD":
		if name != "" {
			k.lock()
			h := k.objs[key]
			var v *Version
			if h != nil {
				v = h.cur()
			}
			k.unlock()
			if v == nil {
				fail(404, "NotFound", rt.Resource+" \""+name+"\" not found")
				return
			}
			st(200, v.JSON)
			return
		}
		k.lock()
		var items []string
		for _, kk := range k.keys {
			if kk.G == rt.GVR && (ns == "" || kk.NS == ns) {
				if v := k.objs[kk].cur(); v != nil {
					items = append(items, v.JSON)
				}
			}
		}
		rv := k.rv
		k.unlock()
		st(200, fmt.Sprintf(`{"kind":"%sList","apiVersion":"%s","metadata":{"resourceVersion":"%d"},"items":[%s]}`, rt.Kind, rt.apiVersion(), rv, strings.Join(items, ",")))
	case "POST":
		m := decodeObj(string(body))
		meta, _ := m["metadata"].(map[string]interface{})
		nm, _ := meta["name"].(string)
		if m == nil || nm == "" {
			fail(400, "BadRequest", "bad object")
			return
		}
		if ct := r.Header.Get("Content-Type"); ct != "" && !strings.Contains(ct, "json") {
			fail(415, "UnsupportedMediaType", "unsupported media type "+ct)
			return
		}
		key.Name = nm
		k.lock()
		if h := k.objs[key]; h != nil && h.cur() != nil {
			k.unlock()
			fail(409, "AlreadyExists", rt.Resource+" \""+nm+"\" already exists")
			return
		}
		if len(q["dryRun"]) > 0 {
			k.unlock()
			st(201, string(body))
			return
		}
		lg.Applied = true
		v := k.commit(rt, key, m)
		k.unlock()
		st(201, v.JSON)
	case "PUT":
		m := decodeObj(string(body))
		if m == nil {
			fail(400, "BadRequest", "bad object")
			return
		}
		k.lock()
		h := k.objs[key]
		if h == nil || h.cur() == nil {
			k.unlock()
			fail(404, "NotFound", rt.Resource+" \""+name+"\" not found")
			return
		}
		meta, _ := m["metadata"].(map[string]interface{})
		if rv, _ := meta["resourceVersion"].(string); rv != "" && rv != strconv.FormatInt(h.cur().RV, 10) {
			k.unlock()
			fail(409, "Conflict", "the object has been modified")
			return
		}
		lg.Applied = true
		v := k.commit(rt, key, m)
		k.unlock()
		st(200, v.JSON)
	case "PATCH":
		pm := decodeObj(string(body))
		ct := r.Header.Get("Content-Type")
		if pm == nil || !strings.Contains(ct, "patch") {
			fail(415, "UnsupportedMediaType", "patch type "+ct)
			return
		}
		k.lock()
		h := k.objs[key]
		if h == nil || h.cur() == nil {
			k.unlock()
			fail(404, "NotFound", rt.Resource+" \""+name+"\" not found")
			return
		}
		lg.Applied = true
		m := decodeObj(h.cur().JSON)
		mergeJSON(m, pm)
		v := k.commit(rt, key, m)
		k.unlock()
		st(200, v.JSON)
	case "DELETE":
		k.lock()
		h := k.objs[key]
		if name == "" || h == nil || h.cur() == nil {
			k.unlock()
			fail(404, "NotFound", rt.Resource+" \""+name+"\" not found")
			return
		}
		do := decodeObj(string(body))
		if dr, ok := do["dryRun"].([]interface{}); ok && len(dr) > 0 {
			if s, _ := dr[0].(string); s != "All" {
				k.unlock()
				fail(400, "BadRequest", "invalid dryRun")
				return
			}
			cur := h.cur()
			k.unlock()
			st(200, cur.JSON)
			return
		}
		lg.Applied = true
		v := k.remove(key)
		k.unlock()
		code := 200
		if hash64("accepted", name, v.RV)%4 == 0 {
			code = 202 // accepted, as with foreground deletion
		}
		st(code, v.Last)
	default:
		fail(405, "MethodNotAllowed", "method not allowed")
	}
}

func mergeJSON(dst, src map[string]interface{}) {
	for k, v := range src {
		if v == nil {
			delete(dst, k)
			continue
		}
		if sm, ok := v.(map[string]interface{}); ok {
			if dm, ok := dst[k].(map[string]interface{}); ok {
				mergeJSON(dm, sm)
				continue
			}
		}
		dst[k] = v
	}
}

// echo is a document that proves which server answered which request.
func (k *Kube) echo(r *http.Request, body []byte) string {
	bs, _ := json.Marshal(map[string]interface{}{"kind": "Echo", "apiVersion": "sim/v1", "cluster": k.name, "method": r.Method, "path": r.URL.EscapedPath(), "body": string(body)})
	return string(bs)
}

func connContext(ctx ctxT, c net.Conn) ctxT {
	return withConn(ctx, c)
}

// serveWatch streams events. Without a resourceVersion the server first sends
// the current state as ADDED events ("get state and start at any").
func (k *Kube) serveWatch(w http.ResponseWriter, r *http.Request, lg *ReqLog, rt *ResType, ns string) {
	lg.Watch = true
	conn, _ := r.Context().Value(connKey{}).(*simConn)
	wt := &Watch{Cluster: k.name, G: rt.GVR, NS: ns, OpenMS: nowMS(), CloseMS: -1, URI: r.URL.RequestURI(), conn: conn, Req: lg.Req}
	wt.cond = sync.NewCond(&k.mu)
	q := r.URL.Query()
	wt.FromSUT = strings.HasPrefix(r.RemoteAddr, "ckube:")
	wt.Cache = wt.FromSUT && lg.Req == ""
	if conn != nil {
		conn.p.onReset = append(conn.p.onReset, func() { wt.Reset = true })
	}
	k.lock()
	wt.ID = len(k.watches) + 1
	if rv := q.Get("resourceVersion"); rv == "" || rv == "0" {
		for _, kk := range k.keys {
			if kk.G == rt.GVR && (ns == "" || kk.NS == ns) {
				if v := k.objs[kk].cur(); v != nil {
					typ := "ADDED"
					if vs := k.objs[kk].Versions; rv == "0" && wt.Cache && len(vs) > 1 && vs[len(vs)-2].JSON != "" {
						// "any" state may be an older one
						old := vs[len(vs)-2]
						wt.queue = append(wt.queue, watchItem{typ: typ, key: kk, ver: old, line: `{"type":"ADDED","object":` + old.JSON + "}\n", init: true})
						typ = "MODIFIED"
					}
					wt.queue = append(wt.queue, watchItem{typ: typ, key: kk, ver: v, line: `{"type":"` + typ + `","object":` + v.JSON + "}\n", init: true})
				}
			}
		}
		wt.nQueued = len(wt.queue)
		wt.nInit = len(wt.queue)
	}
	k.watches = append(k.watches, wt)
	var wf *WatchFault
	for _, f := range k.watchFault {
		if !f.used && (f.Res < 0 || resTypes[f.Res].GVR == rt.GVR) && wt.FromSUT {
			f.used = nowMS() >= f.UntilMS
			wf = f
			break
		}
	}
	k.unlock()
	lg.Status = 200
	lg.Applied = true
	sim.logf("watch open %s #%d %s ns=%s", k.name, wt.ID, rt.Resource, ns)
	closeWatch := func(why string) {
		k.lock()
		if wt.CloseMS < 0 {
			wt.CloseMS = nowMS()
			wt.Why = why
		}
		k.unlock()
		sim.logf("watch close %s #%d %s: %s", k.name, wt.ID, rt.Resource, why)
	}
	done := r.Context().Done()
	hgo(func() {
		<-done
		k.mu.Lock()
		if conn != nil && wt.CloseMS < 0 && !wt.stop && conn.p.err == nil && conn.p.closed[1-conn.end] {
			wt.ByPeer = true
		}
		wt.stop = true
		wt.cond.Broadcast()
		k.mu.Unlock()
	})
	// server side timeout
	limit := 40 * time.Minute
	if k.watchLimit > 0 {
		limit = k.watchLimit
	}
	if ts := q.Get("timeoutSeconds"); ts != "" {
		if n, err := strconv.Atoi(ts); err == nil && n > 0 {
			limit = time.Duration(n) * time.Second
		}
	}
	timedOut := false
	tm := time.AfterFunc(limit, func() {
		k.mu.Lock()
		timedOut = true
		wt.stop = true
		wt.cond.Broadcast()
		k.mu.Unlock()
	})
	defer tm.Stop()

	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(200)
	w.(http.Flusher).Flush()
	wt.hdrMS = nowMS()
	sent := 0
	emit := func(text string, ev *WatchEvent) error {
		k.lock()
		wt.Raw = append(wt.Raw, text...)
		wt.Marks = append(wt.Marks, rawMark{len(wt.Raw), -1, nowMS()})
		i := len(wt.Marks) - 1
		k.unlock()
		// a large event takes several writes
		pending, flushed := 0, false
		arrived := func() {
			if pending > 0 || !flushed {
				return
			}
			wt.Marks[i].AtMS = nowMS()
			if ev != nil {
				ev.DeliverMS = nowMS()
			}
		}
		conn.onMark = func() func() {
			pending++
			return func() {
				pending--
				arrived()
			}
		}
		defer func() { conn.onMark = nil }()
		if _, err := w.Write([]byte(text)); err != nil {
			return err
		}
		w.(http.Flusher).Flush()
		flushed = true
		arrived()
		return nil
	}
	strike := func() (stop bool) {
		if wf == nil || sent < wf.After {
			return false
		}
		f := wf
		wf = nil
		sim.fault("watch-" + f.Kind)
		switch f.Kind {
		case "cut": // orderly end of the stream
			closeWatch("fault cut")
			return true
		case "rst":
			closeWatch("fault rst")
			lg.Broken = true
			conn.p.reset(errReset)
			return true
		case "garbage":
			_ = emit("{\"type\":\"ADDED\",\"object\":{{{nonsense\n", nil)
			closeWatch("fault garbage")
			return true
		case "truncate": // half an event, then the connection dies
			k.lock()
			line := `{"type":"MODIFIED","object":{"kind":"` + rt.Kind + `"`
			if len(wt.queue) > 0 {
				line = wt.queue[0].line[:len(wt.queue[0].line)/2]
			}
			k.unlock()
			_ = emit(line, nil)
			sleepMS(20)
			closeWatch("fault truncate")
			conn.p.reset(errReset)
			return true
		case "error410":
			_ = emit(`{"type":"ERROR","object":{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"too old resource version","reason":"Expired","code":410}}`+"\n", nil)
			closeWatch("fault 410")
			return true
		case "error-only": // an ERROR event that does not end the stream
			_ = emit(`{"type":"ERROR","object":{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"transient","reason":"InternalError","code":500}}`+"\n", nil)
		case "bookmark":
			wt.bookmark = true
			for n := hash64(wt.Cluster, wt.ID, "bm") % 3; n > 0; n-- { // clients have to bear the same line again
				_ = emit(fmt.Sprintf(`{"type":"BOOKMARK","object":{"kind":"%s","apiVersion":"%s","metadata":{"resourceVersion":"%d"}}}`+"\n", rt.Kind, rt.apiVersion(), k.rv), nil)
			}
			_ = emit(fmt.Sprintf(`{"type":"BOOKMARK","object":{"kind":"%s","apiVersion":"%s","metadata":{"resourceVersion":"%d"}}}`+"\n", rt.Kind, rt.apiVersion(), k.rv), nil)
		case "stall":
			for left := f.StMS; left > 0 && !wt.stop; left -= 500 {
				sleepMS(min(left, 500))
			}
		}
		return false
	}
	for {
		if strike() {
			return
		}
		k.lock()
		for len(wt.queue) == 0 && !wt.stop {
			wt.cond.Wait()
		}
		if wt.stop && (len(wt.queue) == 0 || !timedOut) {
			k.unlock()
			why := "stopped"
			if timedOut {
				why = "timeout"
			}
			closeWatch(why)
			return
		}
		it := wt.queue[0]
		wt.queue = wt.queue[1:]
		ev := &WatchEvent{Typ: it.typ, Key: it.key, Ver: it.ver, Line: it.line, SentMS: nowMS(), DeliverMS: -1}
		wt.Sent = append(wt.Sent, ev)
		k.unlock()
		ev.Seq = sim.next()
		if err := emit(it.line, ev); err != nil {
			closeWatch("write error")
			return
		}
		sent++
	}
}

// openWatches counts the open streams per "resource" from ckube's cache.
func (k *Kube) openWatches() []*Watch {
	k.lock()
	defer k.unlock()
	var out []*Watch
	for _, w := range k.watches {
		if w.CloseMS < 0 {
			out = append(out, w)
		}
	}
	return out
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
