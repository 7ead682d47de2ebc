package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/pkg/client/fake"
)

// The fake server of pkg/client/fake, used by any number of clients at once.

func genFakeRun(p *Plan, r *Rng) {
	g := &genCtx{tick: int64(r.PickInt(1, 10, 100, 1000)), prof: &profile{}}
	g.horizon = int64(r.PickInt(1, 5, 30)) * 1000
	p.HorizonMS = g.horizon
	g.nCl = r.Between(1, 3)
	for i := 0; i < g.nCl; i++ {
		p.Clusters = append(p.Clusters, fmt.Sprintf("c%d", i+1))
	}
	if r.P(25) {
		p.Clusters = []string{"c1", "c10", "c"}[:g.nCl]
	}
	switch r.N(3) {
	case 0:
	case 1:
		p.Latency = []int64{0, 0, 1}
	default:
		p.Latency = []int64{0, 1, 5, 20}
	}
	if r.P(15) {
		p.MaxSeg = r.PickInt(16, 64, 1000)
	}
	genSched(p, r, r.P(40))
	pool := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
	for n := r.Between(1, 2); n > 0; n-- {
		i := r.N(len(pool))
		g.res = append(g.res, pool[i])
		pool = append(pool[:i], pool[i+1:]...)
	}
	if r.P(20) {
		g.res = addTwins(g.res)
	}
	sort.Ints(g.res)
	g.ns = []string{"default", "kube-system"}[:r.Between(1, 2)]
	g.names = []string{"web-1", "x", "y.z", "api-1"}[:r.Between(1, 4)]
	p.Confs = []Conf{{Res: g.res, Idx: r.N(len(idxVariants))}}
	g.idx = p.Confs[0].Idx
	nCli := r.Between(1, 5)
	hot := g.at(r)
	cluster := func() int { return r.N(g.nCl+1) - 1 } // -1: the default cluster
	for n := r.Between(5, 50); n > 0; n-- {
		s := Step{Who: fmt.Sprintf("client%d", r.N(nCli)), At: g.at(r), C: cluster(), R: g.anyRes(r), NS: g.anyNS(r), Name: g.anyName(r), V: r.U64() % 100000}
		if r.P(40) {
			s.At = hot
		}
		switch x := r.N(100); {
		case x < 30:
			s.K = "post"
		case x < 50:
			s.K = "put"
		case x < 70:
			s.K = "del"
		case x < 85:
			s.K = "get"
		default:
			s.K = "list"
			s.Q = g.fakeClusters(r)
			if r.P(40) {
				s.NS = ""
			}
		}
		if r.P(4) { // gives up
			s.D = int64(r.PickInt(1, 2, 5, 30))
		}
		if (s.K == "post" || s.K == "put") && r.P(20) {
			s.S = "bare" // leaves the namespace to the path
		}
		if r.P(2) {
			s.R = pool[r.N(len(pool))] // a type the server does not know
		}
		p.Steps = append(p.Steps, s)
	}
	for n := r.Between(0, 6); n > 0; n-- {
		s := Step{K: "watch", At: g.at(r), R: g.anyRes(r), NS: g.anyNS(r), C: -1, V: r.U64() % 4, Q: g.fakeClusters(r)}
		if r.P(40) {
			s.NS = ""
		}
		if r.P(40) {
			s.At = 0
		} else if r.P(40) {
			s.At = hot
		}
		if r.P(40) {
			s.D = int64(r.PickInt(1, 100, 1000, 20000))
		}
		if r.P(8) { // slow reader
			s.N, s.M = int64(r.Between(1, 3)), int64(r.PickInt(100, 5000))
		}
		p.Steps = append(p.Steps, s)
	}
	if r.P(10) {
		p.Steps = append(p.Steps, Step{K: "clean", At: g.at(r)})
	}
	if r.P(15) {
		p.Steps = append(p.Steps, Step{K: "rst", At: g.at(r)})
	}
	if r.P(40) {
		p.Steps = append(p.Steps, Step{K: "events", At: g.at(r) / 2})
	}
	if r.P(12) { // many changes while a watcher is not reading
		p.Window = r.PickInt(512, 2048, 8192)
		for n := r.Between(30, 200); n > 0; n-- {
			p.Steps = append(p.Steps, Step{K: "post", Who: fmt.Sprintf("client%d", r.N(nCli)), At: hot, C: cluster(), R: g.res[0], NS: g.anyNS(r), Name: fmt.Sprintf("n%d", n), V: r.U64() % 100000})
		}
		for n := r.Between(1, 3); n > 0; n-- {
			p.Steps = append(p.Steps, Step{K: "watch", At: 0, R: g.res[0], C: -1, V: r.U64() % 4, Q: g.fakeClusters(r), N: int64(r.Between(1, 3)), M: int64(r.PickInt(5000, 40000))})
		}
	}
}

// fakeClusters names clusters in a query; the last one is the default cluster.
func (g *genCtx) fakeClusters(r *Rng) *QSpec {
	q := &QSpec{}
	if r.P(70) {
		for i := 0; i <= g.nCl; i++ {
			if r.P(60) {
				q.Clusters = append(q.Clusters, i)
			}
		}
	}
	return q
}

type fakeKey struct {
	c        string
	r        int
	ns, name string
}

// fakeOp is one operation on one key.
type fakeOp struct {
	kind     string // post put del read clean
	v        int    // the state written or read (0: absent)
	from, to int64
	status   int // 0: unknown
	who      string
}

type fakeEvent struct {
	typ  string
	key  fakeKey
	v    int
	text string
}

type fakeWatch struct {
	s           *Step
	id          string
	from, hdr   int64 // sequence numbers
	hdrMS, end  int64
	gone        int64 // when the client left
	raw         bytes.Buffer
	status      int
	events      []fakeEvent
	err         string
	clusters    []string
	slow, reset bool
	conn        net.Conn
}

type fakeRun struct {
	p       *Plan
	w       *World
	s       fake.CkubeServer
	mu      sync.Mutex
	ops     map[fakeKey][]*fakeOp
	muts    []*fakeMut
	watches []*fakeWatch
	bodies  map[int]map[string]interface{}
	texts   map[int]string
	events  []fake.Event
	cleaned bool
	resets  []int64
}

// fakeMut is a change a client asked for.
type fakeMut struct {
	typ    string
	key    fakeKey
	v      int
	op     *fakeOp
	text   string
	failed bool
}

const defaultCluster = "default"

func (x *fakeRun) clName(i int) string {
	if i < 0 || i >= len(x.p.Clusters) {
		return defaultCluster
	}
	return x.p.Clusters[i]
}

func (x *fakeRun) clusters(q *QSpec) []string {
	var out []string
	for _, i := range q.Clusters {
		out = append(out, x.clName(i))
	}
	return out
}

func genFake(p *Plan, r *Rng) { genFakeRun(p, r) }

func runFake(p *Plan) {
	w := &World{p: p, byName: map[string]*Kube{}, clients: map[string]*http.Client{}}
	w.idle = sync.NewCond(&w.mu)
	world = w
	x := &fakeRun{p: p, w: w, ops: map[fakeKey][]*fakeOp{}, bodies: map[int]map[string]interface{}{}, texts: map[int]string{}}
	simnet = newSimNet(p.Seed, p.Latency)
	if p.Window > 0 {
		simnet.window = p.Window
	}
	simnet.install()
	simnet.link("ckube").maxSeg = p.MaxSeg
	sched.setup(p.Sched, p.Seed)
	var err error
	sut("NewFakeCKubeServer", func() { x.s, err = fake.NewFakeCKubeServer(":80", string(w.confJSON(&p.Confs[0]))) })
	if err != nil || x.s == nil {
		sim.violate("C18", "start", "NewFakeCKubeServer: %v", err)
		return
	}
	base := nowMS()
	byWho := map[string][]*Step{}
	var order []string
	for i := range p.Steps {
		s := &p.Steps[i]
		if s.Who == "" {
			if s.K != "events" && s.K != "watch" {
				w.begin()
			}
			hgo(func() {
				sleepUntil(base + s.At)
				x.do(s)
				if s.K != "events" && s.K != "watch" {
					w.end()
				}
			})
			continue
		}
		if byWho[s.Who] == nil {
			order = append(order, s.Who)
		}
		byWho[s.Who] = append(byWho[s.Who], s)
	}
	for _, who := range order {
		steps := byWho[who]
		sort.SliceStable(steps, func(i, j int) bool { return steps[i].At < steps[j].At })
		w.begin()
		hgo(func() {
			for _, s := range steps {
				sleepUntil(base + s.At)
				x.do(s)
			}
			w.end()
		})
	}
	sleepUntil(base + p.HorizonMS)
	w.waitIdle()
	sleepMS(20000 + 2*p.Sched.stallBudget())
	if p.Window > 0 {
		sleepMS(100000) // the watcher that was not reading catches up
	}
	settled := nowMS()
	// what is there in the end
	for _, r := range p.Confs[0].Res {
		s := &Step{ID: 9000 + r, K: "list", Who: "final", R: r, C: -1, Q: &QSpec{}}
		for i := 0; i <= len(p.Clusters); i++ {
			s.Q.Clusters = append(s.Q.Clusters, i)
		}
		x.do(s)
	}
	x.mu.Lock()
	for _, fw := range x.watches {
		if fw.conn != nil && fw.end < 0 {
			if fw.gone < 0 {
				fw.gone = nowMS()
			}
			_ = fw.conn.Close()
		}
	}
	x.mu.Unlock()
	sleepMS(200000)
	fp := takeFootprint()
	if len(fp.stale) > 0 {
		sim.violate("C18", "not-released", "connections of clients that left are still open: %v", fp.stale)
	}
	sut("Stop", func() { x.s.Stop() })
	x.check(settled)
}

func (x *fakeRun) do(s *Step) {
	switch s.K {
	case "watch":
		x.watch(s)
		return
	case "events":
		ch := x.s.Events()
		for e := range ch {
			x.mu.Lock()
			x.events = append(x.events, e)
			x.mu.Unlock()
		}
		return
	case "rst":
		sim.fault("net-reset")
		x.mu.Lock()
		x.resets = append(x.resets, nowMS())
		x.mu.Unlock()
		simnet.resetAll("ckube")
		return
	case "clean":
		op := &fakeOp{kind: "clean", from: sim.next(), status: 200, who: "clean"}
		sut("Clean", func() { x.s.Clean() })
		op.to = sim.next()
		x.mu.Lock()
		x.cleaned = true
		x.ops[fakeKey{}] = append(x.ops[fakeKey{}], op)
		x.mu.Unlock()
		return
	}
	rt := &resTypes[s.R]
	ns := s.NS
	if !rt.Namespaced {
		ns = ""
	}
	key := fakeKey{x.clName(s.C), s.R, ns, s.Name}
	marked := s.C >= 0
	rq := &HTTPRq{Method: "GET", Path: rt.path(ns, s.Name)}
	q := url.Values{}
	op := &fakeOp{who: s.Who}
	text := ""
	switch s.K {
	case "post", "put":
		op.kind, op.v = s.K, s.ID
		body := genBody(rt, ns, s.Name, s.V)
		meta := body["metadata"].(map[string]interface{})
		lb, _ := meta["labels"].(map[string]interface{})
		if lb == nil {
			lb = map[string]interface{}{}
		}
		lb["simv"] = fmt.Sprint(s.ID)
		meta["labels"] = lb
		meta["name"] = s.Name
		if ns != "" {
			meta["namespace"] = ns
		}
		body["kind"], body["apiVersion"] = rt.Kind, rt.apiVersion()
		full, _ := json.Marshal(body)
		if s.S == "bare" {
			delete(meta, "namespace")
		}
		bs, _ := json.Marshal(body)
		text = string(bs)
		rq.Body = text
		x.mu.Lock()
		x.bodies[s.ID], x.texts[s.ID] = decodeObj(string(full)), text
		x.mu.Unlock()
		if s.K == "post" {
			rq.Method, rq.Path = "POST", rt.path(ns, "")
			if marked {
				o, _ := page.QueryCreateOptions(metav1.CreateOptions{}, key.c)
				q.Set("fieldManager", o.FieldManager)
			}
		} else {
			rq.Method = "PUT"
			if marked {
				o, _ := page.QueryUpdateOptions(metav1.UpdateOptions{}, key.c)
				q.Set("fieldManager", o.FieldManager)
			}
		}
		rq.Header = map[string]string{"Content-Type": "application/json"}
	case "del":
		op.kind = "del"
		rq.Method = "DELETE"
		if marked {
			o, _ := page.QueryDeleteOptions(metav1.DeleteOptions{}, key.c)
			o.Kind, o.APIVersion = "DeleteOptions", "v1"
			bs, _ := json.Marshal(o)
			rq.Body = string(bs)
			rq.Header = map[string]string{"Content-Type": "application/json"}
		}
	case "get":
		op.kind = "read"
		if marked {
			o, _ := page.QueryGetOptions(metav1.GetOptions{}, key.c)
			q.Set("resourceVersion", o.ResourceVersion)
		}
	case "list":
		op.kind = "read"
		rq.Path = rt.path(ns, "")
		if sel := x.selector(s.Q); sel != "" {
			q.Set("labelSelector", sel)
		}
	default:
		harnessFail("unknown step %s", s.K)
	}
	rq.Query = q.Encode()
	// known before it is answered: a watcher may see it first
	var mut *fakeMut
	op.from, op.to = sim.next(), 1<<60
	x.mu.Lock()
	if op.kind != "read" {
		mut = &fakeMut{typ: map[string]string{"post": "ADDED", "put": "MODIFIED", "del": "DELETED"}[op.kind], key: key, v: op.v, op: op, text: text}
		x.muts = append(x.muts, mut)
		x.ops[key] = append(x.ops[key], op)
	}
	x.mu.Unlock()
	timeout := 90 * time.Second
	if s.D > 0 {
		timeout = time.Duration(s.D) * time.Millisecond
	}
	rd := x.w.do(s.Who, s, s.K, rq, timeout)
	if rd.Err != "" {
		if s.D > 0 {
			sim.fault("client-abandon")
		} else if len(x.resets) == 0 {
			sim.violate("C18", "no-answer", "%s %s: %s", rq.Method, rd.URL, rd.Err)
		}
		return
	}
	to := sim.next()
	x.mu.Lock()
	defer x.mu.Unlock()
	op.to, op.status = to, rd.Status
	stored := x.p.Confs[0].hasRes(s.R)
	if !stored {
		if rd.Status != 404 {
			sim.violate("C18", "unknown-type", "%s %s: status %d, the type is not served", rq.Method, rd.URL, rd.Status)
		}
		op.status = 404
		if mut != nil {
			mut.failed = true
		}
		delete(x.ops, key)
		return
	}
	switch s.K {
	case "get":
		switch rd.Status {
		case 404:
		case 200:
			m := decodeObj(string(rd.Body))
			v, ok := x.identify(rd.URL, m, key, true)
			if !ok {
				return
			}
			op.v = v
		default:
			sim.violate("C18", "status", "GET %s: status %d: %s", rd.URL, rd.Status, short(string(rd.Body), 200))
			return
		}
		x.ops[key] = append(x.ops[key], op)
	case "list":
		if rd.Status != 200 {
			sim.violate("C18", "status", "GET %s: status %d: %s", rd.URL, rd.Status, short(string(rd.Body), 200))
			return
		}
		doc := decodeObj(string(rd.Body))
		items, _ := doc["items"].([]interface{})
		got := map[fakeKey]int{}
		cl := x.clusters(s.Q)
		if len(cl) == 0 {
			cl = []string{defaultCluster}
		}
		for _, it := range items {
			m, _ := it.(map[string]interface{})
			c, _ := jget(m, "metadata", "annotations")
			cm, _ := c.(map[string]interface{})
			cn, _ := cm[annoCluster].(string)
			k := fakeKey{cn, s.R, jstr(m, "metadata", "namespace"), jstr(m, "metadata", "name")}
			if !contains(cl, cn) || ns != "" && k.ns != ns {
				sim.violate("C18", "wrong-object", "GET %s: %v is not asked for", rd.URL, k)
				return
			}
			if got[k] != 0 {
				sim.violate("C18", "twice", "GET %s: %v is in the list twice", rd.URL, k)
				return
			}
			v, ok := x.identify(rd.URL, m, k, false)
			if !ok {
				return
			}
			got[k] = v
		}
		for _, c := range cl {
			for _, n := range allNames {
				nss := []string{""}
				if rt.Namespaced {
					nss = []string{"default", "kube-system"}
				}
				for _, a := range nss {
					if ns != "" && a != ns {
						continue
					}
					k := fakeKey{c, s.R, a, n}
					x.ops[k] = append(x.ops[k], &fakeOp{kind: "read", v: got[k], from: op.from, to: op.to, status: 200, who: s.Who})
				}
			}
		}
	default:
		want := map[string][2]int{"post": {200, 400}, "put": {200, 404}, "del": {200, 404}}[s.K]
		if rd.Status == 201 && s.K == "post" {
			op.status = 200
		} else if rd.Status == 409 && s.K == "post" {
			op.status = 400
		}
		if op.status != want[0] && op.status != want[1] {
			sim.violate("C18", "status", "%s %s: status %d: %s", rq.Method, rd.URL, rd.Status, short(string(rd.Body), 200))
			op.status = 0
			return
		}
		mut.failed = op.status != 200
		if op.status == 200 && s.K != "del" {
			m := decodeObj(string(rd.Body))
			if v, ok := x.identify(rq.Method+" "+rd.URL, m, key, true); ok && v != s.ID {
				sim.violate("C18", "content", "%s %s: the answer is another version", rq.Method, rd.URL)
			}
		}
	}
}

var allNames = []string{"web-1", "x", "y.z", "api-1"}

func (x *fakeRun) selector(q *QSpec) string {
	p := page.Paginate{}
	if cl := x.clusters(q); len(cl) > 0 {
		if err := p.Clusters(cl); err != nil {
			harnessFail("Clusters: %v", err)
		}
	}
	lo, err := page.QueryListOptions(metav1.ListOptions{}, p)
	if err != nil {
		harnessFail("QueryListOptions: %v", err)
	}
	return lo.LabelSelector
}

// identify finds which write an object comes from (x.mu held).
func (x *fakeRun) identify(what string, m map[string]interface{}, key fakeKey, single bool) (int, bool) {
	v := 0
	fmt.Sscan(jstr(m, "metadata", "labels", "simv"), &v)
	want := x.bodies[v]
	if want == nil {
		sim.violate("C18", "fabricated", "%s: an object nobody wrote: %s", what, short(fmt.Sprint(m), 300))
		return 0, false
	}
	if jstr(m, "metadata", "name") != key.name || jstr(m, "metadata", "namespace") != key.ns {
		sim.violate("C18", "wrong-object", "%s: %s/%s instead of %s/%s", what, jstr(m, "metadata", "namespace"), jstr(m, "metadata", "name"), key.ns, key.name)
		return 0, false
	}
	bs, _ := json.Marshal(want)
	wm := decodeObj(string(bs))
	normMeta(wm)
	normMeta(m)
	if !single {
		for _, f := range []string{"kind", "apiVersion"} {
			if _, ok := m[f]; !ok {
				m[f] = wm[f]
			}
		}
	}
	if d := jsonDiff("", wm, m); d != "" {
		sim.violate("C18", "content", "%s: differs from what was written: %s", what, d)
		return 0, false
	}
	return v, true
}

func (x *fakeRun) watch(s *Step) {
	rt := &resTypes[s.R]
	ns := s.NS
	if !rt.Namespaced {
		ns = ""
	}
	fw := &fakeWatch{s: s, id: fmt.Sprintf("w%d", s.ID), end: -1, gone: -1, hdrMS: -1, clusters: x.clusters(s.Q)}
	q := url.Values{}
	if sel := x.selector(s.Q); sel != "" {
		q.Set("labelSelector", sel)
	}
	path := rt.path(ns, "")
	switch s.V {
	case 0:
		path = rt.watchPath(ns)
	case 1:
		q.Set("watch", "1")
	default:
		q.Set("watch", "true")
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	tr := &http.Transport{DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
		c, err := simnet.dial(ctx, "watcher-"+fw.id, addr, 30*time.Second, time.Time{})
		x.mu.Lock()
		fw.conn = c
		x.mu.Unlock()
		return c, err
	}, DisableCompression: true}
	if s.D > 0 {
		tm := time.AfterFunc(time.Duration(s.D)*time.Millisecond, func() {
			x.mu.Lock()
			if fw.end < 0 {
				fw.gone = nowMS()
				sim.fault("client-disconnect")
			}
			x.mu.Unlock()
			cancel()
		})
		defer tm.Stop()
	}
	req, _ := http.NewRequestWithContext(ctx, "GET", "http://ckube:80"+path+"?"+q.Encode(), nil)
	x.mu.Lock()
	x.watches = append(x.watches, fw)
	x.mu.Unlock()
	fw.from = sim.logf("client watch %s %s %s", fw.id, path, q.Encode())
	start := nowMS()
	resp, err := (&http.Client{Transport: tr}).Do(req)
	if err != nil {
		x.mu.Lock()
		fw.end, fw.err = nowMS(), err.Error()
		if fw.gone < 0 && len(x.resets) == 0 && nowMS()-start < 15000 {
			sim.violate("C18", "no-watch", "watch %s: %v", fw.id, err)
		}
		x.mu.Unlock()
		return
	}
	fw.status = resp.StatusCode
	fw.hdrMS = nowMS()
	fw.hdr = sim.logf("client watch %s established %d", fw.id, fw.status)
	buf := make([]byte, 4096)
	n := int64(0)
	for {
		k, err := resp.Body.Read(buf)
		x.mu.Lock()
		fw.raw.Write(buf[:k])
		if err != nil {
			fw.end, fw.err = nowMS(), err.Error()
			x.mu.Unlock()
			break
		}
		x.mu.Unlock()
		n++
		if n == s.N && s.M > 0 {
			sim.fault("client-stall")
			fw.slow = true
			sleepMS(s.M)
		}
	}
	_ = resp.Body.Close()
	tr.CloseIdleConnections()
	sim.logf("client watch %s end %s", fw.id, fw.err)
}

func (x *fakeRun) check(settled int64) {
	x.mu.Lock()
	defer x.mu.Unlock()
	clean := x.ops[fakeKey{}]
	delete(x.ops, fakeKey{})
	var keys []fakeKey
	for k := range x.ops {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, k := range keys {
		ops := append(append([]*fakeOp(nil), x.ops[k]...), clean...)
		if len(ops) == 0 {
			continue
		}
		sim.probe("key-checked")
		switch linearizable(ops) {
		case 0:
			sort.Slice(ops, func(i, j int) bool { return ops[i].from < ops[j].from })
			var l []string
			for _, o := range ops {
				l = append(l, fmt.Sprintf("[%d,%d] %s %s v%d -> %d", o.from, o.to, o.who, o.kind, o.v, o.status))
			}
			sim.violate("C18", "not-linearizable", "%v: %s", k, strings.Join(l, "; "))
			return
		case 2:
			sim.probe("key-too-long")
		}
	}
	for _, fw := range x.watches {
		x.checkWatch(fw, settled)
	}
	x.checkOrder()
	seen := map[string]int{}
	for _, e := range x.events {
		id := x.eventKey(e)
		seen[id]++
		n := 0
		for _, m := range x.muts {
			if !m.failed && mutKey(m) == id && e.Cluster == m.key.c && e.Namespace == m.key.ns && e.Name == m.key.name && (GVR{e.Group, e.Version, e.Resource}) == resTypes[m.key.r].GVR {
				n++
			}
		}
		if seen[id] > n {
			sim.violate("C18", "event", "Events() delivered %s %d times, it was done %d times", id, seen[id], n)
		}
		sim.probe("events-checked")
	}
}

func (x *fakeRun) eventKey(e fake.Event) string {
	t := map[fake.EventAction]string{fake.EventActionAdd: "ADDED", fake.EventActionUpdate: "MODIFIED", fake.EventActionDelete: "DELETED"}[e.EventAction]
	if t == "DELETED" {
		return t + fmt.Sprint(e.Cluster, e.Group, e.Version, e.Resource, e.Namespace, e.Name)
	}
	return t + e.Raw
}

func mutKey(m *fakeMut) string {
	if m.typ == "DELETED" {
		return m.typ + fmt.Sprint(m.key.c, resTypes[m.key.r].Group, resTypes[m.key.r].Version, resTypes[m.key.r].Resource, m.key.ns, m.key.name)
	}
	return m.typ + m.text
}

// checkWatch verifies that a watcher saw every change it asked for, once, in
// order.
func (x *fakeRun) checkWatch(fw *fakeWatch, settled int64) {
	if fw.hdrMS < 0 {
		return
	}
	s := fw.s
	rt := &resTypes[s.R]
	ns := s.NS
	if !rt.Namespaced {
		ns = ""
	}
	what := fmt.Sprintf("watch %s (%s in %q of %v, established %d, client left %d, end %d %s)", fw.id, rt.Resource, ns, fw.clusters, fw.hdrMS, fw.gone, fw.end, fw.err)
	if fw.status != 200 {
		sim.violate("C18", "no-watch", "%s: status %d", what, fw.status)
		return
	}
	reset := false
	for _, t := range x.resets {
		reset = reset || t >= fw.hdrMS-2000
	}
	if fw.end >= 0 && !reset && (fw.gone < 0 || fw.end < fw.gone) && fw.end-fw.hdrMS < 600000 {
		sim.violate("C18", "ended-early", "%s: the stream ended", what)
	}
	cls := fw.clusters
	mine := func(m *fakeMut) bool {
		return m.key.r == s.R && (ns == "" || m.key.ns == ns) && (len(cls) == 0 || contains(cls, m.key.c))
	}
	used := map[*fakeMut]bool{}
	state := map[fakeKey]int{}
	known := map[fakeKey]bool{}
	var got []*fakeMut
	d := json.NewDecoder(bytes.NewReader(fw.raw.Bytes()))
	d.UseNumber()
	for {
		var e struct {
			Type   string
			Object json.RawMessage
		}
		if err := d.Decode(&e); err != nil {
			if rest := fw.raw.Bytes()[d.InputOffset():]; len(bytes.TrimSpace(rest)) > 0 && fw.gone < 0 && !reset {
				sim.violate("C18", "garbled", "%s: not an event: %s", what, short(string(rest), 200))
				return
			}
			break
		}
		obj := decodeObj(string(e.Object))
		v := 0
		fmt.Sscan(jstr(obj, "metadata", "labels", "simv"), &v)
		if sent := x.texts[v]; sent != "" && jstr(decodeObj(sent), "metadata", "namespace") == "" {
			// an event may show the object as it was sent
			if meta, ok := obj["metadata"].(map[string]interface{}); ok && jstr(obj, "metadata", "namespace") == "" {
				if full := jstr(x.bodies[v], "metadata", "namespace"); full != "" {
					meta["namespace"] = full
				}
			}
		}
		var m *fakeMut
		nsn, name := jstr(obj, "metadata", "namespace"), jstr(obj, "metadata", "name")
		for _, c := range x.muts {
			if used[c] || c.failed || c.typ != e.Type || !mine(c) || c.key.name != name || c.key.ns != nsn {
				continue
			}
			if e.Type != "DELETED" {
				if c.v == v {
					m = c
					break
				}
				continue
			}
			// the deletion of this state: of the right cluster and in time
			if w := x.bodies[v]; w == nil || x.clusterOf(v) != c.key.c || c.op.to < fw.from {
				continue
			}
			if m == nil || c.op.from < m.op.from {
				m = c
			}
		}
		if m == nil {
			sim.violate("C18", "event", "%s: event %s v%d %s/%s does not stand for a change that was made since the watch, or is delivered twice", what, e.Type, v, nsn, name)
			return
		}
		used[m] = true
		if m.op.to < fw.from {
			sim.violate("C18", "event", "%s: event %s v%d %s/%s is from before the watch", what, e.Type, v, nsn, name)
			return
		}
		normMeta(obj)
		bs, _ := json.Marshal(x.bodies[v])
		wm := decodeObj(string(bs))
		normMeta(wm)
		if diff := jsonDiff("", wm, obj); diff != "" {
			sim.violate("C18", "content", "%s: event %s v%d %s/%s: %s", what, e.Type, v, nsn, name, diff)
			return
		}
		// a legal history of the object
		if known[m.key] && !x.cleaned {
			cur := state[m.key]
			switch {
			case e.Type == "ADDED" && cur != 0, e.Type == "MODIFIED" && cur == 0, e.Type == "DELETED" && cur != v:
				sim.violate("C18", "event-order", "%s: %s v%d of %v after the object was at v%d", what, e.Type, v, m.key, cur)
				return
			}
		}
		known[m.key] = true
		state[m.key] = v
		if e.Type == "DELETED" {
			state[m.key] = 0
		}
		for _, o := range got {
			if m.op.to < o.op.from {
				if e.Type == "DELETED" || o.typ == "DELETED" {
					continue // which of several deletions it was is a guess
				}
				sim.violate("C18", "event-order", "%s: %s v%d came after v%d, which was written later", what, e.Type, v, o.v)
				return
			}
		}
		got = append(got, m)
		fw.events = append(fw.events, fakeEvent{typ: e.Type, key: m.key, v: v})
		sim.probe("watch-event-checked")
	}
	if fw.gone >= 0 && fw.gone < settled || reset {
		return
	}
	miss := 0
	for _, m := range x.muts {
		if m.failed || m.op.status != 200 || !mine(m) || m.op.from < fw.hdr || used[m] {
			continue
		}
		if m.typ == "DELETED" {
			miss++
			continue
		}
		sim.violate("C18", "event-lost", "%s: %s v%d of %v, made at [%d,%d] after the watch was established at %d, never arrived", what, m.typ, m.v, m.key, m.op.from, m.op.to, fw.hdr)
		return
	}
	// deletions can only be counted
	if miss > 0 {
		n, min, max := map[fakeKey]int{}, map[fakeKey]int{}, map[fakeKey]int{}
		for _, e := range fw.events {
			if e.typ == "DELETED" {
				n[e.key]++
			}
		}
		for _, m := range x.muts {
			if m.typ != "DELETED" || !mine(m) || m.failed {
				continue
			}
			if m.op.to >= fw.from {
				max[m.key]++
			}
			if m.op.status == 200 && m.op.from >= fw.hdr {
				min[m.key]++
			}
		}
		for k, c := range min {
			if n[k] < c {
				sim.violate("C18", "event-lost", "%s: %d deletions of %v since, only %d arrived", what, c, k, n[k])
				return
			}
		}
	}
}

func (x *fakeRun) clusterOf(v int) string {
	for _, m := range x.muts {
		if m.v == v && m.typ != "DELETED" {
			return m.key.c
		}
	}
	return ""
}

// checkOrder verifies that all watchers saw the same order.
func (x *fakeRun) checkOrder() {
	pos := make([]map[fakeEvent]int, len(x.watches))
	for i, fw := range x.watches {
		pos[i] = map[fakeEvent]int{}
		for k, e := range fw.events {
			pos[i][e] = k
		}
	}
	for i, fw := range x.watches {
		for j := range x.watches {
			if j == i {
				continue
			}
			last, le := -1, fakeEvent{}
			for _, e := range fw.events {
				p, ok := pos[j][e]
				if !ok {
					continue
				}
				if p < last {
					sim.violate("C18", "event-order", "watches %s and %s disagree on the order of %v and %v", fw.id, x.watches[j].id, le, e)
					return
				}
				last, le = p, e
			}
		}
	}
}

// linearizable searches an order of the operations on one object: 0 none, 1
// found, 2 given up.
func linearizable(ops []*fakeOp) int {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].from < ops[j].from })
	if len(ops) > 60 {
		return 2
	}
	type st struct {
		done uint64
		v    int
	}
	seen := map[st]bool{}
	budget := 300000
	all := uint64(0)
	for i, o := range ops {
		if o.status != 0 || o.kind == "read" {
			all |= 1 << i
		}
	}
	var rec func(done uint64, v int) bool
	rec = func(done uint64, v int) bool {
		if done&all == all {
			return true
		}
		k := st{done, v}
		if seen[k] || budget <= 0 {
			return false
		}
		seen[k] = true
		budget--
		least := int64(1) << 62
		for i, o := range ops {
			if done&(1<<i) == 0 && all&(1<<i) != 0 && o.to < least {
				least = o.to
			}
		}
		for i, o := range ops {
			if done&(1<<i) != 0 || o.from > least {
				continue
			}
			next, ok := v, true
			switch o.kind {
			case "read":
				ok = o.v == v
			case "clean":
				next = 0
			case "post":
				ok = o.status == 0 || (o.status == 200) == (v == 0)
				if v == 0 && o.status != 400 {
					next = o.v
				}
			case "put":
				ok = o.status == 0 || (o.status == 200) == (v != 0)
				if v != 0 && o.status != 404 {
					next = o.v
				}
			case "del":
				ok = o.status == 0 || (o.status == 200) == (v != 0)
				if v != 0 && o.status != 404 {
					next = 0
				}
			}
			if ok && rec(done|1<<i, next) {
				return true
			}
		}
		return false
	}
	if rec(0, 0) {
		return 1
	}
	if budget <= 0 {
		return 2
	}
	return 0
}
