package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	cacheproxysim "github.com/DaoCloud/ckube/cmd/zz_sim_cacheproxy"
	"github.com/DaoCloud/ckube/page"
	"github.com/fsnotify/fsnotify"
	"github.com/prometheus/client_golang/prometheus"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

const (
	configPath = "config/local.json"
)

// World is the simulated deployment: API servers, ckube and its clients.
type World struct {
	p       *Plan
	kubes   []*Kube
	byName  map[string]*Kube
	mu      sync.Mutex
	reads   []*Read
	watches []*ClientWatch
	idleMS  int64 // when the last client finished
	upMS    int64 // when ckube was found listening
	foot    *footprint
	confs   []*ConfEvent
	clients map[string]*http.Client
	exited  bool
	exitMsg string
	swapGen int
	healMS  int64
	faults  []faultSpan
	openErr map[string]int // file name -> number of opens to fail
	addErr  int
	pending int
	idle    *sync.Cond
}

type faultSpan struct {
	Kind     string
	C        int
	From, To int64
}

// ConfEvent is one change of the configuration files.
type ConfEvent struct {
	Gen     int
	StartMS int64
	DoneMS  int64
	What    string
	Faulty  bool // reading the files was made to fail
	Wrote   bool // some file was touched
}

// Read is one request a client made and what came back.
type Read struct {
	Who        string
	Step       *Step
	Kind       string
	Method     string
	URL        string
	C          int
	T0, T1     int64
	Sent       int64 // when all of a raw request was sent
	Seq0, Seq1 int64
	Status     int
	Body       []byte
	Header     http.Header
	Err        string
	Token      string
	Final      bool
}

var world *World

func (w *World) lock()   { runtime.SimNoMap(1); w.mu.Lock() }
func (w *World) unlock() { w.mu.Unlock(); runtime.SimNoMap(-1) }

func clusterHost(name string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '_' {
			return r
		}
		return '-'
	}, name) + ".sim"
}

// host is the address of a cluster. A cluster has two, which lead to the same
// API server.
func (c *Conf) host(i int, name string) string {
	if c.moved(i) {
		return otherHost + clusterHost(name)
	}
	return clusterHost(name)
}

const otherHost = "other."

// ------------------------------------------------------------ configuration

// kubePath is where the kube config is.
func (w *World) kubePath() string {
	switch w.p.Mode {
	case "home":
		return "home/.kube/config"
	case "env":
		return "env/kubeconfig"
	}
	return "kube/config"
}

func (w *World) confJSON(c *Conf) []byte {
	var proxies []map[string]interface{}
	for _, r := range c.Res {
		rt := resTypes[r]
		ix := map[string]string{}
		for _, d := range idxVariants[c.Idx] {
			ix[d.key] = d.expr
		}
		proxies = append(proxies, map[string]interface{}{"group": rt.Group, "version": rt.Version, "resource": rt.Resource, "list_kind": rt.Kind + "List", "index": ix})
	}
	for i := 0; i < c.Dup && i < len(c.Res); i++ {
		proxies = append(proxies, proxies[i])
	}
	m := map[string]interface{}{"proxies": proxies, "default_cluster": "default", "token": c.Token}
	if w.p.Mode == "env" {
		if name := w.p.Clusters[c.Default]; name != "default" {
			m["default_cluster"] = name
		} else if w.p.Seed&1 == 0 {
			delete(m, "default_cluster")
		}
	}
	bs, _ := json.MarshalIndent(m, "", "  ")
	switch c.Bad {
	case "trunc":
		bs = bs[:len(bs)/2]
	case "empty":
		bs = nil
	case "type":
		bs = []byte(`{"proxies": "none", "token": 5}`)
	case "garbage":
		bs = []byte("<<<<<<< HEAD\nnot json\n")
	}
	return bs
}

func (w *World) kubeJSON(c *Conf) []byte {
	var b bytes.Buffer
	cur := ""
	if c.Default >= 0 {
		cur = w.p.Clusters[c.Default]
	}
	fmt.Fprintf(&b, "apiVersion: v1\nkind: Config\ncurrent-context: %q\n", cur)
	b.WriteString("clusters:\n")
	for _, i := range c.Clusters {
		fmt.Fprintf(&b, "- name: %q\n  cluster:\n    server: http://%s:8080%s\n", "cl-"+w.p.Clusters[i], c.host(i, w.p.Clusters[i]), w.p.base(i))
	}
	b.WriteString("users:\n")
	for _, i := range c.Clusters {
		fmt.Fprintf(&b, "- name: %q\n  user:\n    token: %q\n", "user-"+w.p.Clusters[i], "tok-"+w.p.Clusters[i])
	}
	b.WriteString("contexts:\n")
	for _, i := range c.Clusters {
		fmt.Fprintf(&b, "- name: %q\n  context:\n    cluster: %q\n    user: %q\n", w.p.Clusters[i], "cl-"+w.p.Clusters[i], "user-"+w.p.Clusters[i])
	}
	bs := b.Bytes()
	switch c.KBad {
	case "trunc":
		bs = bs[:len(bs)*2/3]
		bs = append(bs, []byte("\n  - : [")...)
	case "garbage":
		bs = []byte("\t\x00{{{ not yaml")
	case "empty":
		bs = nil
	case "nocert": // a cluster whose certificate file is missing
		bs = bytes.Replace(bs, []byte("  cluster:\n    server:"), []byte("  cluster:\n    certificate-authority: missing.crt\n    server:"), 1)
	}
	return bs
}

// ------------------------------------------------------------ clients

func (w *World) client(who string) *http.Client {
	w.lock()
	defer w.unlock()
	if c := w.clients[who]; c != nil {
		return c
	}
	tr := &http.Transport{
		DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
			return simnet.dial(ctx, "client-"+who, addr, 30*time.Second, time.Time{})
		},
		MaxIdleConnsPerHost: 4,
		DisableCompression:  true,
	}
	c := &http.Client{Transport: tr}
	w.clients[who] = c
	return c
}

// do sends a request to ckube and records it.
func (w *World) do(who string, step *Step, kind string, rq *HTTPRq, timeout time.Duration) *Read {
	u := "http://ckube:80" + rq.Path
	if rq.Query != "" {
		u += "?" + rq.Query
	}
	rd := &Read{Who: who, Step: step, Kind: kind, Method: rq.Method, URL: rq.Path + "?" + rq.Query, C: -1, T0: nowMS(), T1: -1}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	var body io.Reader
	if rq.Body != "" {
		body = strings.NewReader(rq.Body)
	}
	req, err := http.NewRequestWithContext(ctx, rq.Method, u, body)
	if err != nil {
		harnessFail("bad request %s %s: %v", rq.Method, u, err)
	}
	for _, k := range sortedKeys(rq.Header) {
		req.Header.Set(k, rq.Header[k])
	}
	w.elsewhere(step, req)
	rd.Seq0 = sim.logf("client %s %s %s %s", who, kind, rq.Method, rd.URL)
	w.lock()
	w.reads = append(w.reads, rd)
	w.unlock()
	resp, err := w.client(who).Do(req)
	if err == nil {
		rd.Status = resp.StatusCode
		rd.Header = resp.Header
		rd.Body, err = io.ReadAll(resp.Body)
		_ = resp.Body.Close()
	}
	rd.T1 = nowMS()
	if err != nil {
		rd.Err = err.Error()
		if errors.Is(err, context.DeadlineExceeded) {
			rd.Err = "timeout"
		}
	}
	rd.Seq1 = sim.logf("client %s %s -> %d %s %x", who, kind, rd.Status, rd.Err, hash64(string(rd.Body)))
	return rd
}

func (w *World) stepHeader(s *Step) map[string]string {
	if a := w.authOf(s); a != "" {
		return map[string]string{"Authorization": a}
	}
	return nil
}

func (w *World) authHeader(tok string) map[string]string {
	if tok == "" {
		return nil
	}
	return map[string]string{"Authorization": "Bearer " + tok}
}

// listQuery turns a query into the labelSelector the SDK would send.
func (w *World) listQuery(q *QSpec) string {
	v := url.Values{}
	sel := q.Labels
	p := w.paginate(q)
	lo, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: sel}, p)
	if err != nil {
		harnessFail("QueryListOptions: %v", err)
	}
	if lo.LabelSelector != "" {
		v.Set("labelSelector", lo.LabelSelector)
	}
	return v.Encode()
}

// badAdv: the search holds an advanced part that is no selector.
func (q *QSpec) badAdv() bool {
	for _, part := range q.Parts {
		if strings.HasPrefix(part, advPrefix) && badSelector[part[len(advPrefix):]] {
			return true
		}
	}
	return false
}

func (w *World) paginate(q *QSpec) page.Paginate {
	p := page.Paginate{Page: q.Page, PageSize: q.Size, Sort: q.Sort}
	parts := q.Parts
	if q.Eq && len(q.Clusters) == 1 && !q.AllCl && !q.badAdv() {
		parts = append([]string{advPrefix + "cluster=" + w.p.Clusters[q.Clusters[0]]}, parts...)
	}
	p.SetSearchWithParts(parts)
	if len(parts) == 0 {
		p.Search = ""
	}
	if q.badAdv() {
		return p // the SDK refuses to add clusters, some other client just sends it
	}
	if q.AllCl {
		if err := p.Clusters(w.p.Clusters); err != nil {
			harnessFail("Clusters: %v", err)
		}
	} else if len(q.Clusters) > 0 && !(q.Eq && len(q.Clusters) == 1) {
		var cs []string
		for _, c := range q.Clusters {
			cs = append(cs, w.p.Clusters[c])
		}
		if err := p.Clusters(cs); err != nil {
			harnessFail("Clusters: %v", err)
		}
	}
	if len(q.Namespaces) > 0 {
		if err := p.Namespaces(q.Namespaces); err != nil {
			harnessFail("Namespaces: %v", err)
		}
	}
	return p
}

// ------------------------------------------------------------ watches

// ClientWatch is one watch a client opened through ckube.
type ClientWatch struct {
	Who     string
	Step    *Step
	ID      string
	OpenMS  int64
	HdrMS   int64
	Status  int
	Lines   []ClientLine
	EndMS   int64
	EndErr  string
	Partial string
	Cancel  int64 // when the client hung up (-1: never)
	Stalled bool
}

// ClientLine is one line a client received.
type ClientLine struct {
	AtMS int64
	Text string
}

func (w *World) clientWatch(s *Step) {
	rt := &resTypes[s.R]
	id := fmt.Sprintf("w%d", s.ID)
	v := url.Values{}
	sel := "simwatch!=" + id
	if s.Q != nil {
		lo, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: sel}, w.paginate(s.Q))
		if err != nil {
			harnessFail("QueryListOptions: %v", err)
		}
		sel = lo.LabelSelector
	}
	v.Set("labelSelector", sel)
	v.Set("simreq", id)
	path := rt.path(s.NS, "")
	if s.Name == "path" {
		path = rt.watchPath(s.NS)
	} else {
		v.Set("watch", s.Pick3(s.V, "true", "1", "True"))
	}
	xs, _ := url.ParseQuery(s.X)
	for x := range xs {
		v.Set(x, xs.Get(x))
	}
	switch s.S {
	case "dsm":
		v.Set("resourceVersion", "dsm-cluster-"+w.p.clusterName(s.C))
	case "cluster":
		v.Set("cluster", w.p.clusterName(s.C))
	}
	cw := &ClientWatch{Who: s.Who, Step: s, ID: id, OpenMS: nowMS(), EndMS: -1, HdrMS: -1, Cancel: -1}
	w.lock()
	w.watches = append(w.watches, cw)
	w.unlock()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if s.D > 0 {
		tm := time.AfterFunc(time.Duration(s.D)*time.Millisecond, func() {
			if cw.EndMS < 0 {
				cw.Cancel = nowMS()
				sim.fault("client-disconnect")
			}
			cancel()
		})
		defer tm.Stop()
	}
	u := "http://ckube:80" + path + "?" + v.Encode()
	req, _ := http.NewRequestWithContext(ctx, "GET", u, nil)
	if a := w.authOf(s); a != "" {
		req.Header.Set("Authorization", a)
	}
	sim.logf("client watch %s %s", id, u)
	tr := &http.Transport{DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
		return simnet.dial(ctx, "watcher-"+id, addr, 30*time.Second, time.Time{})
	}, DisableCompression: true}
	resp, err := (&http.Client{Transport: tr}).Do(req)
	if err != nil {
		cw.EndMS = nowMS()
		cw.EndErr = err.Error()
		sim.logf("client watch %s failed %v", id, err)
		return
	}
	cw.Status = resp.StatusCode
	cw.HdrMS = nowMS()
	br := bufio.NewReaderSize(resp.Body, 1<<20)
	n := 0
	for {
		line, err := br.ReadString('\n')
		if err != nil {
			cw.EndMS = nowMS()
			cw.EndErr = err.Error()
			cw.Partial = line
			break
		}
		cw.Lines = append(cw.Lines, ClientLine{nowMS(), line})
		sim.logf("client watch %s line %x", id, hash64(line))
		n++
		if s.N > 0 && int64(n) == s.N {
			// a slow client: stops reading for a while
			sim.fault("client-stall")
			cw.Stalled = true
			sleepMS(s.M)
		}
	}
	_ = resp.Body.Close()
	tr.CloseIdleConnections()
	sim.logf("client watch %s end %s", id, cw.EndErr)
}

// Pick3 chooses by value.
func (s *Step) Pick3(v uint64, a ...string) string { return a[v%uint64(len(a))] }

// ------------------------------------------------------------ running

func runPlan(p *Plan, resultPath string) {
	sim = newSim(p, resultPath)
	if p.Verbose {
		sim.logOut = os.Stderr
	}
	unregisterCollectors()
	runtime.SimStart(p.Seed, int32(p.Sched.Pick), uint32(p.Sched.MapProb), yieldHook)
	runtime.SimRun(func() {
		defer hguard()
		runtime.SimNoMap(1)
		sim.start = time.Now()
		switch p.Profile {
		case "store":
			runStore(p)
		case "fake":
			runFake(p)
		default:
			runWorld(p)
		}
		sim.finish("")
	})
}

func unregisterCollectors() {
	prometheus.Unregister(prometheus.NewGoCollector())
	prometheus.Unregister(prometheus.NewProcessCollector(prometheus.ProcessCollectorOpts{}))
}

func runWorld(p *Plan) {
	w := &World{p: p, byName: map[string]*Kube{}, clients: map[string]*http.Client{}, openErr: map[string]int{}}
	w.idle = sync.NewCond(&w.mu)
	world = w
	if len(p.Scrape) > 0 {
		prometheus.MustRegister(&slowCollector{ms: p.Scrape})
	}
	simnet = newSimNet(p.Seed, p.Latency)
	simnet.install()
	for _, c := range p.Clusters {
		k := newKube(c, clusterHost(c))
		k.labels = p.Labels
		k.watchLimit = time.Duration(p.WatchLimitS) * time.Second
		if len(w.kubes) < len(p.Bases) {
			k.base = p.Bases[len(w.kubes)]
		}
		if p.RV0 > 0 {
			k.rv = p.RV0
		}
		w.kubes = append(w.kubes, k)
		w.byName[c] = k
		simnet.link(k.host).maxSeg = p.MaxSeg
	}
	simnet.link("ckube").maxSeg = p.MaxSeg
	if err := os.MkdirAll(filepath.Dir(configPath), 0o755); err != nil {
		harnessFail("%v", err)
	}
	if err := os.MkdirAll(filepath.Dir(w.kubePath()), 0o755); err != nil {
		harnessFail("%v", err)
	}
	_ = os.WriteFile(configPath, w.confJSON(&p.Confs[0]), 0o644)
	_ = os.WriteFile(w.kubePath(), w.kubeJSON(&p.Confs[0]), 0o644)
	fsHold(configPath)
	fsHold(w.kubePath())
	if p.Linked {
		w.swapGen = 2
		fsSwap(configPath, w.confJSON(&p.Confs[0]), 1)
		fsSwap(w.kubePath(), w.kubeJSON(&p.Confs[0]), 2)
	}
	w.confs = append(w.confs, &ConfEvent{Gen: 0, What: "start"})
	os.SimOpen = func(name string, flag int) error {
		w.lock()
		defer w.unlock()
		if n := w.openErr[filepath.Base(name)]; n > 0 && flag&(os.O_WRONLY|os.O_RDWR) == 0 {
			w.openErr[filepath.Base(name)]--
			if n > 100 { // the first one is spared
				w.openErr[filepath.Base(name)] -= 100
				return nil
			}
			sim.faults["disk-open-error"]++
			return syscall.EIO
		}
		return nil
	}
	fsnotify.SimAddErr = func(name string) error {
		w.lock()
		defer w.unlock()
		if w.addErr > 0 {
			w.addErr--
			sim.faults["inotify-enospc"]++
			return syscall.ENOSPC
		}
		return nil
	}
	for i := range p.Init {
		s := &p.Init[i]
		w.apply(s)
	}
	down := map[int]bool{}
	for i := range p.Steps {
		if p.Steps[i].K == "startdown" {
			down[p.Steps[i].C] = true
			if p.Steps[i].S == "hole" {
				simnet.setMode(w.kubes[p.Steps[i].C].host, linkHole)
			}
		}
	}
	for i, k := range w.kubes {
		if !down[i] {
			k.start()
		} else {
			sim.fault("api-down-at-start")
		}
	}
	// the system under test
	os.SimExit = func(code int) {
		if !runtime.SimInBubble() {
			return
		}
		w.exited = true
		w.exitMsg = fmt.Sprintf("ckube called exit(%d)", code)
		sim.logf("SUT exit %d", code)
		select {}
	}
	os.Args = []string{"ckube", "-c", configPath, "-a", ":80"}
	_ = os.Setenv("HOME", "home")
	switch p.Mode {
	case "": // the kube config is named
		os.Args = append(os.Args, "-k", w.kubePath())
	case "home": // it is where kubectl looks for it
	case "env": // it says where the only cluster is, as a Pod's surroundings do
		_ = os.Setenv("KUBECONFIG", w.kubePath())
	}
	flag.CommandLine = flag.NewFlagSet("ckube", flag.ContinueOnError)
	sched.setup(p.Sched, p.Seed)
	for i := range p.Steps {
		if s := &p.Steps[i]; s.Who == "early" { // while ckube starts
			w.begin()
			hgo(func() {
				sleepUntil(s.At)
				w.apply(s)
				w.end()
			})
		}
	}
	runtime.SimNoMap(-1)
	go func() {
		cacheproxysim.SimMain()
		if !w.exited {
			w.exited = true
			w.exitMsg = "main returned"
			sim.logf("SUT main returned")
		}
	}()
	runtime.SimNoMap(1)
	w.awaitUp()
	w.upMS = nowMS()

	// the plan
	byWho := map[string][]*Step{}
	var order []string
	for i := range p.Steps {
		s := &p.Steps[i]
		if s.Who == "early" {
			continue
		}
		if s.Who == "" {
			w.begin()
			hgo(func() {
				sleepUntil(s.At)
				if s.Hold > 0 {
					sched.awaitHold(s.Hold)
				}
				w.apply(s)
				w.end()
			})
			continue
		}
		if byWho[s.Who] == nil {
			order = append(order, s.Who)
		}
		byWho[s.Who] = append(byWho[s.Who], s)
	}
	for _, who := range order {
		steps := byWho[who]
		sort.SliceStable(steps, func(i, j int) bool { return steps[i].At < steps[j].At })
		w.begin()
		hgo(func() {
			for _, s := range steps {
				sleepUntil(s.At)
				if s.Hold > 0 {
					sched.awaitHold(s.Hold)
				}
				w.apply(s)
			}
			w.end()
		})
	}
	sleepUntil(p.HorizonMS)
	w.healAll()
	w.healMS = nowMS()
	sim.logf("healed")
	w.waitIdle()
	w.idleMS = nowMS()
	sleepUntil(p.HorizonMS + p.SettleMS)
	if p.Property == "C17" {
		w.quiet()
		w.foot = takeFootprint()
	}
	finalChecks(w)
}

// harnessRead reads a file without the faults meant for ckube.
func harnessRead(path string) ([]byte, error) {
	old := os.SimOpen
	os.SimOpen = nil
	defer func() { os.SimOpen = old }()
	return os.ReadFile(path)
}

func (w *World) begin() {
	w.lock()
	w.pending++
	w.unlock()
}

func (w *World) end() {
	w.lock()
	w.pending--
	w.idle.Broadcast()
	w.unlock()
}

// waitIdle waits (in simulated time) for the plan's actors.
func (w *World) waitIdle() {
	dead := nowMS() + 45*60*1000
	for {
		w.lock()
		n := w.pending
		w.unlock()
		if n == 0 {
			return
		}
		if nowMS() > dead {
			sim.logf("%d actors still busy", n)
			return
		}
		sleepMS(1000)
	}
}

// awaitUp waits for ckube to listen.
func (w *World) awaitUp() {
	for i := 0; i < 600; i++ {
		simnet.lock()
		up := simnet.listeners["ckube:80"] != nil
		simnet.unlock()
		if up || w.exited {
			return
		}
		sleepMS(100)
	}
}

func (w *World) healAll() {
	for _, k := range w.kubes {
		if !k.up {
			k.start()
		}
		simnet.setMode(k.host, linkUp)
		simnet.lock()
		simnet.link(k.host).extraMS = 0
		simnet.unlock()
		k.lock()
		k.err5xx = 0
		k.slowMS = 0
		k.hang = false
		k.hangCond.Broadcast()
		k.watchFault = nil
		k.respFault = nil
		k.unlock()
	}
	w.lock()
	w.openErr = map[string]int{}
	w.addErr = 0
	w.unlock()
	simnet.setMode("ckube", linkUp)
}

func (w *World) span(kind string, c int, from, to int64) {
	w.lock()
	w.faults = append(w.faults, faultSpan{kind, c, from, to})
	w.unlock()
}

// apply performs one step.
func (w *World) apply(s *Step) {
	var k *Kube
	if s.C >= 0 && s.C < len(w.kubes) {
		k = w.kubes[s.C]
	}
	rt := &resTypes[s.R]
	switch s.K {
	case "startdown":
		// the API server comes up late
		w.span(s.K, s.C, 0, nowMS())
		k.start()
		if s.S == "hole" {
			simnet.setMode(k.host, linkUp)
		}
	case "put":
		k.put(rt, s.NS, s.Name, genBody(rt, s.NS, s.Name, s.V))
	case "del":
		k.del(rt, s.NS, s.Name)
	case "delall":
		for _, key := range sortedKeys(k.current(rt.GVR)) {
			p := strings.SplitN(key, "/", 2)
			k.del(rt, p[0], p[1])
		}
	case "burst":
		for i := int64(0); i < s.N; i++ {
			k.put(rt, s.NS, s.Name, genBody(rt, s.NS, s.Name, s.V+uint64(i)))
		}

	// faults
	case "crash": // the API server dies and comes back after D
		if !k.up {
			return
		}
		sim.fault("api-crash")
		from := nowMS()
		w.span(s.K, s.C, from, from+s.D)
		k.crash()
		sleepMS(s.D)
		k.start()
	case "refuse":
		sim.fault("net-refuse")
		w.span(s.K, s.C, nowMS(), nowMS()+s.D)
		simnet.setMode(k.host, linkRefuse)
		simnet.resetAll(k.host)
		sleepMS(s.D)
		simnet.setMode(k.host, linkUp)
	case "hole":
		sim.fault("net-partition")
		w.span(s.K, s.C, nowMS(), nowMS()+s.D)
		simnet.setMode(k.host, linkHole)
		sleepMS(s.D)
		simnet.setMode(k.host, linkUp)
	case "rst":
		if simnet.resetAll(k.host) > 0 {
			sim.fault("net-reset")
		}
		w.span(s.K, s.C, nowMS(), nowMS())
	case "slow":
		sim.fault("net-slow")
		simnet.lock()
		simnet.link(k.host).extraMS = s.N
		simnet.unlock()
		sleepMS(s.D)
		simnet.lock()
		simnet.link(k.host).extraMS = 0
		simnet.unlock()
	case "err": // every request fails with a status
		w.span(s.K, s.C, nowMS(), nowMS()+s.D)
		k.lock()
		k.err5xx, k.errBody, k.retryAfter, k.errLeft = int(s.N), s.S, int(s.M), -1
		k.unlock()
		if s.V == 1 {
			simnet.resetAll(k.host)
		}
		sleepMS(s.D)
		k.lock()
		k.err5xx = 0
		k.unlock()
	case "hang":
		sim.fault("api-hang")
		w.span(s.K, s.C, nowMS(), nowMS()+s.D)
		k.lock()
		k.hang = true
		k.unlock()
		sleepMS(s.D)
		k.lock()
		k.hang = false
		k.hangCond.Broadcast()
		k.unlock()
	case "wfault":
		k.lock()
		k.watchFault = append(k.watchFault, &WatchFault{Res: int(s.N), After: int(s.M), Kind: s.S, StMS: s.D, UntilMS: nowMS() + int64(s.V)})
		k.unlock()
	case "rfault":
		k.lock()
		k.respFault = append(k.respFault, &RespFault{Method: s.Name, Kind: s.S, Code: int(s.N), Retry: int(s.M), Left: int(s.D)})
		k.unlock()
	case "cutwatch": // end the open watch streams of a type
		k.lock()
		for _, wt := range k.watches {
			if wt.CloseMS < 0 && (s.N < 0 || wt.G == rt.GVR) {
				wt.stop = true
				wt.cond.Broadcast()
			}
		}
		k.unlock()
		sim.fault("watch-closed")

	// configuration
	case "conf":
		w.changeConf(s)
	case "openerr":
		w.lock()
		w.openErr[s.S] = int(s.N)
		w.unlock()
	case "adderr":
		w.lock()
		w.addErr = int(s.N)
		w.unlock()

	// clients
	case "list":
		hd := w.stepHeader(s)
		if s.S == "table" {
			if hd == nil {
				hd = map[string]string{}
			}
			hd["Accept"] = "application/json;as=Table;v=v1;g=meta.k8s.io,application/json;as=Table;v=v1beta1;g=meta.k8s.io,application/json"
		}
		q := w.listQuery(s.Q)
		if s.C >= 0 { // a marker names the cluster
			if q != "" {
				q += "&"
			}
			switch s.X {
			case "fm":
				q += "fieldManager="
			default:
				q += "resourceVersion="
			}
			q += "dsm-cluster-" + url.QueryEscape(w.p.clusterName(s.C))
		}
		rd := w.do(s.Who, s, "list", &HTTPRq{Method: "GET", Path: rt.path(s.NS, ""), Query: q, Header: hd}, 90*time.Second)
		rd.C = s.C
	case "walk":
		w.walk(s)
	case "get":
		q := ""
		if s.C >= 0 {
			q = "resourceVersion=dsm-cluster-" + url.QueryEscape(w.p.Clusters[s.C])
		}
		rd := w.do(s.Who, s, "get", &HTTPRq{Method: "GET", Path: rt.path(s.NS, s.Name), Query: q, Header: w.stepHeader(s)}, 90*time.Second)
		rd.C = s.C
	case "http":
		w.doRaw(s)
	case "px":
		h := *s.H
		if a := w.authOf(s); a != "" && h.Header["Authorization"] == "" {
			nh := map[string]string{"Authorization": a}
			for hk, hv := range h.Header {
				nh[hk] = hv
			}
			h.Header = nh
		}
		d := 200 * time.Second
		if s.D > 0 {
			d = time.Duration(s.D) * time.Millisecond
		}
		rd := w.do(s.Who, s, s.K, &h, d)
		rd.C = s.C
	case "watch":
		w.clientWatch(s)
	case "svc": // the deployment -> services lookup
		p := "/custom/v1/namespaces/" + s.NS + "/deployments/" + url.PathEscape(s.Name) + "/services"
		if s.C >= 0 {
			p = "/custom/v1/clusters/" + url.PathEscape(w.p.clusterName(s.C)) + "/namespaces/" + s.NS + "/deployments/" + url.PathEscape(s.Name) + "/services"
		}
		rd := w.do(s.Who, s, "svc", &HTTPRq{Method: "GET", Path: p, Header: w.stepHeader(s)}, 90*time.Second)
		rd.C = s.C
	default:
		harnessFail("unknown step %q", s.K)
	}
}

// changeConf writes the files of configuration generation N in the manner S.
func (w *World) changeConf(s *Step) {
	c := &w.p.Confs[s.N]
	// an unusable last change leaves what is in force in force: see to it that
	// the change before it has taken effect, however long it took to write
	if int(s.N) == len(w.p.Confs)-1 && !c.usable() {
		if n := len(w.confs); n > 0 {
			if d := w.confs[n-1].DoneMS + w.convMS() + 1 - nowMS(); d > 0 {
				sleepMS(d)
			}
		}
	}
	ev := &ConfEvent{Gen: int(s.N), StartMS: nowMS(), DoneMS: -1, What: s.S}
	w.lock()
	w.confs = append(w.confs, ev)
	// after a reload that could not read its files, they are touched in any case
	touch := len(w.confs) > 1 && w.confs[len(w.confs)-2].Faulty
	// errors meant for an earlier change do not outlive it
	w.openErr[filepath.Base(configPath)] = 0
	w.openErr[filepath.Base(w.kubePath())] = 0
	w.addErr = 0
	w.unlock()
	sim.fault("conf-" + s.S)
	switch s.Name {
	case "openerr":
		ev.Faulty = true
		w.lock()
		w.openErr[filepath.Base(configPath)] = int(s.V%3) + 1
		w.openErr[filepath.Base(w.kubePath())] = int(s.V % 2)
		w.unlock()
	case "openerr2":
		ev.Faulty = true
		w.lock()
		w.openErr[filepath.Base(w.kubePath())] = 102
		w.unlock()
	case "adderr":
		w.lock()
		w.addErr = int(s.V%3) + 1
		w.unlock()
	}
	bad := [2]string{c.Bad, c.KBad}
	if s.V&1 == 1 {
		bad[0], bad[1] = bad[1], bad[0]
	}
	for _, b := range bad {
		if b != "" {
			sim.fault("conf-bad-" + b)
		}
	}
	files := []struct {
		path string
		data []byte
	}{{configPath, w.confJSON(c)}, {w.kubePath(), w.kubeJSON(c)}}
	if s.V&1 == 1 {
		files[0], files[1] = files[1], files[0]
	}
	for i, f := range files {
		if w.p.Mode == "env" && f.path != configPath {
			continue // nobody promises to look at this one again
		}
		if old, err := harnessRead(f.path); err == nil && bytes.Equal(old, f.data) && s.V&2 == 0 && !touch {
			continue
		}
		ev.Wrote = true
		if i == 1 && s.M > 0 {
			sleepMS(s.M)
		}
		if bad[i] == "gone" {
			fsRemove(f.path)
			continue
		}
		switch s.S {
		case "write":
			fsWrite(f.path, f.data, 1, 0)
		case "parts":
			fsWrite(f.path, f.data, 2, s.D)
		case "replace":
			fsReplace(f.path, f.data)
		case "recreate":
			fsRemove(f.path)
			sleepMS(s.D)
			fsWrite(f.path, f.data, 1, 0)
		case "mvnew": // moved out of the way, then written anew
			fsMove(f.path, f.path+".bak")
			sleepMS(s.D)
			fsWrite(f.path, f.data, 1, 0)
		case "swap":
			w.swapGen++
			fsSwap(f.path, f.data, w.swapGen)
		default:
			harnessFail("unknown conf method %s", s.S)
		}
	}
	ev.DoneMS = nowMS()
	sim.logf("conf gen %d written (%s)", s.N, s.S)
}

// walk reads a query page by page.
func (w *World) walk(s *Step) {
	rt := &resTypes[s.R]
	q := *s.Q
	for pg := int64(1); pg <= s.N; pg++ {
		q.Page = pg
		rd := w.do(s.Who, s, fmt.Sprintf("walk-%d", pg), &HTTPRq{Method: "GET", Path: rt.path(s.NS, ""), Query: w.listQuery(&q), Header: w.stepHeader(s)}, 90*time.Second)
		rd.C = s.C
		if rd.Status != 200 {
			return
		}
		if s.M > 0 {
			sleepMS(s.M)
		}
	}
}
