package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
)

// history is everything the oracle knows about one run: what every API server
// committed, what it sent on every watch stream, and what clients were told.
type history struct {
	w       *World
	streams map[string][]*Watch // cache streams by cluster|gvr, in opening order
	keys    map[string][]*ObjHist
	byName  map[string]*ObjHist // cluster|gvr|ns/name
	deltaMS int64               // how long ckube may take to apply a delivered event
	anyIdx  bool                // runs where the index definitions change
}

const firstEventMS = 10000 // documented in DESIGN.md: silence after which a new stream counts as empty

func cg(c string, g GVR) string { return c + "|" + g.String() }

func newHistory(w *World) *history {
	h := &history{w: w, streams: map[string][]*Watch{}, keys: map[string][]*ObjHist{}, byName: map[string]*ObjHist{}}
	h.deltaMS = 2000 + w.p.Sched.stallBudget()
	for _, k := range w.kubes {
		k.lock()
		for _, wt := range k.watches {
			if wt.Cache {
				h.streams[cg(k.name, wt.G)] = append(h.streams[cg(k.name, wt.G)], wt)
			}
		}
		for _, key := range k.keys {
			o := k.objs[key]
			h.keys[cg(k.name, key.G)] = append(h.keys[cg(k.name, key.G)], o)
			h.byName[cg(k.name, key.G)+"|"+key.NS+"/"+key.Name] = o
		}
		k.unlock()
	}
	return h
}

// stallBudget is the total time the scheduler may hold the code under test.
func (k *SchedKnobs) stallBudget() int64 {
	if k.UseActs {
		var t int64
		for _, a := range k.Acts {
			t += a[1] / 1e6
		}
		return t
	}
	var max int64
	for _, m := range k.StallMS {
		if m > max {
			max = m
		}
	}
	var t int64
	if k.Stall != 0 {
		t = max * int64(k.MaxStalls)
	}
	if k.Hot != nil {
		max = 0
		for _, m := range k.HotMS {
			if m > max {
				max = m
			}
		}
		t += max * int64(k.HotMax)
	}
	return t
}

// noEffect reports whether a stream ended so early that the cache certainly
// did not change: nothing was delivered on it and it was cut well before the
// silence that stands for an empty collection.
func (h *history) noEffect(c string, s *Watch) bool {
	if s.bookmark || s.CloseMS < 0 || s.CloseMS+h.deltaMS > s.OpenMS+firstEventMS {
		return false
	}
	for _, ev := range s.Sent {
		if ev.DeliverMS >= 0 {
			return false
		}
	}
	if h.partitioned(c, s.OpenMS, s.CloseMS+firstEventMS) {
		return false
	}
	sim.probes["stream-no-effect"]++
	return true
}

// partitioned tells if packets between ckube and a cluster were lost.
func (h *history) partitioned(c string, t0, t1 int64) bool {
	for _, f := range h.w.faults {
		if f.Kind == "hole" && f.C < len(h.w.p.Clusters) && h.w.p.Clusters[f.C] == c && f.From <= t1 && f.To >= t0 {
			return true
		}
	}
	return false
}

// view is what the cache may hold for one (cluster, type) during [t0, t1].
type view struct {
	constrained bool
	stream      *Watch
	outage      bool // the stream the cache lives on is gone and not replaced
	cut         int64
	t1          int64
}

// viewOf finds the watch stream that the cached state must come from.
func (h *history) viewOf(c string, g GVR, t0, t1 int64) view {
	ss := h.streams[cg(c, g)]
	var s *Watch
	reload := h.w.reloaded()
	if reload && h.w.changing(t0, t1) {
		return view{}
	}
	for _, x := range ss {
		if x.OpenMS > t1 || h.noEffect(c, x) {
			continue
		}
		if reload && s != nil && (s.CloseMS < 0 || s.CloseMS > t0) {
			if x.CloseMS >= 0 && x.CloseMS <= t0 {
				continue // opened for a watcher that had been stopped
			}
			return view{} // two at once
		}
		s = x
	}
	if s == nil {
		return view{}
	}
	for i, e := range h.w.confs {
		// the store may have been replaced after the stream was opened
		end := e.DoneMS + h.w.convMS()
		if i == 0 || e.StartMS > t1 || s.OpenMS >= end {
			continue
		}
		// in a partition the API server does not see its stream end
		if s.CloseMS >= 0 && s.CloseMS <= end || h.partitioned(c, e.StartMS, end) {
			return view{}
		}
	}
	if s.OpenMS > t0 {
		return view{} // being replaced right now
	}
	cut := t0 - h.deltaMS
	outage := false
	if s.CloseMS >= 0 && s.CloseMS <= t0 {
		outage = true
		if s.CloseMS-h.deltaMS < cut {
			cut = s.CloseMS - h.deltaMS
		}
	}
	// the initial state must have arrived, soon after opening
	init := s.OpenMS
	n := 0
	for i := 0; i < s.nInit; i++ {
		if i >= len(s.Sent) || s.Sent[i].DeliverMS < 0 {
			return view{}
		}
		n++
		if s.Sent[i].DeliverMS > init {
			init = s.Sent[i].DeliverMS
		}
	}
	if n > 0 && s.Sent[0].DeliverMS-s.OpenMS > firstEventMS-2000 {
		// emptied meanwhile, then refilled: only valid once all of it is in
	}
	if n == 0 {
		first := int64(-1)
		if len(s.Sent) > 0 && s.Sent[0].DeliverMS >= 0 {
			first = s.Sent[0].DeliverMS
		}
		if first < 0 && h.partitioned(c, s.OpenMS, s.OpenMS+firstEventMS) {
			return view{} // ckube may not even know that it was accepted
		}
		init = s.OpenMS + firstEventMS + 10000
		if first >= 0 && first < init {
			init = first
		}
	}
	if cut < init {
		return view{}
	}
	return view{constrained: true, stream: s, outage: outage, cut: cut, t1: t1}
}

// allowed lists the versions an object may have under a constrained view
// (nil: absent).
func (v view) allowed(key ObjKey) []*Version {
	var base *Version
	var out []*Version
	i := 0
	evs := v.stream.Sent
	for ; i < len(evs); i++ {
		ev := evs[i]
		if ev.DeliverMS < 0 || ev.DeliverMS > v.cut {
			break
		}
		if ev.Key == key {
			base = evVersion(ev)
		}
	}
	out = append(out, base)
	for ; i < len(evs); i++ {
		ev := evs[i]
		if ev.SentMS > v.t1 {
			break
		}
		if ev.Key == key {
			out = append(out, evVersion(ev))
		}
	}
	return out
}

func evVersion(ev *WatchEvent) *Version {
	if ev.Typ == "DELETED" {
		return nil
	}
	return ev.Ver
}

// item is one object in an answer.
type item struct {
	cluster string
	ns      string
	name    string
	rv      int64
	ver     *Version
	hist    *ObjHist
	doc     map[string]interface{}
}

// answer is a parsed list or object.
type answer struct {
	items  []item
	remain int64
	ok     bool
}

func decodeDoc(body []byte) (map[string]interface{}, error) {
	d := json.NewDecoder(strings.NewReader(string(body)))
	d.UseNumber()
	m := map[string]interface{}{}
	if err := d.Decode(&m); err != nil {
		return nil, err
	}
	var extra interface{}
	if err := d.Decode(&extra); err == nil {
		return nil, fmt.Errorf("trailing data after the document")
	}
	return m, nil
}

// parseItem identifies one returned object with a committed version.
func (h *history) parseItem(rd *Read, rt *ResType, doc map[string]interface{}, single bool) (item, bool) {
	it := item{doc: doc}
	meta, _ := doc["metadata"].(map[string]interface{})
	if meta == nil {
		sim.violate("C02", "no-metadata", "%s: object without metadata: %s", rd.URL, short(fmt.Sprint(doc), 200))
		return it, false
	}
	it.name, _ = meta["name"].(string)
	it.ns, _ = meta["namespace"].(string)
	rvs, _ := meta["resourceVersion"].(string)
	it.rv, _ = strconv.ParseInt(rvs, 10, 64)
	if a, ok := meta["annotations"].(map[string]interface{}); ok {
		it.cluster, _ = a[annoCluster].(string)
	}
	k := h.w.byName[it.cluster]
	if k == nil {
		sim.violate("C02", "cluster-annotation", "%s: object %s/%s carries cluster annotation %q, which no cluster has", rd.URL, it.ns, it.name, it.cluster)
		return it, false
	}
	it.hist = h.byName[cg(it.cluster, rt.GVR)+"|"+it.ns+"/"+it.name]
	if it.hist == nil {
		sim.violate("C01,C02", "fabricated", "%s: object %s %s/%s attributed to %s never existed there", rd.URL, rt.Resource, it.ns, it.name, it.cluster)
		return it, false
	}
	for _, v := range it.hist.Versions {
		if v.RV == it.rv {
			it.ver = v
		}
	}
	if it.ver != nil && it.ver.JSON == "" && it.ver.AtMS <= rd.T1 {
		sim.violate("C01,C02", "deleted-served", "%s: object %s %s/%s of %s is served as it was when it was deleted", rd.URL, rt.Resource, it.ns, it.name, it.cluster)
		return it, false
	}
	if it.ver == nil || it.ver.JSON == "" || it.ver.AtMS > rd.T1 {
		sim.violate("C01,C02", "fabricated", "%s: object %s %s/%s of %s has resourceVersion %s, which that cluster never served", rd.URL, rt.Resource, it.ns, it.name, it.cluster, rvs)
		return it, false
	}
	want := expected(rt, it.ver)
	got := map[string]interface{}{}
	for k, v := range doc {
		got[k] = v
	}
	if !single {
		// list items need not repeat kind and apiVersion
		for _, f := range []string{"kind", "apiVersion"} {
			if _, ok := got[f]; !ok {
				got[f] = want[f]
			}
		}
	}
	gm := map[string]interface{}{}
	for k, v := range meta {
		gm[k] = v
	}
	if a, ok := meta["annotations"].(map[string]interface{}); ok {
		na := map[string]interface{}{}
		for k, v := range a {
			na[k] = v
		}
		gm["annotations"] = na
	}
	got["metadata"] = gm
	normMeta(got)
	if d := jsonDiff("", want, got); d != "" {
		props := "C02"
		if rt.Typed && (rt.Resource == "pods" || rt.Resource == "services") && h.w.p.Property == "C16" {
			props = "C02,C16" // these have been in the hands of the extension
		}
		sim.violate(props, "content", "%s: object %s %s/%s of %s at resourceVersion %d differs from what the cluster served: %s", rd.URL, rt.Resource, it.ns, it.name, it.cluster, it.rv, d)
	}
	return it, true
}

// srv adds C14 to the properties when ckube answered with an error of its own.
func srv(status int, props string) string {
	if status >= 500 {
		return props + ",C14"
	}
	return props
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// parseList checks the shape of a list answer and identifies its items.
func (h *history) parseList(rd *Read, rt *ResType, q *QSpec, ns string, clusters []string) answer {
	a := answer{remain: 0}
	doc, err := decodeDoc(rd.Body)
	if err != nil {
		sim.violate("C02", "bad-json", "%s: answer is not a JSON document: %v: %s", rd.URL, err, short(string(rd.Body), 200))
		return a
	}
	if k := jstr(doc, "kind"); k != rt.Kind+"List" {
		sim.violate("C02", "list-kind", "%s: kind %q, want %q", rd.URL, k, rt.Kind+"List")
	}
	if v := jstr(doc, "apiVersion"); v != rt.apiVersion() {
		sim.violate("C02", "list-kind", "%s: apiVersion %q, want %q", rd.URL, v, rt.apiVersion())
	}
	if s := jstr(doc, "metadata", "remainingItemCount"); s != "" {
		a.remain, _ = strconv.ParseInt(s, 10, 64)
	}
	raw, ok := doc["items"].([]interface{})
	if !ok && doc["items"] != nil {
		sim.violate("C02", "bad-json", "%s: items is not an array", rd.URL)
		return a
	}
	seen := map[string]bool{}
	for _, x := range raw {
		m, _ := x.(map[string]interface{})
		if m == nil {
			sim.violate("C02", "bad-json", "%s: item is not an object", rd.URL)
			return a
		}
		it, ok := h.parseItem(rd, rt, m, false)
		if !ok {
			return a
		}
		id := it.cluster + "|" + it.ns + "/" + it.name
		if seen[id] {
			sim.violate("C02", "duplicate", "%s: object %s listed twice", rd.URL, id)
		}
		seen[id] = true
		if !contains(clusters, it.cluster) {
			sim.violate("C02,C07,C09", "wrong-cluster", "%s: object %s of cluster %s in a list of clusters %v", rd.URL, it.name, it.cluster, clusters)
		}
		if ns != "" && it.ns != ns {
			sim.violate("C02,C07", "wrong-namespace", "%s: object %s/%s in a list of namespace %s", rd.URL, it.ns, it.name, ns)
		}
		a.items = append(a.items, it)
	}
	a.ok = true
	return a
}

// freshProps says which property a wrong or missing version is evidence for.
func (h *history) freshProps(c string, v view) string {
	out := "C01"
	if v.outage {
		return "C01,C04"
	}
	// was another cluster in trouble?
	for _, f := range h.w.faults {
		if f.From <= v.t1 && f.To >= v.t1-60000 {
			if f.C < len(h.w.p.Clusters) && h.w.p.Clusters[f.C] != c {
				return "C01,C04"
			}
			if f.C < len(h.w.p.Clusters) && h.w.p.Clusters[f.C] == c {
				return "C01,C04"
			}
		}
	}
	return out
}

func verName(v *Version) string {
	if v == nil {
		return "absent"
	}
	return "rv" + strconv.FormatInt(v.RV, 10)
}

func verNames(vs []*Version) string {
	var out []string
	for _, v := range vs {
		out = append(out, verName(v))
	}
	return strings.Join(out, "|")
}

func hasVer(vs []*Version, v *Version) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

// checkFresh verifies the version (or absence) of every object of one cluster
// and type in an unfiltered answer.
func (h *history) checkFresh(rd *Read, rt *ResType, c, ns string, got map[string]*Version) {
	v := h.viewOf(c, rt.GVR, rd.T0, rd.T1)
	if !v.constrained {
		sim.probes["fresh-unconstrained"]++
		return
	}
	sim.probes["fresh-checked"]++
	if v.outage {
		sim.probes["fresh-checked-outage"]++
	}
	for _, o := range h.keys[cg(c, rt.GVR)] {
		if ns != "" && o.Key.NS != ns {
			continue
		}
		al := v.allowed(o.Key)
		g := got[o.Key.NS+"/"+o.Key.Name]
		if !hasVer(al, g) {
			sim.violate(h.freshProps(c, v), "stale", "%s %s t=[%d,%d]: cluster %s object %s %s/%s is %s, must be one of %s (stream #%d opened %d closed %d, everything delivered by %d applied)",
				rd.Who, rd.URL, rd.T0, rd.T1, c, rt.Resource, o.Key.NS, o.Key.Name, verName(g), verNames(al), v.stream.ID, v.stream.OpenMS, v.stream.CloseMS, v.cut)
			return
		}
	}
}

// matchDoc evaluates a query on one version.
func (h *history) matchDoc(c string, rt *ResType, q *QSpec, idx int, v *Version) bool {
	ix := refIndex(c, rt, idx, v)
	for _, part := range q.Parts {
		ok, err := refMatchPart(ix, part)
		if err != nil {
			harnessFail("reference query %q: %v (refAccepts %d)", part, err, refAccepts(q, idx))
		}
		if !ok {
			return false
		}
	}
	if len(q.Namespaces) > 0 && !contains(q.Namespaces, ix["namespace"]) {
		return false
	}
	if q.Labels != "" {
		m := expected(rt, v)
		ls := map[string]string{}
		if lm, ok := jget(m, "metadata", "labels"); ok {
			if mm, ok := lm.(map[string]interface{}); ok {
				for k, x := range mm {
					ls[k], _ = x.(string)
				}
			}
		}
		ok, _ := refSelector(ls, q.Labels)
		if !ok {
			return false
		}
	}
	return true
}

func (q *QSpec) plain() bool {
	return len(q.Parts) == 0 && q.Labels == "" && len(q.Namespaces) == 0 && (q.Size == 0 || q.Page == 0)
}

// named lists the clusters a request means.
func (h *history) named(s *Step, conf *Conf) []int {
	if s.Q != nil && s.Q.badAdv() && s.C < 0 {
		return []int{conf.Default} // nothing could be added to the search
	}
	if s.Q != nil && s.Q.AllCl {
		var out []int
		for i := range h.w.p.Clusters {
			out = append(out, i)
		}
		return out
	}
	if s.Q != nil && len(s.Q.Clusters) > 0 {
		return s.Q.Clusters
	}
	if s.C >= 0 && s.K != "walk" {
		return []int{s.C} // by a marker
	}
	return []int{conf.Default}
}

// checkList verifies one list answer.
func (h *history) checkList(rd *Read, conf *Conf) {
	s := rd.Step
	rt := &resTypes[s.R]
	q := s.Q
	if !conf.hasRes(s.R) {
		doc := h.through(rd, conf, h.named(s, conf))
		if doc == nil {
			return
		}
		if jstr(doc, "kind") != rt.Kind+"List" || jstr(doc, "metadata", "resourceVersion") == "" {
			sim.violate("C11", "not-passed-on", "%s: %s is not a cached type, but the answer is not an API server's: %s", rd.URL, rt.Resource, short(string(rd.Body), 200))
		}
		sim.probe("through-checked")
		return
	}
	var clusters []string
	for _, c := range h.named(s, conf) {
		if conf.hasCluster(c) {
			clusters = append(clusters, h.w.p.Clusters[c])
		}
	}
	ns := s.NS
	if !rt.Namespaced {
		ns = ""
	}
	page, size := q.Page, q.Size
	paged := size > 0 && page > 0
	if k := refAccepts(q, conf.Idx); k > 0 {
		sim.probe("refused-query")
		if rd.Status == 400 {
			return
		}
		doc, err := decodeDoc(rd.Body)
		items, _ := doc["items"].([]interface{})
		if rd.Status != 200 || err != nil || k == 3 || k == 1 && len(items) > 0 {
			sim.violate("C07,C14", "not-refused", "%s t=[%d,%d]: status %d %s with %d items for a query outside the language: %+v", rd.URL, rd.T0, rd.T1, rd.Status, rd.Err, len(items), *q)
			return
		}
		if k == 1 {
			return
		}
	}
	if rd.Status == 400 && paged && page > 1 {
		// out of page: legitimate only if so few objects can match
		lo, _ := h.countRange(rd, rt, q, ns, clusters, conf.Idx)
		if page-1 <= lo/size && lo > (page-1)*size {
			sim.violate("C06,C07", "out-of-page", "%s t=[%d,%d]: out of page, but at least %d objects match", rd.URL, rd.T0, rd.T1, lo)
		}
		return
	}
	if rd.Status != 200 {
		sim.violate("C01,C02,C04,C07,C14", "list-status", "%s t=[%d,%d]: status %d %s: %s", rd.URL, rd.T0, rd.T1, rd.Status, rd.Err, short(string(rd.Body), 200))
		return
	}
	table := s.S == "table"
	var a answer
	if table {
		a = h.parseTable(rd, rt, conf, clusters)
	} else {
		a = h.parseList(rd, rt, q, ns, clusters)
	}
	if !a.ok {
		return
	}
	if !paged && a.remain != 0 {
		sim.violate("C06", "remaining", "%s: all objects returned, remainingItemCount %d", rd.URL, a.remain)
	}
	if paged && int64(len(a.items)) > size {
		sim.violate("C06,C07", "page-size", "%s: %d items on a page of %d", rd.URL, len(a.items), size)
	}
	got := map[string]map[string]*Version{}
	for _, c := range clusters {
		got[c] = map[string]*Version{}
	}
	for _, it := range a.items {
		if got[it.cluster] == nil {
			continue
		}
		got[it.cluster][it.ns+"/"+it.name] = it.ver
	}
	// every object returned satisfies the query as returned
	for _, it := range a.items {
		if !h.matchDoc(it.cluster, rt, q, conf.Idx, it.ver) {
			sim.violate("C07", "no-match", "%s: object %s %s/%s rv%d does not satisfy %+v", rd.URL, it.cluster, it.ns, it.name, it.rv, *q)
			break
		}
	}
	// in the order asked for
	for i := 1; i < len(a.items); i++ {
		x := refIndex(a.items[i-1].cluster, rt, conf.Idx, a.items[i-1].ver)
		y := refIndex(a.items[i].cluster, rt, conf.Idx, a.items[i].ver)
		if c, err := refSortCmp(x, y, q.Sort); err == nil && c > 0 {
			sim.violate("C07", "order", "%s: %s/%s before %s/%s under sort %q", rd.URL, a.items[i-1].ns, a.items[i-1].name, a.items[i].ns, a.items[i].name, q.Sort)
			break
		}
	}
	if q.plain() {
		for _, c := range clusters {
			h.checkFresh(rd, rt, c, ns, got[c])
		}
		return
	}
	if paged {
		lo, hi := h.countRange(rd, rt, q, ns, clusters, conf.Idx)
		if hi < 0 {
			return
		}
		if table { // tables carry no count
			on := func(n int64) int64 {
				if page-1 > n/size || n < (page-1)*size {
					return 0
				}
				if n -= (page - 1) * size; n > size {
					n = size
				}
				return n
			}
			if n := int64(len(a.items)); n < on(lo) || n > on(hi) {
				sim.violate("C06,C07", "total", "%s t=[%d,%d]: %d rows on page %d size %d, between %d and %d match", rd.URL, rd.T0, rd.T1, n, page, size, lo, hi)
			}
			return
		}
		// how many there are in all
		total := int64(len(a.items))
		if a.remain > 0 || int64(len(a.items)) == size {
			total = a.remain + (page-1)*size + int64(len(a.items))
			if int64(len(a.items)) != size {
				sim.violate("C06,C07", "short-page", "%s: %d items on a page of %d with %d remaining", rd.URL, len(a.items), size, a.remain)
			}
		} else {
			total += (page - 1) * size
		}
		if len(a.items) == 0 {
			total = 0
			if page-1 <= lo/size && lo > (page-1)*size {
				sim.violate("C06,C07", "short-page", "%s t=[%d,%d]: empty page %d of %d although at least %d match", rd.URL, rd.T0, rd.T1, page, size, lo)
			}
			return
		}
		if total < lo || total > hi {
			sim.violate("C06,C07", "total", "%s t=[%d,%d]: page %d size %d shows %d objects in all, between %d and %d match", rd.URL, rd.T0, rd.T1, page, size, total, lo, hi)
		}
		return
	}
	// nothing that certainly matches is missing
	for _, c := range clusters {
		v := h.viewOf(c, rt.GVR, rd.T0, rd.T1)
		if !v.constrained {
			continue
		}
		sim.probes["query-checked"]++
		for _, o := range h.keys[cg(c, rt.GVR)] {
			if ns != "" && o.Key.NS != ns {
				continue
			}
			g := got[c][o.Key.NS+"/"+o.Key.Name]
			al := v.allowed(o.Key)
			if g != nil {
				if !hasVer(al, g) {
					sim.violate("C07,"+h.freshProps(c, v), "stale", "%s t=[%d,%d]: query returned %s %s/%s at %s, must be one of %s", rd.URL, rd.T0, rd.T1, c, o.Key.NS, o.Key.Name, verName(g), verNames(al))
				}
				continue
			}
			must := true
			for _, x := range al {
				if x == nil || !h.matchDoc(c, rt, q, conf.Idx, x) {
					must = false
					break
				}
			}
			if must {
				sim.violate("C07", "missing", "%s t=[%d,%d]: %s %s/%s (%s) satisfies %+v and is missing", rd.URL, rd.T0, rd.T1, c, o.Key.NS, o.Key.Name, verNames(al), *q)
			}
		}
	}
}

// countRange bounds how many objects match (hi < 0: unknown).
func (h *history) countRange(rd *Read, rt *ResType, q *QSpec, ns string, clusters []string, idx int) (lo, hi int64) {
	known := true
	for _, c := range clusters {
		v := h.viewOf(c, rt.GVR, rd.T0, rd.T1)
		if !v.constrained {
			known = false
			continue
		}
		for _, o := range h.keys[cg(c, rt.GVR)] {
			if ns != "" && o.Key.NS != ns {
				continue
			}
			all, any := true, false
			for _, x := range v.allowed(o.Key) {
				if x != nil && h.matchDoc(c, rt, q, idx, x) {
					any = true
				} else {
					all = false
				}
			}
			if all {
				lo++
			}
			if any {
				hi++
			}
		}
	}
	if !known {
		return lo, -1
	}
	return
}

// checkGet verifies the answer to a GET of one cached object.
func (h *history) checkGet(rd *Read, conf *Conf) {
	s := rd.Step
	rt := &resTypes[s.R]
	ci := h.named(s, conf)[0]
	c := h.w.p.Clusters[ci]
	if !conf.hasRes(s.R) {
		doc := h.through(rd, conf, []int{ci})
		if doc == nil {
			return
		}
		if an, ok := jget(doc, "metadata", "annotations"); ok {
			if am, ok := an.(map[string]interface{}); ok && fromCache(am) {
				sim.violate("C11", "not-passed-on", "%s: %s is not a cached type, but the answer comes from the cache: %s", rd.URL, rt.Resource, short(string(rd.Body), 200))
			}
		}
		if jstr(doc, "metadata", "name") != s.Name {
			sim.violate("C08", "wrong-object", "%s: asked for %s, got %s", rd.URL, s.Name, short(string(rd.Body), 200))
		}
		sim.probe("through-checked")
		return
	}
	ns := s.NS
	if !rt.Namespaced {
		ns = ""
	}
	got := map[string]*Version{}
	switch rd.Status {
	case 200:
		doc, err := decodeDoc(rd.Body)
		if err != nil {
			sim.violate("C02", "bad-json", "%s: answer is not a JSON document: %v: %s", rd.URL, err, short(string(rd.Body), 200))
			return
		}
		it, ok := h.parseItem(rd, rt, doc, true)
		if !ok {
			return
		}
		if it.name != s.Name || it.ns != ns {
			sim.violate("C02", "wrong-object", "%s: asked for %s/%s, got %s/%s", rd.URL, ns, s.Name, it.ns, it.name)
			return
		}
		if it.cluster != c {
			sim.violate("C02,C09", "wrong-cluster", "%s: asked cluster %s, answered from %s", rd.URL, c, it.cluster)
			return
		}
		got[ns+"/"+s.Name] = it.ver
	case 404:
	default:
		sim.violate("C01,C02,C04,C14", "get-status", "%s t=[%d,%d]: status %d %s: %s", rd.URL, rd.T0, rd.T1, rd.Status, rd.Err, short(string(rd.Body), 200))
		return
	}
	if !conf.hasCluster(ci) {
		if rd.Status != 404 {
			sim.violate(srv(rd.Status, "C09,C12"), "unknown-cluster", "%s: status %d for an object of cluster %s, which is not configured", rd.URL, rd.Status, c)
		}
		return
	}
	v := h.viewOf(c, rt.GVR, rd.T0, rd.T1)
	if !v.constrained {
		return
	}
	sim.probes["get-checked"]++
	key := ObjKey{rt.GVR, ns, s.Name}
	al := v.allowed(key)
	if g := got[ns+"/"+s.Name]; !hasVer(al, g) {
		sim.violate(h.freshProps(c, v), "stale", "%s %s t=[%d,%d]: cluster %s object %s %s/%s is %s, must be one of %s (stream #%d opened %d closed %d)",
			rd.Who, rd.URL, rd.T0, rd.T1, c, rt.Resource, ns, s.Name, verName(g), verNames(al), v.stream.ID, v.stream.OpenMS, v.stream.CloseMS)
	}
}

// checkMonotonic verifies that no client ever goes back in time.
func (h *history) checkMonotonic() {
	if h.w.reloaded() {
		return // a new cache is filled from a new stream
	}
	type seen struct {
		rv int64
		rd *Read
	}
	last := map[string]seen{}
	for _, rd := range h.w.reads {
		if rd.Status != 200 || rd.Step == nil || (rd.Kind != "list" && rd.Kind != "get" && !strings.HasPrefix(rd.Kind, "walk")) {
			continue
		}
		rt := &resTypes[rd.Step.R]
		doc, err := decodeDoc(rd.Body)
		if err != nil {
			continue
		}
		var docs []interface{}
		if rd.Kind == "get" {
			docs = []interface{}{doc}
		} else {
			docs, _ = doc["items"].([]interface{})
		}
		for _, d := range docs {
			m, _ := d.(map[string]interface{})
			cl := ""
			if a, ok := jget(m, "metadata", "annotations"); ok {
				if am, ok := a.(map[string]interface{}); ok {
					if fromCache(am) {
						cl, _ = am[annoCluster].(string)
					}
				}
			}
			rv, err := strconv.ParseInt(jstr(m, "metadata", "resourceVersion"), 10, 64)
			if err != nil {
				continue
			}
			id := rd.Who + "|" + cl + "|" + rt.GVR.String() + "|" + jstr(m, "metadata", "namespace") + "/" + jstr(m, "metadata", "name")
			if l, ok := last[id]; ok {
				sim.probes["monotonic-checked"]++
				if rv < l.rv {
					sim.violate("C03", "backwards", "%s saw %s at rv%d (%s at %d) and later at rv%d (%s at %d)", rd.Who, id, l.rv, l.rd.URL, l.rd.T1, rv, rd.URL, rd.T0)
				}
				if rv <= l.rv {
					continue
				}
			}
			last[id] = seen{rv, rd}
		}
	}
}

// checkWalks verifies that pages partition a result that does not change.
func (h *history) checkWalks() {
	group := map[*Step][]*Read{}
	var order []*Step
	for _, rd := range h.w.reads {
		if strings.HasPrefix(rd.Kind, "walk-") {
			if group[rd.Step] == nil {
				order = append(order, rd.Step)
			}
			group[rd.Step] = append(group[rd.Step], rd)
		}
	}
	for _, s := range order {
		h.checkWalk(s, group[s])
	}
}

func (h *history) checkWalk(s *Step, rds []*Read) {
	rt := &resTypes[s.R]
	t0, t1 := rds[0].T0, rds[len(rds)-1].T1
	cs, any := h.w.possible(t0, t1)
	if any || len(cs) != 1 || !cs[0].hasRes(s.R) {
		return
	}
	conf := cs[0]
	if refAccepts(s.Q, conf.Idx) != 0 {
		return
	}
	var clusters []string
	for _, c := range h.named(s, conf) {
		if conf.hasCluster(c) {
			clusters = append(clusters, h.w.p.Clusters[c])
		}
	}
	ns := s.NS
	if !rt.Namespaced {
		ns = ""
	}
	want := map[string]*Version{}
	for _, c := range clusters {
		v := h.viewOf(c, rt.GVR, t0, t1)
		if !v.constrained {
			sim.probes["walk-unconstrained"]++
			return
		}
		for _, o := range h.keys[cg(c, rt.GVR)] {
			if ns != "" && o.Key.NS != ns {
				continue
			}
			al := v.allowed(o.Key)
			if len(al) != 1 {
				return // changing while walked
			}
			if al[0] != nil && h.matchDoc(c, rt, s.Q, conf.Idx, al[0]) {
				want[c+"|"+o.Key.NS+"/"+o.Key.Name] = al[0]
			}
		}
	}
	sim.probes["walk-checked"]++
	total := int64(len(want))
	size := s.Q.Size
	pages := (total + size - 1) / size
	seen := map[string]int64{}
	var prev map[string]string
	for i, rd := range rds {
		pg := int64(i + 1)
		switch {
		case rd.Status == 200:
		case rd.Status == 400 && pg > pages && pg > 1:
			continue // past the end
		default:
			sim.violate("C06", "walk-status", "%s page %d of %d: status %d: %s", rd.URL, pg, pages, rd.Status, short(string(rd.Body), 200))
			return
		}
		a := h.parseList(rd, rt, s.Q, ns, clusters)
		if !a.ok {
			return
		}
		n := total - (pg-1)*size
		if n < 0 {
			n = 0
		}
		if n > size {
			n = size
		}
		rem := total - pg*size
		if rem < 0 {
			rem = 0
		}
		if pg > pages && pg > 1 {
			sim.violate("C06", "out-of-page", "%s: page %d of a result of %d pages is not refused", rd.URL, pg, pages)
		}
		if a.remain != rem {
			sim.violate("C06", "remaining", "%s: page %d size %d of %d objects: remainingItemCount %d, want %d", rd.URL, pg, size, total, a.remain, rem)
		}
		// what the SDK makes of it
		remain := a.remain
		l := &corev1.PodList{ListMeta: metav1.ListMeta{RemainingItemCount: &remain}, Items: make([]corev1.Pod, len(a.items))}
		if t := page.MakeupResPaginate(l, page.Paginate{Page: pg, PageSize: size}).Total; a.remain == rem && int64(len(a.items)) == n && t != total {
			sim.violate("C06", "sdk-total", "%s: page %d size %d of %d objects: the SDK says there are %d", rd.URL, pg, size, total, t)
		}
		if int64(len(a.items)) != n {
			sim.violate("C06", "short-page", "%s: page %d size %d of %d objects has %d items, want %d", rd.URL, pg, size, total, len(a.items), n)
		}
		for _, it := range a.items {
			id := it.cluster + "|" + it.ns + "/" + it.name
			if seen[id] != 0 {
				sim.violate("C06", "repeated", "%s: %s is on page %d and on page %d", rd.URL, id, seen[id], pg)
			}
			seen[id] = pg
			if want[id] == nil {
				sim.violate("C06", "extra", "%s: %s on page %d does not belong to the result", rd.URL, id, pg)
			}
			ix := refIndex(it.cluster, rt, conf.Idx, it.ver)
			if prev != nil {
				if c, err := refSortCmp(prev, ix, s.Q.Sort); err == nil && c > 0 {
					sim.violate("C06,C07", "order", "%s: page %d: %s out of order under sort %q", rd.URL, pg, id, s.Q.Sort)
				}
			}
			prev = ix
		}
	}
	if int64(len(rds)) >= pages && rds[len(rds)-1].Status == 200 && int64(len(rds)) == s.N {
		return
	}
	for _, id := range sortedKeys(want) {
		if seen[id] == 0 {
			sim.violate("C06", "lost", "walk of %s in pages of %d: %s is on no page", rds[0].URL, size, id)
			return
		}
	}
}

// rotating: the stream reached the API server's time limit just before.
func (h *history) rotating(c string, g GVR, t0, t1 int64) bool {
	for _, s := range h.streams[cg(c, g)] {
		if s.CloseMS >= 0 && s.CloseMS-s.OpenMS > 1500000 && s.CloseMS <= t1 && s.CloseMS > t0-60000 {
			return true
		}
	}
	return false
}

// finalConverged compares the cache with every cluster after the settle time.
func (h *history) finalConverged(rd *Read, rt *ResType, clusters []string) {
	if rd.Status != 200 {
		sim.violate("C01,C14", "final-status", "after recovery %s: status %d %s: %s", rd.URL, rd.Status, rd.Err, short(string(rd.Body), 200))
		return
	}
	a := h.parseList(rd, rt, rd.Step.Q, "", clusters)
	if !a.ok {
		return
	}
	got := map[string]map[string]*Version{}
	for _, it := range a.items {
		if got[it.cluster] == nil {
			got[it.cluster] = map[string]*Version{}
		}
		got[it.cluster][it.ns+"/"+it.name] = it.ver
	}
	for _, c := range clusters {
		if h.rotating(c, rt.GVR, rd.T0, rd.T1) {
			sim.probe("converged-rotating")
			continue
		}
		cur := h.w.byName[c].current(rt.GVR)
		for _, k := range sortedKeys(cur) {
			g := got[c][k]
			if g != cur[k] {
				sim.violate(h.reloadProps("C01"), "not-converged", "%d ms after the last fault: cluster %s %s %s is %s in the cache, %s in the cluster", rd.T0-h.w.healMS, c, rt.Resource, k, verName(g), verName(cur[k]))
				return
			}
		}
		for _, k := range sortedKeys(got[c]) {
			if cur[k] == nil {
				sim.violate(h.reloadProps("C01"), "ghost", "%d ms after the last fault: cluster %s %s %s is in the cache (%s) but no longer in the cluster", rd.T0-h.w.healMS, c, rt.Resource, k, verName(got[c][k]))
				return
			}
		}
		sim.probes["converged-checked"]++
	}
}

func finalChecks(w *World) {
	defer h14(w)
	conf := w.finalConf()
	tok := w.authHeader(conf.Token)
	type fin struct {
		rd *Read
		rt *ResType
	}
	var fins []fin
	for _, r := range conf.Res {
		rt := &resTypes[r]
		s := &Step{K: "list", C: -1, R: r, Q: &QSpec{}}
		if !w.p.odd() {
			s.Q.Clusters = append(s.Q.Clusters, conf.Clusters...)
		}
		rd := w.do("final", s, "list", &HTTPRq{Method: "GET", Path: rt.path("", ""), Query: w.listQuery(s.Q), Header: tok}, 90*time.Second)
		rd.Final = true
		fins = append(fins, fin{rd, rt})
	}
	if w.reloaded() {
		w.finalReload(conf)
	}
	mrd := w.do("final", &Step{K: "http", H: &HTTPRq{Method: "GET", Path: "/metrics"}}, "metrics", &HTTPRq{Method: "GET", Path: "/metrics"}, 90*time.Second)
	mrd.Final = true
	h := newHistory(w)
	if mrd.Status != 200 {
		sim.violate("C14,C15", "no-metrics", "%s: %d %s", mrd.URL, mrd.Status, mrd.Err)
	} else {
		h.checkMetrics(mrd, conf)
	}
	for _, f := range fins {
		var cl []string
		for _, c := range h.named(f.rd.Step, conf) {
			cl = append(cl, w.p.Clusters[c])
		}
		h.finalConverged(f.rd, f.rt, cl)
	}
	h.checkReads()
}

func (h *history) checkReads() {
	for _, rd := range h.w.reads {
		if rd.Step == nil || rd.T1 < 0 {
			continue
		}
		h.checkAuth(rd)
		open := rd.Kind == "http" && openPath(rd.Step.H.Path)
		if !open && (!h.mayAuth(rd).allow || (rd.Status == 401 && h.mayAuth(rd).deny)) {
			continue
		}
		switch {
		case rd.Kind == "px":
			h.checkPx(rd)
		case rd.Kind == "http":
			h.checkHTTP(rd)
		case rd.Kind == "svc":
			h.explained(rd, func(c *Conf) { h.checkSvc(rd, c) })
		case rd.Kind == "list" && !rd.Final:
			h.explained(rd, func(c *Conf) { h.checkList(rd, c) })
		case rd.Kind == "get":
			h.explained(rd, func(c *Conf) { h.checkGet(rd, c) })
		}
	}
	h.checkMonotonic()
	h.checkWalks()
	h.checkWatches()
	h.checkGaps()
	if h.w.foot != nil {
		h.checkHoldings(h.w.foot)
		h.checkDials()
	}
	h.checkAddresses()
}

// h14 reports a ckube that is gone.
func h14(w *World) {
	if w.exited {
		sim.violate("C01,C02,C03,C04,C14", "exit", "%s", w.exitMsg)
	}
}

var _ = sort.Strings
