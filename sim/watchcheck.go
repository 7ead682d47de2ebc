package main

import (
	"fmt"
	"net/url"
	"strings"
)

const watchLimitMS = 30 * 60 * 1000

// genWatches adds client watches to a plan.
func genWatches(lo, hi int) func(p *Plan, r *Rng, g *genCtx) {
	return func(p *Plan, r *Rng, g *genCtx) {
		n := r.Between(lo, hi)
		for i := 0; i < n; i++ {
			p.Steps = append(p.Steps, g.genWatch(r))
		}
		for i := 0; hi > 3 && i < 2 && r.P(40); i++ { // some watches are refused
			p.Steps = append(p.Steps, Step{K: "rfault", At: g.at(r), C: r.N(g.nCl), Name: "WATCH", D: int64(r.Between(1, 3)),
				S: r.Pick("status", "status", "html"), N: int64(r.PickInt(400, 403, 404, 410, 429, 500, 503))})
		}
	}
}

func (g *genCtx) genWatch(r *Rng) Step {
	s := Step{K: "watch", At: g.at(r), C: -1, R: r.N(len(resTypes)), V: r.U64() % 1000}
	if r.P(75) {
		s.R = g.anyRes(r)
	}
	if resTypes[s.R].Namespaced && r.P(40) {
		s.NS = g.anyNS(r)
	}
	x := r.N(6)
	if g.odd && x > 3 {
		x = 0
	}
	switch x {
	case 0, 1:
	case 2:
		s.S = "dsm"
	case 3:
		s.S = "cluster"
	default:
		s.S = "sel"
		s.Q = g.genQ(r, g.idx)
		s.Q.AllCl = false
	}
	if s.S != "" {
		s.C = r.N(g.nCl)
		if r.P(6) {
			s.C = g.nCl
		}
		if s.S == "sel" {
			if s.C == g.nCl {
				s.C = 0
			}
			s.Q.Clusters = []int{s.C}
			if r.P(30) {
				s.Q.Clusters = append(s.Q.Clusters, r.N(g.nCl))
			}
		}
	}
	if r.P(15) {
		s.Name = "path" // the /watch/ form
	}
	if r.P(35) {
		s.X = r.Pick("resourceVersion=117", "resourceVersion=0", "fieldSelector=metadata.name%3Dx", "timeoutSeconds=77", "allowWatchBookmarks=true", "resourceVersion=105&resourceVersionMatch=NotOlderThan", "pretty=true&limit=5", "fieldSelector=a%3Db%2Cc%21%3Dd&allowWatchBookmarks=1")
		if s.S == "dsm" && strings.HasPrefix(s.X, "resourceVersion=") {
			s.X = "sendInitialEvents=true"
		}
	}
	if r.P(75) {
		s.D = int64(r.PickInt(1, 100, 1000, 10000, 70000, 150000, 400000)) + int64(r.N(50))
	}
	if r.P(15) {
		s.N = int64(r.PickInt(1, 2, 3))
		s.M = int64(r.PickInt(1000, 30000, 100000))
	}
	return s
}

// genCrowd opens many watches that stay, the way controllers and dashboards do.
func genCrowd(p *Plan, r *Rng, g *genCtx) {
	at := g.at(r) / 2
	for n := r.Between(20, 90); n > 0; n-- {
		s := Step{K: "watch", At: at + int64(r.N(2000)), R: g.anyRes(r), C: -1}
		if r.P(50) {
			s.D = int64(r.PickInt(10000, 70000, 400000))
		}
		p.Steps = append(p.Steps, s)
	}
	for n := r.Between(2, 8); n > 0; n-- {
		s := g.genRead(r, r.Pick("list", "get"))
		s.At = at + int64(r.N(10000))
		p.Steps = append(p.Steps, s)
	}
}

// checkWatches verifies every watch a client opened through ckube.
func (h *history) checkWatches() {
	for _, cw := range h.w.watches {
		h.checkWatch(cw)
	}
}

// throttleMS is how long a request sent at the given time may wait for
// client-go's rate limiter: five requests a second, after the first ten.
func (h *history) throttleMS(at int64) int64 {
	n := int64(0)
	for _, cw := range h.w.watches {
		if cw.OpenMS <= at+50 && cw.OpenMS > at-120000 {
			n++
		}
	}
	for _, rd := range h.w.reads {
		if rd.T0 <= at+50 && rd.T0 > at-120000 {
			n++
		}
	}
	return 300 * max(0, n-5)
}

func (h *history) checkWatch(cw *ClientWatch) {
	s := cw.Step
	rt := &resTypes[s.R]
	end := cw.EndMS
	if end < 0 {
		end = nowMS()
	}
	what := fmt.Sprintf("watch %s %s ns=%q manner=%q open=%d hdr=%d status=%d end=%d cancel=%d (%s)", cw.ID, rt.Resource, s.NS, s.S, cw.OpenMS, cw.HdrMS, cw.Status, cw.EndMS, cw.Cancel, short(cw.EndErr, 60))
	rd := &Read{Step: s, T0: cw.OpenMS, T1: cw.OpenMS + h.deltaMS}
	auth := h.mayAuth(rd)
	var ups []*Watch
	for _, k := range h.w.kubes {
		for _, w := range k.watches {
			if w.Req == cw.ID {
				ups = append(ups, w)
			}
		}
	}
	logs := h.upstream(cw.ID)
	if !auth.allow {
		sim.probe("watch-denied")
		if len(logs) > 0 {
			sim.violate("C13", "leaked-upstream", "%s without the token was sent to cluster %s", what, logs[0].Cluster)
		}
		if cw.HdrMS >= 0 && cw.Status != 401 {
			sim.violate("C13", "not-refused", "%s without the token: status %d", what, cw.Status)
		}
		return
	}
	if auth.deny && cw.Status == 401 {
		return
	}
	ks := h.w.confsAt(1, cw.OpenMS, cw.OpenMS+h.deltaMS)
	targets := map[string]bool{}
	missing := ks.any
	only := ""
	for _, c := range ks.confs {
		ts := []int{c.Default}
		if s.S != "" {
			ts = []int{s.C}
		}
		if s.S == "sel" {
			ts = s.Q.Clusters // any of the clusters named
		}
		for _, t := range ts {
			if c.hasCluster(t) {
				targets[h.w.p.clusterName(t)] = true
				only = h.w.p.clusterName(t)
			} else {
				missing = true
			}
		}
	}
	if ks.any {
		for _, c := range h.w.p.Clusters {
			targets[c] = true
		}
	}
	for _, lg := range logs {
		if !targets[lg.Cluster] {
			sim.violate("C09,C10", "misrouted", "%s reached cluster %s", what, lg.Cluster)
			return
		}
		if a := lg.Header.Get("Authorization"); a != "" {
			sim.violate("C13,C09,C10", "credentials", "%s: the client's Authorization %q went to cluster %s", what, a, lg.Cluster)
		}
	}
	if len(targets) == 0 {
		if cw.HdrMS >= 0 && cw.Status != 404 {
			sim.violate(srv(cw.Status, "C09,C10"), "unknown-cluster", "%s: status %d, the cluster is not configured", what, cw.Status)
		}
		return
	}
	if len(logs) == 0 {
		if len(targets) == 1 && !missing && !h.troubled(only, cw.OpenMS, end) && (cw.Cancel < 0 || cw.Cancel-cw.OpenMS > h.deltaMS+h.throttleMS(cw.OpenMS)) {
			sim.violate("C10,C09", "not-forwarded", "%s: the API server of %s is healthy and never saw it", what, only)
		}
		return
	}
	lg := logs[len(logs)-1]
	for _, l := range logs {
		h.checkWatchRequest(what, s, rt, l)
	}
	if lg.Status >= 300 {
		if cw.HdrMS >= 0 && cw.Status != lg.Status && !(cw.Status >= 500 && h.troubled(lg.Cluster, cw.OpenMS, cw.HdrMS)) {
			sim.violate("C10,C08", "status-differs", "%s: cluster %s answered %d", what, lg.Cluster, lg.Status)
			return
		}
		// what went wrong is for the client to know
		if cw.HdrMS >= 0 && cw.Status == lg.Status && lg.Resp != "" && cw.EndMS >= 0 && cw.Cancel < 0 && !cw.Stalled {
			var text string
			for _, l := range cw.Lines {
				text += l.Text + "\n"
			}
			text += cw.Partial
			if d := jsonDiff("", decodeObj(lg.Resp), decodeObj(text)); d != "" && !h.troubled(lg.Cluster, cw.OpenMS, end) {
				sim.violate("C10,C08", "error-differs", "%s: cluster %s answered %s, client got %s: %s", what, lg.Cluster, short(lg.Resp, 200), short(text, 200), d)
				return
			}
			sim.probe("watch-error-relayed")
		}
		return
	}
	if len(ups) == 0 {
		return
	}
	up := ups[len(ups)-1]
	for _, u := range ups[:len(ups)-1] {
		if !u.Reset { // a GET is sent again when its connection breaks before the answer
			sim.violate("C10", "opened-twice", "%s: %d streams at the API server", what, len(ups))
			return
		}
	}
	trouble := h.troubled(up.Cluster, cw.OpenMS, end)
	net := h.netMS()
	live := func(at int64) bool { // the client was there and reading at this time
		return (cw.Cancel < 0 || cw.Cancel > at) && (cw.EndMS < 0 || cw.EndMS > at) && !cw.Stalled
	}
	if cw.HdrMS >= 0 && cw.Status != 200 && !trouble && !(cw.Status >= 500 && up.Reset) {
		sim.violate("C10", "status-differs", "%s: the stream is open at %s", what, up.Cluster)
		return
	}
	// the client learns that its watch is established
	if up.hdrMS > 0 && !trouble {
		by := up.hdrMS + h.deltaMS + 4*net
		if (cw.HdrMS < 0 || cw.HdrMS > by) && by < end && (up.CloseMS < 0 || up.CloseMS > by) && (cw.Cancel < 0 || cw.Cancel > by) {
			sim.violate("C10", "late-header", "%s: the API server of %s accepted the watch at %d, the client was not told by %d", what, up.Cluster, up.hdrMS, by)
		}
	}
	// exactly the bytes the API server sent, in order
	var got strings.Builder
	var offs []int
	for _, l := range cw.Lines {
		got.WriteString(l.Text)
		offs = append(offs, got.Len())
	}
	got.WriteString(cw.Partial)
	g := got.String()
	if cw.Status == 200 && !strings.HasPrefix(string(up.Raw), g) {
		n := 0
		for n < len(g) && n < len(up.Raw) && g[n] == up.Raw[n] {
			n++
		}
		sim.violate("C10", "stream-differs", "%s: byte %d of the stream differs from what %s sent: got %s, sent %s", what, n, up.Cluster, short(tail(g, n), 120), short(tail(string(up.Raw), n), 120))
		return
	}
	// in time, and to the end; a connection carries a window of bytes per round trip
	for i, m := range up.Marks {
		if m.AtMS < 0 {
			break
		}
		off := strings.LastIndexByte(string(up.Raw[:m.Off]), '\n') + 1
		if off == 0 {
			continue
		}
		since := 0
		for j := i - 1; j >= 0; j-- {
			if up.Marks[j].AtMS < m.AtMS-10000 {
				since = up.Marks[j].Off
				break
			}
		}
		by := m.AtMS + h.deltaMS + 2*net*(1+int64((m.Off-since)/(connWindow/2)))
		if !live(by) || by > nowMS() {
			// the end of the stream may take bytes with it only when a
			// connection was reset
			if cw.Cancel >= 0 || cw.Stalled || cw.EndMS < 0 || up.Reset || trouble || cw.EndMS < m.AtMS {
				break
			}
		}
		at := int64(-1)
		for i, o := range offs {
			if o >= off {
				at = cw.Lines[i].AtMS
				break
			}
		}
		if at < 0 && len(g) >= off {
			at = cw.EndMS
		}
		if at < 0 && (trouble || up.Reset) && up.CloseMS >= 0 && up.CloseMS <= by {
			break
		}
		if at < 0 || at > by {
			sim.violate("C10", "late-event", "%s: %d bytes delivered by %s at %d reached the client at %d, allowed %d", what, off, up.Cluster, m.AtMS, at, by)
			return
		}
		sim.probes["watch-bytes-checked"]++
	}
	// ends only with a reason
	if cw.EndMS >= 0 && cw.Cancel < 0 && cw.Status == 200 && !trouble {
		if (up.CloseMS < 0 || up.CloseMS > cw.EndMS+50 || up.ByPeer) && cw.EndMS-cw.OpenMS < watchLimitMS-1000 {
			sim.violate("C10", "ended-early", "%s: the stream of %s was still open (closed %d, by ckube: %v)", what, up.Cluster, up.CloseMS, up.ByPeer)
		}
		sim.probes["watch-end-checked"]++
	}
	// the end is passed on
	if up.CloseMS >= 0 && cw.Cancel < 0 && !cw.Stalled && !trouble && up.CloseMS+h.deltaMS+4*net < nowMS() {
		if cw.EndMS < 0 || cw.EndMS > up.CloseMS+h.deltaMS+4*net {
			sim.violate("C10", "end-not-relayed", "%s: the stream of %s ended at %d", what, up.Cluster, up.CloseMS)
		}
	}
	// what the client left is released
	if gone := cw.goneMS(); gone >= 0 {
		by := gone + 5000 + h.deltaMS + 4*net
		if by < nowMS() && (up.CloseMS < 0 || up.CloseMS > by) && !h.troubled(up.Cluster, gone-1000, by) {
			sim.violate("C10,C17", "not-released", "%s: the client left at %d, the stream at %s is open until %d", what, gone, up.Cluster, up.CloseMS)
		}
		sim.probes["watch-release-checked"]++
	}
}

// goneMS is when the client's connection ended.
func (cw *ClientWatch) goneMS() int64 {
	if cw.Cancel >= 0 {
		return cw.Cancel
	}
	return cw.EndMS
}

func tail(s string, n int) string {
	if n > len(s) {
		return ""
	}
	return s[n:]
}

// netMS bounds the delay of the network without faults.
func (h *history) netMS() int64 {
	var m int64 = 1
	for _, l := range h.w.p.Latency {
		if l > m {
			m = l
		}
	}
	return m
}

func (h *history) checkWatchRequest(what string, s *Step, rt *ResType, lg *ReqLog) {
	p := rt.path(s.NS, "")
	if s.Name == "path" {
		p = rt.watchPath(s.NS)
	}
	if decodePath(lg.Path) != p || lg.Method != "GET" {
		sim.violate("C10", "path", "%s: cluster %s received %s %s, want %s", what, lg.Cluster, lg.Method, lg.Path, p)
	}
	q, _ := url.ParseQuery(lg.Query)
	if s.Name != "path" {
		if v := strings.ToLower(q.Get("watch")); v != "true" && v != "1" {
			sim.violate("C10", "query", "%s: cluster %s received %s", what, lg.Cluster, lg.Query)
		}
	}
	if strings.HasPrefix(q.Get("resourceVersion"), "dsm-") {
		sim.violate("C10,C09", "query", "%s: cluster %s received the routing marker: %s", what, lg.Cluster, lg.Query)
	}
	xs, _ := url.ParseQuery(s.X)
	for _, k := range []string{"resourceVersion", "resourceVersionMatch", "fieldSelector", "timeoutSeconds", "allowWatchBookmarks", "sendInitialEvents", "pretty", "limit", "continue"} {
		if got, want := q.Get(k), xs.Get(k); got != want {
			sim.violate("C10,C08", "query", "%s: cluster %s received %s=%q, the client sent %q", what, lg.Cluster, k, got, want)
		}
	}
	if s.X != "" {
		sim.probes["watch-options-checked"]++
	}
	if got, want := normSelector(q.Get("labelSelector")), normSelector("simwatch!="+fmt.Sprintf("w%d", s.ID)); got != want {
		sim.violate("C10", "query", "%s: cluster %s received selector %q, want %q", what, lg.Cluster, got, want)
	}
}

func (r *ResType) watchPath(ns string) string {
	p := r.basePath() + "/watch"
	if r.Namespaced && ns != "" {
		p += "/namespaces/" + ns
	}
	return p + "/" + r.Resource
}
