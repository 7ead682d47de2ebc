package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
)

// What ckube holds on to: streams, connections, goroutines, watched files.

type dialLog struct {
	host string
	at   int64
}

// noJunkWatches drops raw requests that could be taken for ckube's own streams.
func noJunkWatches(p *Plan, r *Rng, g *genCtx) {
	out := p.Steps[:0]
	for _, s := range p.Steps {
		if s.K != "http" || !s.maybeWatch() {
			out = append(out, s)
		}
	}
	p.Steps = out
}

// footprint is what ckube holds at one instant.
type footprint struct {
	atMS  int64
	gor   map[string]int      // goroutines by the function they run
	ups   map[string][]string // open connections to API servers, by host
	stale []string            // connections whose client left long ago
	files int                 // paths being watched
}

// takeFootprint looks at the process. All clients have left long ago.
func takeFootprint() *footprint {
	f := &footprint{atMS: nowMS(), gor: map[string]int{}, ups: map[string][]string{}}
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, st := range strings.Split(string(buf), "\n\n") {
		where := ""
		for _, l := range strings.Split(st, "\n") {
			l = strings.TrimPrefix(l, "created by ")
			if strings.HasPrefix(l, "github.com/DaoCloud/ckube/") {
				if i := strings.LastIndex(l, "("); i > 0 && !strings.Contains(l, " in goroutine") {
					l = l[:i]
				}
				if i := strings.Index(l, " in goroutine"); i > 0 {
					l = l[:i]
				}
				where = strings.TrimPrefix(l, "github.com/DaoCloud/ckube/") // the outermost frame stays
			}
		}
		if where != "" {
			f.gor[where]++
		}
	}
	simnet.lock()
	conns := append([]*simConn(nil), simnet.conns...)
	simnet.unlock()
	for _, c := range conns {
		p := c.p
		p.mu.Lock()
		switch {
		case p.err != nil || p.closed[0] && p.closed[1]:
		case p.host == "ckube":
			if p.closed[0] && f.atMS-p.closedMS[0] > 100000 {
				f.stale = append(f.stale, fmt.Sprintf("%s (client left at %d)", c.local, p.closedMS[0]))
			}
		case strings.HasPrefix(string(c.local), "ckube:") && !p.closed[0]:
			f.ups[p.host] = append(f.ups[p.host], string(c.local))
		}
		p.mu.Unlock()
	}
	return f
}

// quiet waits until nothing but ckube itself is active any more.
func (w *World) quiet() { sleepUntil(max(nowMS(), w.idleMS+300000)) }

// checkHoldings judges what ckube opened, and what it still holds.
func (h *history) checkHoldings(fp *footprint) {
	w := h.w
	conf := w.finalConf()
	slack := 2000 + h.netMS() + w.p.Sched.stallBudget()
	changed := func(t0, t1 int64) bool {
		for i, e := range w.confs {
			if i > 0 && e.StartMS <= t1 && (e.DoneMS < 0 || e.DoneMS+w.convMS() >= t0) {
				return true
			}
		}
		return false
	}
	want := map[string]bool{}
	for _, c := range conf.Clusters {
		for _, r := range conf.Res {
			want[cg(w.p.Clusters[c], resTypes[r].GVR)] = true
		}
	}
	for _, k := range w.kubes {
		n := 0
		for i := range resTypes {
			key := cg(k.name, resTypes[i].GVR)
			ss := h.streams[key]
			open, recent := 0, 0
			for _, s := range ss {
				switch {
				case s.OpenMS > fp.atMS:
				case s.CloseMS < 0 || s.CloseMS > fp.atMS:
					open++
				case s.CloseMS > fp.atMS-100000: // reached the API server's time limit, its connection may be kept
					recent++
				}
			}
			n += open + recent
			sim.probe("streams-checked")
			switch {
			case want[key] && open+recent == 0:
				sim.violate(h.reloadProps("C17,C01"), "no-stream", "t=%d: no stream for %s of cluster %s, %d ms after the last fault", fp.atMS, resTypes[i].Resource, k.name, fp.atMS-w.healMS)
			case want[key] && open > 1:
				sim.violate("C17", "streams", "t=%d: %d streams for %s of cluster %s", fp.atMS, open, resTypes[i].Resource, k.name)
			case !want[key] && open > 0:
				sim.violate("C17,C11", "streams", "t=%d: %d streams for %s of cluster %s, which are not configured", fp.atMS, open, resTypes[i].Resource, k.name)
			}
			// two at a time
			for a := 0; a < len(ss); a++ {
				for b := a + 1; b < len(ss); b++ {
					from, to := max(ss[a].OpenMS, ss[b].OpenMS), fp.atMS
					for _, s := range []*Watch{ss[a], ss[b]} {
						if s.CloseMS >= 0 && s.CloseMS < to {
							to = s.CloseMS
						}
					}
					if to-from <= slack {
						continue
					}
					if changed(from, to) || h.partitioned(k.name, ss[a].OpenMS, to) {
						sim.probe("overlap-excused")
						continue
					}
					sim.violate("C17", "two-streams", "two streams for %s of cluster %s during [%d,%d]", resTypes[i].Resource, k.name, from, to)
					return
				}
			}
			h.checkPace(k, &resTypes[i], changed)
		}
		if got := len(fp.ups[k.host]); got > n {
			sim.violate("C17", "connections", "t=%d: %d connections to cluster %s for %d streams, %d ms after the last request: %v", fp.atMS, got, k.name, n, fp.atMS-w.idleMS, fp.ups[k.host])
		}
	}
	if len(fp.stale) > 0 {
		sim.violate("C17", "sockets", "t=%d: %d connections of clients that left are still open: %v", fp.atMS, len(fp.stale), fp.stale)
	}
	total := 0
	for _, n := range fp.gor {
		total += n
	}
	lim := 8 + len(want)*3
	over := total > lim
	for k, n := range fp.gor {
		// no client is there, and any number of reloads has passed
		over = over || n > 4 && !strings.HasPrefix(k, "watcher.") && !strings.HasPrefix(k, "store/")
	}
	if over {
		var l []string
		for k, n := range fp.gor {
			l = append(l, fmt.Sprintf("%d %s", n, k))
		}
		sort.Strings(l)
		sim.violate("C17", "goroutines", "t=%d: %d goroutines for %d streams: %s", fp.atMS, total, len(want), strings.Join(l, ", "))
	}
	sim.probe("holdings-checked")
	sim.logf("footprint: %d goroutines for %d streams, limit %d: %v", total, len(want), lim, fp.gor)
}

// checkPace looks for an API server being hammered.
func (h *history) checkPace(k *Kube, rt *ResType, changed func(t0, t1 int64) bool) {
	var at []int64
	var last *ReqLog
	for _, lg := range k.reqs {
		if lg.Watch && lg.Req == "" && lg.Path == rt.path("", "") {
			// net/http sends a request again, at once, when a connection it has
			// used before breaks before the answer: that is one attempt
			if last == nil || !last.Broken || lg.AtMS-last.AtMS > 2000 {
				at = append(at, lg.AtMS)
			}
			last = lg
		}
	}
	const window, most = 10000, 8
	for i := most; i < len(at); i++ {
		if at[i]-at[i-most] < window && !changed(at[i-most], at[i]) && !h.partitioned(k.name, at[i-most]-3000, at[i]) {
			sim.violate("C17", "hammering", "%d watch requests for %s within %d ms from t=%d on cluster %s", most+1, rt.Resource, at[i]-at[i-most], at[i-most], k.name)
			return
		}
	}
	if n := len(at); n > 1 {
		sim.probe("pace-checked")
	}
}

// checkAddresses: what ckube asks after a change of the kubeconfig is asked at
// the address that is written there.
func (h *history) checkAddresses() {
	w := h.w
	if !w.reloaded() || w.p.Mode == "env" {
		return
	}
	for i, k := range w.kubes {
		for _, lg := range k.reqs {
			if !strings.HasPrefix(lg.Remote, "ckube:") {
				continue
			}
			t0 := lg.AtMS - 2000 - w.p.Sched.stallBudget()
			if lg.Req != "" || !lg.Watch {
				t0 = lg.AtMS - 95000 // it may have been sent before
			}
			for _, f := range w.faults {
				// what was sent before a partition arrives after it
				if f.Kind == "hole" && f.C == i && f.From <= lg.AtMS && f.To >= t0 && f.From-2000 < t0 {
					t0 = f.From - 2000
				}
			}
			cs := w.confsAt(1, t0, lg.AtMS)
			ok := cs.any
			for _, c := range cs.confs {
				ok = ok || c.moved(i) == strings.HasPrefix(lg.Host, otherHost)
			}
			if !ok {
				sim.violate("C11", "old-address", "t=%d: %s %s?%s of cluster %s went to %s, which the kubeconfig in force does not say", lg.AtMS, lg.Method, lg.Path, lg.Query, k.name, lg.Host)
				return
			}
			sim.probe("address-checked")
		}
	}
}

// checkDials does the same as checkPace for connections that were refused.
func (h *history) checkDials() {
	by := map[string][]int64{}
	for _, d := range simnet.dials {
		by[d.host] = append(by[d.host], d.at)
	}
	conf := h.w.p.Confs
	most := 0
	for i := range conf {
		most = max(most, 6*len(conf[i].Res))
	}
	for _, k := range h.w.kubes {
		// requests of clients lead to connections, too
		at := by[k.host]
		n := 0
		for i := range at {
			for n < i && at[i]-at[n] > 10000 {
				n++
			}
			if got := i - n + 1; got > most+4+h.clientLoad(at[n]-2000, at[i]) {
				sim.violate("C17", "hammering", "%d connections to cluster %s were opened within %d ms from t=%d on", got, k.name, at[i]-at[n], at[n])
				return
			}
		}
		if len(at) > 0 {
			sim.probe("dials-checked")
		}
	}
}

// clientLoad bounds the connections that clients' requests may need.
func (h *history) clientLoad(t0, t1 int64) int {
	n := 0
	for _, rd := range h.w.reads {
		if rd.T0 <= t1 && (rd.T1 < 0 || rd.T1 >= t0) {
			n += 4
		}
	}
	for _, cw := range h.w.watches {
		if cw.OpenMS <= t1 && (cw.EndMS <= 0 || cw.EndMS >= t0) {
			n += 4
		}
	}
	for i, e := range h.w.confs {
		if i > 0 && e.StartMS <= t1 && (e.DoneMS < 0 || e.DoneMS+h.w.convMS() >= t0) {
			n += 60
		}
	}
	return n
}

// reloadProps adds the properties about reloads when the run had any.
func (h *history) reloadProps(props string) string {
	if h.w.reloaded() {
		props += ",C11,C12"
	}
	return props
}

// checkGaps verifies that ckube watches every configured type of every healthy
// cluster again soon after a stream has ended, a fault is over or the
// configuration has changed.
func (h *history) checkGaps() {
	w := h.w
	const settle = 300000 // after a fault
	bound := 25000 + h.deltaMS + 4*h.netMS() + w.p.Sched.stallBudget()
	end := nowMS()
	for ci, k := range w.kubes {
		for r := range resTypes {
			ss := h.streams[cg(k.name, resTypes[r].GVR)]
			ts := []int64{0}
			for _, s := range ss {
				if s.CloseMS >= 0 {
					ts = append(ts, s.CloseMS)
				}
			}
			for _, e := range w.confs {
				if e.DoneMS >= 0 {
					ts = append(ts, e.DoneMS+w.convMS())
				}
			}
			for _, f := range w.faults {
				if f.C == ci {
					ts = append(ts, f.To+1000+settle+1)
				}
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
			for _, t := range ts {
				to := t + bound
				if to > end || h.troubled(k.name, t-settle, to) {
					continue
				}
				cs, any := w.possible(t, to)
				wanted := !any
				for _, c := range cs {
					wanted = wanted && c.hasCluster(ci) && c.hasRes(r)
				}
				if !wanted {
					continue
				}
				covered := false
				for _, s := range ss {
					covered = covered || s.OpenMS <= to && (s.CloseMS < 0 || s.CloseMS > t)
				}
				sim.probe("gaps-checked")
				if !covered {
					sim.violate(h.reloadProps("C17,C01,C04"), "no-stream-gap", "nothing watches %s of cluster %s during [%d,%d], which is healthy and configured", resTypes[r].Resource, k.name, t, to)
					return
				}
			}
		}
	}
}
