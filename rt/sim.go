// Runtime side of the deterministic simulator (added to package runtime by the
// overlay that /verif/tools/simctl generates; never part of a shipped build).
//
// With GOMAXPROCS=1, no sysmon and no GC, everything the Go runtime decides by
// chance - which runnable goroutine runs, which ready select case fires, map
// iteration order, hash seeds, the order of timers that expire together - is
// drawn from the generators below, which are seeded by the simulator.
package runtime

import _ "unsafe" // for go:linkname

var (
	simOn        bool
	simRandState uint64 = 0x9E3779B97F4A7C15
	simSelState  uint64
	simPickState uint64
	simTimeState uint64
	simMapState  uint64
	simPickMode  int32
	simMapProb   uint32 // of 65536
	simPicks     uint64 // scheduling decisions with more than one candidate
	simPickHash  uint64
	simSwitches  uint64
	simMapYields uint64
	simGen       uint64
	simYieldFn   func(site uint32)
)

//go:nosplit
func simNext(p *uint64) uint64 {
	*p += 0x9E3779B97F4A7C15
	z := *p
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:nosplit
func simNextn(p *uint64, n uint32) uint32 {
	return uint32((uint64(uint32(simNext(p))) * uint64(n)) >> 32)
}

// SimStart seeds every stream and turns the simulated scheduler on.
func SimStart(seed uint64, pickMode int32, mapProb uint32, yield func(site uint32)) {
	s := seed
	simRandState = simNext(&s)
	simSelState = simNext(&s)
	simPickState = simNext(&s)
	simTimeState = simNext(&s)
	simMapState = simNext(&s)
	simPrioSeed = simNext(&s)
	simPickMode = pickMode
	simMapProb = mapProb
	simYieldFn = yield
	simGen = 1 << 20 // numbers must not depend on what the process did before
	simOn = true
}

// SimStats reports scheduling decisions taken, their hash, context switches
// and map-write preemptions so far.
func SimStats() (picks, hash, switches, mapYields uint64) {
	return simPicks, simPickHash, simSwitches, simMapYields
}

// SimYield is the statement-level yield point compiled into the code under test.
func SimYield(site uint32) {
	if simOn && simYieldFn != nil && getg().bubble != nil {
		simYieldFn(site)
	}
}

// SimYieldV is a yield point in the middle of an expression.
func SimYieldV[T any](site uint32, v T) T {
	SimYield(site)
	return v
}

// SimPreempt gives up the processor and draws a new priority.
func SimPreempt() {
	getg().simEpoch++
	Gosched()
}

// SimSleep stalls the calling goroutine for ns of simulated time.
func SimSleep(ns int64) {
	timeSleep(ns)
}

// SimGID identifies the calling goroutine (stable across replays).
func SimGID() uint64 { return getg().simID }

// SimSetTag marks the calling goroutine and those it starts from now on.
func SimSetTag(t int32) { getg().simTag = t }

// SimTag reports the mark of the calling goroutine.
func SimTag() int32 { return getg().simTag }

// simMapWriteYield runs inside map writes, after the map has been marked as
// being written: unsynchronised use of the same map by another goroutine then
// dies exactly as it does in production.
//
//go:linkname simMapWriteYield internal/runtime/maps.simMapWriteYield
func simMapWriteYield() {
	if !simOn || simMapProb == 0 {
		return
	}
	gp := getg()
	if gp.bubble == nil || gp != gp.m.curg || gp.m.locks != 0 || gp.m.mallocing != 0 || gp.m.dying != 0 || gp.simNoMap != 0 {
		return
	}
	if simNextn(&simMapState, 65536) >= simMapProb {
		return
	}
	simMapYields++
	gp.simEpoch++
	Gosched()
}

// SimNoMap switches map-write preemption off (d=+1) or back on (d=-1) for the
// calling goroutine.
func SimNoMap(d int32) { getg().simNoMap += d }

// simChoose moves the goroutine to run next to the head of the queue.
func simChoose(pp *p, h, t uint32) {
	if !simOn {
		return
	}
	n := t - h
	if n <= 1 {
		simSwitches++
		return
	}
	ln := uint32(len(pp.runq))
	// Goroutines outside the simulation run first, in order.
	for i := uint32(0); i < n; i++ {
		if pp.runq[(h+i)%ln].ptr().bubble == nil {
			g := pp.runq[(h+i)%ln]
			for j := i; j > 0; j-- {
				pp.runq[(h+j)%ln] = pp.runq[(h+j-1)%ln]
			}
			pp.runq[h%ln] = g
			return
		}
	}
	var k uint32
	switch simPickMode {
	case 0:
		k = 0
	case 1:
		k = simNextn(&simPickState, n)
	default:
		if simNextn(&simPickState, 64) == 0 {
			k = simNextn(&simPickState, n)
		} else {
			var best uint64
			for i := uint32(0); i < n; i++ {
				g := pp.runq[(h+i)%ln].ptr()
				x := g.simID*0x9E3779B97F4A7C15 ^ uint64(g.simEpoch)*0xC2B2AE3D27D4EB4F ^ simPrioSeed
				p := simNext(&x)
				if i == 0 || p > best {
					best, k = p, i
				}
			}
		}
	}
	g := pp.runq[(h+k)%ln]
	for j := k; j > 0; j-- {
		pp.runq[(h+j)%ln] = pp.runq[(h+j-1)%ln]
	}
	pp.runq[h%ln] = g
	simPicks++
	simSwitches++
	simPickHash = (simPickHash ^ g.ptr().simID) * 0x100000001b3
}

var simPrioSeed uint64

// SimRun runs f in a fresh bubble with its own clock.
func SimRun(f func()) { synctestRun(f) }

// SimWait blocks until every other goroutine of the bubble is blocked.
func SimWait() { synctestWait() }

// SimInBubble reports whether the caller runs inside the simulation.
func SimInBubble() bool { return getg().bubble != nil }
