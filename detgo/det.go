// Deterministic-simulation support, added to the Go runtime by /verif/detgo.
//
// Under this runtime, with GOMAXPROCS=1, no sysmon and fake time, the only
// choices left are: which runnable goroutine goes next, whether a goroutine
// yields at a synchronisation point, the poll order of select, map iteration
// order and runtime randomness.  All of them are drawn from the streams below.

package runtime

import _ "unsafe"

type detState struct {
	on      bool
	mode    uint32 // 0 random walk, 1 hashed priorities with epochs
	epoch   uint64
	elen    uint64
	yield   uint32 // probability (per 65536) of yielding at a sync point
	myield  uint32 // probability (per 65536) of yielding at a map operation
	sched   uint64
	sel     uint64
	gen     uint64
	yrng    uint64
	choices uint64
	yields  uint64
	trace   uint64
}

var det detState

//go:nosplit
func detNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// DetStart seeds every stream and turns deterministic choice on.
func DetStart(seed uint64, mode, epochLen, yield, mapYield uint32) {
	s := seed
	det.sched = detNext(&s)
	det.sel = detNext(&s)
	det.gen = detNext(&s)
	det.yrng = detNext(&s)
	det.mode = mode
	det.elen = uint64(epochLen)
	if det.elen == 0 {
		det.elen = 64
	}
	det.yield = yield
	det.myield = mapYield
	det.choices, det.yields, det.trace = 0, 0, 0
	det.on = true
}

// DetReseed replaces the map/randomness stream (a fresh "process").
func DetReseed(seed uint64) { det.gen = seed }

// DetYieldRates changes the yield probabilities.
func DetYieldRates(yield, mapYield uint32) { det.yield, det.myield = yield, mapYield }

// DetStats reports scheduling choices made, yields taken and a hash of them.
func DetStats() (choices, yields, trace uint64) { return det.choices, det.yields, det.trace }

// DetPoint is an explicit yield point with its own probability.
func DetPoint(per65536 uint32) {
	if det.on && uint32(detNext(&det.yrng)&0xffff) < per65536 {
		detGosched()
	}
}

func detGosched() {
	gp := getg()
	if gp != gp.m.curg || !canPreemptM(gp.m) || gp.m.locks != 0 {
		return
	}
	det.yields++
	mcall(gosched_m)
}

// detYield is called at synchronisation points.
func detYield() {
	if det.yield == 0 {
		return
	}
	gp := getg()
	if gp != gp.m.curg || gp.m.locks != 0 || !canPreemptM(gp.m) {
		return
	}
	if uint32(detNext(&det.yrng)&0xffff) < det.yield {
		det.yields++
		mcall(gosched_m)
	}
}

// detMapYield is called around map operations.
func detMapYield() {
	if det.myield == 0 {
		return
	}
	gp := getg()
	if gp != gp.m.curg || gp.m.locks != 0 || !canPreemptM(gp.m) {
		return
	}
	if uint32(detNext(&det.yrng)&0xffff) < det.myield && !detHarness() {
		det.yields++
		mcall(gosched_m)
	}
}

// detHarness reports whether the map operation is one of package main, the
// simulator itself, whose maps need no test of their locking.
func detHarness() bool {
	var pcs [6]uintptr
	n := callers(1, pcs[:])
	for _, pc := range pcs[:n] {
		name := funcname(findfunc(pc))
		if len(name) > 8 && name[:8] == "runtime." {
			continue
		}
		return len(name) > 5 && name[:5] == "main."
	}
	return false
}

//go:linkname sync_detYield sync.runtime_detYield
func sync_detYield() { detYield() }

// detPick chooses among the n runnable goroutines queued at pp.
func detPick(pp *p, h, n uint32) uint32 {
	l := uint32(len(pp.runq))
	for i := uint32(0); i < n; i++ {
		gp := pp.runq[(h+i)%l].ptr()
		if isSystemGoroutine(gp, false) {
			return i
		}
	}
	if n == 1 {
		return 0
	}
	det.choices++
	var k uint32
	if det.mode == 1 {
		if det.choices%det.elen == 0 {
			det.epoch = detNext(&det.sched)
		}
		best := uint64(0)
		for i := uint32(0); i < n; i++ {
			x := det.epoch ^ (pp.runq[(h+i)%l].ptr().goid * 0x9e3779b97f4a7c15)
			v := detNext(&x)
			if i == 0 || v > best {
				best, k = v, i
			}
		}
	} else {
		k = uint32(detNext(&det.sched) % uint64(n))
	}
	det.trace = (det.trace ^ pp.runq[(h+k)%l].ptr().goid) * 0x100000001b3
	return k
}

// detRunqget replaces runqget when det.on.
func detRunqget(pp *p) (gp *g, inheritTime bool) {
	l := uint32(len(pp.runq))
	if next := pp.runnext; next != 0 && pp.runnext.cas(next, 0) {
		if pp.runqtail-pp.runqhead < l {
			pp.runq[pp.runqtail%l].set(next.ptr())
			pp.runqtail++
		} else {
			return next.ptr(), false
		}
	}
	if sched.runqsize > 0 {
		lock(&sched.lock)
		for sched.runqsize > 0 && pp.runqtail-pp.runqhead < l {
			g1 := sched.runq.pop()
			sched.runqsize--
			pp.runq[pp.runqtail%l].set(g1)
			pp.runqtail++
		}
		unlock(&sched.lock)
	}
	h, t := pp.runqhead, pp.runqtail
	if h == t {
		return nil, false
	}
	k := detPick(pp, h, t-h)
	gp = pp.runq[(h+k)%l].ptr()
	// keep arrival order of the rest
	for i := k; i > 0; i-- {
		pp.runq[(h+i)%l] = pp.runq[(h+i-1)%l]
	}
	pp.runqhead = h + 1
	return gp, false
}
