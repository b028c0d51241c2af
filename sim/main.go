package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"time"
)

// usage: child PROP SEED SCHED KEEP  (KEEP: string of 0/1, '-' padded)
// SIM_VERBOSE=1 prints the trace. The execution is a function of these alone.

// simExit is what a simulated node's os.Exit turns into.
type simExit struct{ code int }

type scenario func(w *World)

var scenarios = map[string]scenario{}

func main() {
	if len(os.Args) < 5 {
		fmt.Fprintln(os.Stderr, "usage: child PROP SEED SCHED KEEP")
		os.Exit(5)
	}
	wallStart = realNow()
	seed, _ := strconv.ParseUint(os.Args[2], 10, 64)
	sched, _ := strconv.ParseUint(os.Args[3], 10, 64)
	loadKnown()
	w := &World{prop: os.Args[1], seed: seed, sched: sched, hist: newHist(), faults: map[string]int{}, counts: map[string]int{}, distinct: map[string]bool{}, states: map[uint64]bool{}}
	w.keep = []byte(os.Args[4])
	w.verbose = os.Getenv("SIM_VERBOSE") == "1"
	w.dbg = os.Getenv("SIM_VERBOSE") == "2"
	W = w
	sc := scenarios[w.prop]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "no scenario", w.prop)
		os.Exit(5)
	}
	r := NewRng(seed^sched*0x9E3779B97F4A7C15, "sched")
	mode := uint32(r.N(2))
	epoch := uint32(r.In(50, 3000))
	yield := []uint32{0, 64, 512, 4096}[r.N(4)]
	mapY := []uint32{0, 8, 64}[r.N(3)]
	runtime.DetStart(r.Next(), mode, epoch, yield, mapY)
	w.start = time.Now()
	os.DetExit = func(code int) { panic(simExit{code}) }
	sc(w)
	w.emit("", "")
}

// on reports whether operation i is kept by the minimiser.
func (w *World) on(i int) bool {
	if i+1 > w.nops {
		w.nops = i + 1
	}
	if n := len(w.keep); i >= n {
		i = n - 1
	}
	return i < 0 || w.keep[i] != '0'
}

func sorted(s []string) []string { sort.Strings(s); return s }
