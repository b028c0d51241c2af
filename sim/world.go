package main

import (
	"cosmossdk.io/log"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash"
	"hash/fnv"
	"os"
	"reflect"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

func realNow() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

// Rng is splitmix64.
type Rng struct{ s uint64 }

func NewRng(seed uint64, label string) *Rng {
	h := fnv.New64a()
	h.Write([]byte(label))
	r := &Rng{seed*0x9E3779B97F4A7C15 ^ h.Sum64()}
	r.Next()
	r.Next()
	return r
}
func (r *Rng) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}
func (r *Rng) In(lo, hi int) int   { return lo + r.N(hi-lo+1) }
func (r *Rng) P(num, den int) bool { return r.N(den) < num }
func (r *Rng) Fork(l string) *Rng  { return NewRng(r.Next(), l) }
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, 0, n+8)
	for len(b) < n {
		b = binary.LittleEndian.AppendUint64(b, r.Next())
	}
	return b[:n]
}
func pick[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }

// World is one simulated execution.
type World struct {
	prop     string
	seed     uint64
	sched    uint64
	keep     []byte // '0' = op removed by the minimiser
	hist     hash.Hash
	trace    []string
	verbose  bool
	faults   map[string]int
	counts   map[string]int
	samples  []string
	distinct map[string]bool // non-trivial situations reached, by label
	states   map[uint64]bool // distinct state digests
	start    time.Time
	nops     int
	finished bool
	dbg      bool
	points   []string
}

var W *World

func (w *World) logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if i := strings.Index(s, "\nstack:"); i >= 0 {
		s = s[:i]
	}
	t := fmt.Sprintf("%9.3fs ", time.Since(w.start).Seconds())
	w.hist.Write([]byte(t + s + "\n"))
	if w.dbg {
		c, y, tr := runtime.DetStats()
		w.points = append(w.points, fmt.Sprintf("%d %d %x m%d g%d h%x %s", c, y, tr, pprof.Lookup("threadcreate").Count(), runtime.NumGoroutine(), reflect.ValueOf(new(int64)).Pointer(), t+trunc(s)))
	}
	w.trace = append(w.trace, t+s)
	if w.verbose {
		fmt.Fprintln(os.Stderr, t+s)
	}
}

func newHist() hash.Hash { return sha256.New() }

func (w *World) fault(kind string)         { w.faults[kind]++ }
func (w *World) count(kind string)         { w.counts[kind]++ }
func (w *World) countN(kind string, n int) { w.counts[kind] += n }
func (w *World) reach(label string)        { w.distinct[label] = true }
func (w *World) state(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	w.states[h.Sum64()] = true
}
func (w *World) sample(f string, a ...any) {
	if len(w.samples) < 6 {
		w.samples = append(w.samples, fmt.Sprintf(f, a...))
	}
}

type Result struct {
	OK       bool           `json:"ok"`
	Prop     string         `json:"prop"`
	Seed     uint64         `json:"seed"`
	Sched    uint64         `json:"sched"`
	Class    string         `json:"class,omitempty"`
	Msg      string         `json:"msg,omitempty"`
	Known    []string       `json:"known,omitempty"`
	Hash     string         `json:"hash"`
	SimNs    int64          `json:"sim_ns"`
	Choices  uint64         `json:"choices"`
	Yields   uint64         `json:"yields"`
	SchedTr  uint64         `json:"sched_trace"`
	Ops      int            `json:"ops"`
	Faults   map[string]int `json:"faults"`
	Counts   map[string]int `json:"counts"`
	Distinct []string       `json:"distinct"`
	States   []uint64       `json:"states"`
	Samples  []string       `json:"samples"`
	Trace    []string       `json:"trace,omitempty"`
	WallMs   int64          `json:"wall_ms"`
	Points   []string       `json:"points,omitempty"`
}

var wallStart int64

func (w *World) emit(class, msg string) {
	if w.finished {
		select {}
	}
	w.finished = true
	if class != "" {
		w.hist.Write([]byte("VIOLATION " + class + " " + msg))
	}
	c, y, tr := runtime.DetStats()
	r := Result{OK: class == "", Prop: w.prop, Seed: w.seed, Sched: w.sched, Class: class, Msg: msg,
		Hash: fmt.Sprintf("%x", w.hist.Sum(nil)), SimNs: int64(time.Since(w.start)),
		Choices: uint64(c), Yields: uint64(y), SchedTr: uint64(tr), Ops: w.nops,
		Faults: w.faults, Counts: w.counts, Samples: w.samples}
	for k := range w.distinct {
		r.Distinct = append(r.Distinct, k)
	}
	sort.Strings(r.Distinct)
	for k := range w.states {
		r.States = append(r.States, k)
	}
	sort.Slice(r.States, func(i, j int) bool { return r.States[i] < r.States[j] })
	if len(r.States) > 400 {
		r.States = r.States[:400]
	}
	r.Known = knownHits
	r.Points = w.points
	if class != "" || w.verbose {
		r.Trace = w.trace
	}
	r.WallMs = (realNow() - wallStart) / 1e6
	bz, _ := json.Marshal(r)
	out := os.Stdout
	if p := os.Getenv("SIM_OUT"); p != "" {
		f, err := os.Create(p)
		if err == nil {
			out = f
		}
	}
	out.Write(append(bz, '\n'))
	out.Sync()
	if class != "" {
		syscall.Exit(10)
	}
	syscall.Exit(0)
}

// violate stops the run with a violation of the property under check.
func (w *World) violate(class, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if k := knownFinding(w.prop, class, msg); k != "" {
		hit := false
		for _, x := range knownHits {
			hit = hit || x == k
		}
		if !hit {
			knownHits = append(knownHits, k)
		}
		w.logf("known finding %s: %s", k, msg)
		return
	}
	w.logf("VIOLATION %s: %s", class, msg)
	w.emit(class, msg)
}

// abort ends a run in which the harness itself met something it cannot judge.
func (w *World) abort(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	fmt.Fprintln(os.Stderr, "HARNESS: "+msg)
	fmt.Fprintln(os.Stderr, strings.Join(w.trace[max(0, len(w.trace)-30):], "\n"))
	syscall.Exit(4)
}

func detBytes(s string, i int) []byte {
	h := sha256.Sum256([]byte(s + string(binary.BigEndian.AppendUint64(nil, uint64(i)))))
	return h[:]
}

// known findings, loaded from the committed file by the driver and passed in.
type knownEntry struct {
	ID, Prop, Class, Contains string
}

var knownList []knownEntry
var knownHits []string

func loadKnown() {
	p := os.Getenv("SIM_KNOWN")
	if p == "" {
		return
	}
	bz, err := os.ReadFile(p)
	if err != nil {
		return
	}
	json.Unmarshal(bz, &knownList)
}

func knownFinding(prop, class, msg string) string {
	for _, k := range knownList {
		if k.Prop == prop && k.Class == class && (k.Contains == "" || strings.Contains(msg, k.Contains)) {
			return k.ID
		}
	}
	return ""
}

// simLogger shows the node's own error log in verbose single runs.
func simLogger() log.Logger {
	if W != nil && W.verbose && os.Getenv("SIM_NODELOG") != "" {
		return log.NewLogger(os.Stderr, log.LevelOption(3))
	}
	return log.NewNopLogger()
}
