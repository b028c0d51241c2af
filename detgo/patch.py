#!/usr/bin/env python3
"""Builds a deterministic GOROOT: patch.py SRC_GOROOT DST_GOROOT"""
import os, shutil, sys
src, dst = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__))
tmp = dst + ".tmp"
shutil.rmtree(tmp, ignore_errors=True)
os.makedirs(tmp)
for d in ("bin", "pkg", "src", "lib", "misc"):
    if os.path.isdir(f"{src}/{d}"):
        shutil.copytree(f"{src}/{d}", f"{tmp}/{d}", symlinks=True)
for f in ("VERSION", "go.env"):
    shutil.copy2(f"{src}/{f}", f"{tmp}/{f}")

def sub(path, old, new, count=1):
    p = f"{tmp}/src/{path}"
    s = open(p).read()
    if s.count(old) != count:
        sys.exit(f"detgo: {path}: expected {count} of {old!r}, found {s.count(old)}")
    open(p, "w").write(s.replace(old, new))

shutil.copy2(f"{here}/det.go", f"{tmp}/src/runtime/det.go")

# --- scheduler -------------------------------------------------------------
sub("runtime/proc.go", "func runqget(pp *p) (gp *g, inheritTime bool) {\n",
    "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif det.on {\n\t\treturn detRunqget(pp)\n\t}\n")
sub("runtime/proc.go", "if pp.schedtick%61 == 0 && sched.runqsize > 0 {",
    "if !det.on && pp.schedtick%61 == 0 && sched.runqsize > 0 {")
sub("runtime/proc.go", 'const haveSysmon = GOARCH != "wasm"', "const haveSysmon = false")
# the spare M that cgo keeps must not stop fake time from advancing
sub("runtime/proc.go", "	if !iscgo && cgoHasExtraM && extraMLength.Load() > 0 {\n		run0 = 1\n	}", "	run0 = int32(extraMLength.Load())")
# Go code runs on the locked main thread while packages initialise. The thread
# that hands over to it must be on the idle list before the other one runs, or a
# further thread is made (and the heap laid out differently) now and then.
sub("runtime/proc.go", """	mp.nextp.set(pp)
	notewakeup(&mp.park)
	stopm()
}
""", """	mp.nextp.set(pp)
	lock(&sched.lock)
	mput(getg().m)
	unlock(&sched.lock)
	notewakeup(&mp.park)
	mPark()
	self := getg().m
	acquirep(self.nextp.ptr())
	self.nextp = 0
}
""")
# --- select ----------------------------------------------------------------
sub("runtime/select.go", "j := cheaprandn(uint32(norder + 1))",
    "j := uint32(detNext(&det.sel) % uint64(norder+1))")
sub("runtime/select.go", "	gp := getg()\n	if debugSelect {", "	detYield()\n	gp := getg()\n	if debugSelect {") if "	gp := getg()\n	if debugSelect {" in open(f"{tmp}/src/runtime/select.go").read() else \
sub("runtime/select.go", "	if debugSelect {\n		print(\"select: cas0=\"", "	detYield()\n	if debugSelect {\n		print(\"select: cas0=\"")
# --- channels --------------------------------------------------------------
sub("runtime/chan.go", "func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n\tdetYield()\n")
sub("runtime/chan.go", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tdetYield()\n")
sub("runtime/chan.go", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tdetYield()\n")
# --- randomness ------------------------------------------------------------
p = f"{tmp}/src/runtime/rand.go"
s = open(p).read()
a = s.index("func rand() uint64 {"); b = s.index("// mrandinit initializes")
s = s[:a] + "func rand() uint64 {\n\treturn detNext(&det.gen)\n}\n\n" + s[b:]
old = "\tif startupRand != nil {"
assert s.count(old) == 1
s = s.replace(old, "\tif true {\n\t\tstartupRand = nil\n\t} else if startupRand != nil {")
open(p, "w").write(s)
# --- maps: yields around and inside operations -----------------------------
for f, fns in {
    "map.go": ["mapaccess1", "mapaccess2", "mapassign", "mapdelete"],
    "map_fast32.go": ["mapaccess1_fast32", "mapaccess2_fast32", "mapassign_fast32", "mapassign_fast32ptr", "mapdelete_fast32"],
    "map_fast64.go": ["mapaccess1_fast64", "mapaccess2_fast64", "mapassign_fast64", "mapassign_fast64ptr", "mapdelete_fast64"],
    "map_faststr.go": ["mapaccess1_faststr", "mapaccess2_faststr", "mapassign_faststr", "mapdelete_faststr"],
}.items():
    p = f"{tmp}/src/runtime/{f}"
    s = open(p).read()
    for fn in fns:
        i = s.index(f"\nfunc {fn}(")
        j = s.index("{\n", i) + 2
        s = s[:j] + "\tif det.myield != 0 {\n\t\tdetMapYield()\n\t}\n" + s[j:]
        if "assign" in fn or "delete" in fn:
            k = s.index("h.flags ^= hashWriting\n", j) + len("h.flags ^= hashWriting\n")
            s = s[:k] + "\tif det.myield != 0 {\n\t\tdetMapYield()\n\t}\n" + s[k:]
    open(p, "w").write(s)
# --- fake time -------------------------------------------------------------
sub("runtime/time_fake.go", "1257894000000000000", "1735689600000000000")
sub("runtime/time_fake.go", "if !(fd == 1 || fd == 2) {", "if true {")
sub("syscall/time_fake.go", "const faketime = true", "const faketime = false")
# --- sync ------------------------------------------------------------------
sub("sync/runtime.go", "func runtime_doSpin()\n", "func runtime_doSpin()\n\nfunc runtime_detYield()\n")
sub("sync/mutex.go", "func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\truntime_detYield()\n")
sub("sync/rwmutex.go", "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\truntime_detYield()\n")
p = f"{tmp}/src/sync/mutex.go"
s = open(p).read()
i = s.index("func (m *Mutex) Unlock() {")
j = s.index("\n}\n", i)
body = s[i:j]
body = body.replace("\t\tm.unlockSlow(new)\n\t}", "\t\tm.unlockSlow(new)\n\t}\n\truntime_detYield()")
assert "detYield" in body
s = s[:i] + body + s[j:]
open(p, "w").write(s)
# --- os.Exit: a simulated node ending its process must not end the simulator
sub("os/proc.go", "func Exit(code int) {\n", "func Exit(code int) {\n\tif DetExit != nil {\n\t\tDetExit(code)\n\t}\n")
sub("os/proc.go", "// Exit causes the current program", "// DetExit, when set, is called instead of ending the process.\nvar DetExit func(code int)\n\n// Exit causes the current program")
# --- crypto/rand -----------------------------------------------------------
p = f"{tmp}/src/crypto/rand/rand_unix.go"
s = open(p).read()
i = s.index("func (r *reader) Read("); j = s.index("// hideAgainReader masks")
s = s[:i] + """func (r *reader) Read(b []byte) (n int, err error) {
	for i := range b {
		b[i] = byte(randv2.Uint64() >> 24)
	}
	return len(b), nil
}

""" + s[j:]
s = s.replace('\t"io"\n\t"os"\n\t"sync"\n\t"sync/atomic"\n\t"syscall"\n\t"time"\n', '\t"io"\n\trandv2 "math/rand/v2"\n\t"sync"\n\t"sync/atomic"\n\t"syscall"\n')
open(p, "w").write(s)
shutil.rmtree(dst, ignore_errors=True)
os.rename(tmp, dst)
