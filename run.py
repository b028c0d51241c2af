#!/usr/bin/env python3
"""Driver of the deterministic simulation.

  run.py setup                         build the toolchain and the simulator
  run.py check PROP [--tier T]         search schedules and faults for violations of PROP
  run.py replay FILE                   reproduce a recorded violation
  run.py seed PROP SEED [SCHED]        one execution, verbose
"""
import json, os, signal, subprocess, sys, time, hashlib, shutil, re, fcntl
from concurrent.futures import ThreadPoolExecutor, wait, FIRST_COMPLETED

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = f"{HERE}/.build"
REPO = os.environ.get("SIM_REPO", "/repo")
GO = "/opt/veriftools/go1.23.12"
CHILD = f"{BUILD}/child"
KEEPLEN = 512

sys.path.insert(0, HERE)
from plan import PLAN  # noqa

def env():
    e = dict(os.environ)
    for k in ("GOFLAGS", "GOTOOLCHAIN", "GOROOT"):
        e.pop(k, None)
    gr = f"{BUILD}/goroot"
    e.update(GOROOT=gr, PATH=f"{gr}/bin:" + e.get("PATH", ""), GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="",
             GOCACHE=f"{BUILD}/gocache", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", CGO_ENABLED="1", HOME=e.get("HOME", "/root"))
    return e

def goroot():
    h = hashlib.sha256()
    for f in ("patch.py", "det.go"):
        h.update(open(f"{HERE}/detgo/{f}", "rb").read())
    stamp = f"{BUILD}/goroot.stamp"
    if os.path.isdir(f"{BUILD}/goroot") and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run([sys.executable, f"{HERE}/detgo/patch.py", GO, f"{BUILD}/goroot"], check=True)
    open(stamp, "w").write(h.hexdigest())

def build():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(f"{BUILD}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    goroot()
    rep = {}
    for f in sorted(os.listdir(f"{HERE}/sim")):
        if f.endswith(".go"):
            rep[f"{REPO}/verifsim/{f}"] = f"{HERE}/sim/{f}"
    ov = f"{BUILD}/overlay.json"
    json.dump({"Replace": rep}, open(ov, "w"))
    t = time.time()
    r = subprocess.run(["go", "build", "-overlay", ov, "-tags", "faketime", "-o", CHILD, "./verifsim"], cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("BUILD FAILED", file=sys.stderr)
        sys.exit(3)
    return time.time() - t

# ---- known findings
def findings():
    out = []
    for l in open(f"{HERE}/known-findings.txt"):
        m = re.match(r"finding: id=(\S+) property=(\S+) class=(\S+) contains=(.*?) \| (.*)", l.strip())
        if m:
            out.append(dict(ID=m[1], Prop=m[2], Class=m[3], Contains=m[4], what=m[5]))
    return out

def write_known():
    p = f"{BUILD}/known.json"
    bz = json.dumps([{k: f[k] for k in ("ID", "Prop", "Class", "Contains")} for f in findings()])
    open(p, "w").write(bz)
    return p

# ---- one execution
def child_env(out, verbose):
    # a fixed environment: the execution must not depend on ours
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "GOMAXPROCS": "1", "GOGC": "off", "HOST_PROC": "/nonexistent", "SIM_OUT": out, "SIM_KNOWN": f"{BUILD}/known.json"}
    if verbose:
        e["SIM_VERBOSE"] = "1"
    return e

procs = set()

def run1(prop, seed, sched, keep="", timeout=120, verbose=False, tag=""):
    keep = (keep + "-" * KEEPLEN)[:KEEPLEN]
    out = f"{BUILD}/out/{os.getpid():08d}.{tag:>06s}.json".replace(" ", "0")
    os.makedirs(f"{BUILD}/out", exist_ok=True)
    err = out[:-5] + ".err"
    t = time.time()
    with open(err, "wb") as ef:
        # argv is padded to a fixed size, so that nothing about the process image varies
        p = subprocess.Popen([CHILD, prop, f"{seed:020d}", f"{sched:020d}", keep], env=child_env(out, verbose), stdout=subprocess.DEVNULL if not verbose else None,
                             stderr=ef if not verbose else None, cwd="/", start_new_session=True)
        procs.add(p)
        try:
            p.wait(timeout)
            to = False
        except subprocess.TimeoutExpired:
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(5)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
            to = True
        procs.discard(p)
    stderr = "" if verbose else open(err, errors="replace").read()
    res = None
    try:
        res = json.load(open(out))
    except Exception:
        pass
    for f in (out, err):
        try: os.unlink(f)
        except OSError: pass
    r = dict(prop=prop, seed=seed, sched=sched, keep=keep.rstrip("-"), rc=p.returncode, wall=time.time() - t, res=res, stderr=stderr[-200000:])
    if to:
        r["kind"] = "timeout"
    elif p.returncode == 0 and res and res["ok"]:
        r["kind"] = "ok"
    elif p.returncode == 10 and res:
        r["kind"] = "violation"; r["class"] = res["class"]; r["msg"] = res["msg"]; r["hash"] = res["hash"]
    elif p.returncode in (2,) :
        # the Go runtime ended the process: unrecovered panic, fatal error (concurrent map access), deadlock
        r["kind"] = "violation"
        s = stderr
        m = re.search(r"^(panic:|fatal error:|runtime:|SIGSEGV)[^\n]*", s, re.M)
        r["msg"] = (m[0] if m else "process ended") + "\n" + "\n".join(x for x in s.splitlines() if "/repo/" in x or "minievm" in x)[:2000]
        r["class"] = "process-died: " + (re.sub(r"0x[0-9a-f]+|\d+", "N", m[0])[:120] if m else "?")
        r["hash"] = hashlib.sha256(r["class"].encode()).hexdigest()
        if m and "out of memory" in m[0]:
            r["kind"] = "harness"
    else:
        r["kind"] = "harness"
    return r

def stop(*_):
    for p in list(procs):
        try: p.kill()
        except OSError: pass
    sys.exit(6)

# ---- minimise: schedule first, then the operation list
def minimise(v, budget=60):
    t0 = time.time()
    best = v
    same = lambda r: r["kind"] == "violation" and r["class"] == best["class"]
    tries = 0
    def attempt(cands):
        """run candidates in parallel, return the first that still fails alike"""
        nonlocal tries
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda c: run1(v["prop"], v["seed"], c[0], c[1], tag=f"m{c[2]}"), [(s, k, i) for i, (s, k) in enumerate(cands)]))
        tries += len(rs)
        for r in rs:
            if same(r):
                return r
        return None
    nops = min(KEEPLEN, (v["res"] or {}).get("ops", 0) or KEEPLEN)
    keep, tail = list("1" * nops), ""
    # operations after the failure are not part of it
    if nops < KEEPLEN:
        r = attempt([(v["sched"], "1" * nops + "0" * (KEEPLEN - nops))])
        if r:
            best, tail = r, "0" * (KEEPLEN - nops)
    chunk = max(1, nops // 2)
    while chunk >= 1 and time.time() - t0 < budget:
        i = 0
        progress = False
        starts = [i for i in range(0, nops, chunk) if "1" in keep[i:i + chunk]]
        j = 0
        while j < len(starts) and time.time() - t0 < budget:
            batch = starts[j:j + 8]
            cands = []
            for s in batch:
                k = keep[:]
                for x in range(s, min(nops, s + chunk)):
                    k[x] = "0"
                cands.append((v["sched"], "".join(k) + tail))
            r = attempt(cands)
            if r:
                keep = list((r["keep"] + "1" * nops)[:nops]); best = r; progress = True
                starts = [i for i in range(0, nops, chunk) if "1" in keep[i:i + chunk]]
                j = 0 if chunk > 4 else j
                if chunk <= 4: starts = starts[:]
                if not starts: break
                if chunk <= 4:
                    j = next((n for n, s in enumerate(starts) if s > batch[0]), len(starts))
            else:
                j += 8
        if chunk == 1: break
        chunk //= 2
    return best, tries

def verdict(r):
    return (r["kind"], r.get("class"), r.get("hash"))

def check(prop, tier):
    t0 = time.time()
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    bt = build()
    write_known()
    cfg = PLAN[prop]
    n, cap = cfg[tier]["seeds"], cfg[tier]["cap"]
    par = cfg.get("par", 8)
    tmo = cfg.get("timeout", 100)
    scen = cfg.get("scenarios", [prop])
    jobs = []
    for i in range(n):
        jobs.append((scen[i % len(scen)], (seed0 * 1_000_003 + i) & (2**63 - 1), i % 7))
    done, viol, harness = [], [], []
    deadline = min(time.time() + cap, t0 + 780)  # the build is not part of the search
    with ThreadPoolExecutor(par) as ex:
        pend = {}
        it = iter(enumerate(jobs))
        stopq = False
        while True:
            while not stopq and len(pend) < par and time.time() < deadline:
                try: i, (p, s, sc) = next(it)
                except StopIteration:
                    stopq = True; break
                pend[ex.submit(run1, p, s, sc, "", tmo, False, f"{i}")] = i
            if time.time() >= deadline: stopq = True
            if not pend: break
            d, _ = wait(list(pend), return_when=FIRST_COMPLETED)
            for f in d:
                pend.pop(f)
                r = f.result()
                done.append(r)
                if r["kind"] == "violation": viol.append(r); stopq = True
                elif r["kind"] != "ok": harness.append(r)
            if len(harness) > 2 + len(done) // 20: stopq = True
    search_wall = time.time() - t0 - bt
    # the same execution twice gives the same history
    rep = dict(repeated=0, differed=0)
    oks = [r for r in done if r["kind"] == "ok"]
    if oks and not viol:
        def again(a, i):
            for k in range(2):  # a run that died of the machine (memory, time) says nothing
                b = run1(a["prop"], a["seed"], a["sched"], "", tmo, False, f"rep{i}")
                if b["kind"] == "ok": break
            return b
        with ThreadPoolExecutor(4) as ex:
            few = sorted(oks, key=lambda r: r["wall"])[:4]
            for a, b in zip(few, ex.map(again, few, range(len(few)))):
                rep["repeated"] += 1
                if b["kind"] != "ok" or b["res"]["hash"] != a["res"]["hash"]: rep["differed"] += 1
    out = []
    rc = 0
    for f in findings():
        if f["Prop"] == prop:
            hits = sum(1 for r in done if r["res"] and f["ID"] in (r["res"].get("known") or []))
            print(f"KNOWN-FINDING: property={prop} {f['ID']}: {f['what']} (seen in {hits} of {len(done)} runs)")
    if viol:
        v = min(viol, key=lambda r: (r["seed"], r["sched"]))
        mn, tries = minimise(v, cfg[tier].get("minimise", 60))
        a = run1(mn["prop"], mn["seed"], mn["sched"], mn["keep"], tmo, False, "va")
        stable = verdict(a)[:2] == verdict(mn)[:2] and a.get("hash") == mn.get("hash")
        if not stable:
            # fall back to the original execution
            mn = v
            a = run1(mn["prop"], mn["seed"], mn["sched"], mn["keep"], tmo, False, "vb")
            stable = verdict(a)[:2] == verdict(mn)[:2]
        os.makedirs(f"{HERE}/replays", exist_ok=True)
        path = f"{HERE}/replays/{prop}-{mn['class'].split(':')[0].replace(' ', '_')}-{mn['seed']}.json"
        json.dump(dict(property=prop, scenario=mn["prop"], seed=mn["seed"], sched=mn["sched"], keep=mn["keep"], **{"class": mn["class"]}, msg=mn["msg"], hash=mn.get("hash"),
                       operations_kept=mn["keep"].count("1") if mn["keep"] else "all", minimise_runs=tries, reproduced=stable, faults=(mn["res"] or {}).get("faults"),
                       trace=(mn["res"] or {}).get("trace", mn["stderr"][-8000:].splitlines())), open(path, "w"), indent=1)
        print(f"{prop}: {mn['class']}: {mn['msg'][:3000]}")
        print(f"seed={mn['seed']} sched={mn['sched']} operations kept={mn['keep'].count('1') if mn['keep'] else 'all'} reproduced={stable}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        rc = 1
        out.append(dict(replay=path, **{"class": mn["class"]}, msg=mn["msg"][:1500], seed=mn["seed"]))
    evidence(prop, tier, seed0, done, harness, viol, rep, bt, search_wall, time.time() - t0, out, cfg, n)
    if rc == 0 and rep["differed"] * 2 > rep["repeated"]:
        print(f"{prop}: the same seed gave two histories; nothing here can be believed", file=sys.stderr)
        rc = 7
    if rc == 0 and harness:
        for h in harness[:3]:
            print(f"{prop}: {h['kind']} seed={h['seed']} sched={h['sched']} rc={h['rc']}\n{h['stderr'][-1500:]}", file=sys.stderr)
        if len(harness) > 1 + len(done) // 20:
            rc = 4
    if rc == 0:
        print(f"{prop}: held in {len(oks)} simulated executions ({search_wall:.0f} s)")
    return rc

def evidence(prop, tier, seed0, done, harness, viol, rep, bt, sw, wall, vs, cfg, n):
    agg = lambda k: {}
    faults, counts = {}, {}
    distinct, states, traces = {}, set(), set()
    samples = []
    sim = 0
    choices = yields = 0
    for r in done:
        x = r["res"]
        if not x: continue
        for k, v in x["faults"].items(): faults[k] = faults.get(k, 0) + v
        for k, v in x["counts"].items(): counts[k] = counts.get(k, 0) + v
        for d in x["distinct"] or []: distinct[d] = distinct.get(d, 0) + 1
        states.update(x["states"] or [])
        traces.add(x["sched_trace"])
        sim += x["sim_ns"]; choices += x["choices"]; yields += x["yields"]
        if len(samples) < 4:
            samples.append(dict(scenario=x["prop"], seed=x["seed"], sched=x["sched"], sim_s=round(x["sim_ns"] / 1e9, 3), ops=x["ops"], history_hash=x["hash"][:16], notes=(x["samples"] or [])[:3],
                                reached=(x["distinct"] or [])[:12]))
    nontriv = len({r["res"]["hash"] for r in done if r["res"] and r["res"]["ops"] and r["res"]["distinct"]})
    ev = dict(property=prop, tier=tier, seed=seed0, level="exploration", coverage=dict(
        evaluations=len(done), distinct_nontrivial=nontriv,
        rule=cfg["rule"] + " A run counts as non-trivial when at least one operation of the workload reached the system and at least one labelled situation was reached; runs are distinct by the hash of their full history.",
        samples=samples or [dict(note="no run finished")],
        seeds_planned=n, seeds_per_hour=round(len(done) / max(sw, 1) * 3600), simulated_seconds=round(sim / 1e9, 1),
        faults_injected=faults, counters=counts, situations_reached=len(distinct), situations={k: distinct[k] for k in sorted(distinct)[:150]},
        distinct_states=len(states), distinct_states_measure="application hashes and oracle state digests (at most 400 per run)",
        distinct_schedules=len(traces), schedule_choices=choices, forced_yields=yields, determinism_recheck=rep,
        components_real=cfg.get("real", REAL), components_stub=cfg.get("stub", STUB), build_seconds=round(bt, 1), search_seconds=round(sw, 1),
        harness_trouble=[dict(kind=h["kind"], seed=h["seed"]) for h in harness][:5]),
        assumptions=cfg.get("assumptions", []) + ["the schedule space is sampled by seed, not exhausted", "storage is a simulated ordered key-value store with atomic batches and fsync semantics", "GOMAXPROCS=1: preemption happens at synchronisation points and map operations, not between arbitrary instructions"],
        wall_s=round(wall, 1), violations=len(vs), violation_details=vs)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    bz = json.dumps(ev, indent=1)
    if len(bz) > 60000:
        ev["coverage"]["situations"] = {}
        ev["coverage"]["samples"] = samples[:1]
        bz = json.dumps(ev, indent=1)
    open(f"{HERE}/evidence/{prop}.json", "w").write(bz)

REAL = ["minitiaapp (baseapp, ante/post handlers, all modules, EVM, IBC)", "EVM indexer", "IAVL / multistore", "block-sdk lanes and mempool", "Go runtime (patched scheduler and clock)"]
STUB = ["CometBFT consensus, block store and network (driver)", "disks (SimDB)", "clients (generated workload)"]

def replay(path):
    d = json.load(open(path))
    build(); write_known()
    r = run1(d["scenario"], d["seed"], d["sched"], d["keep"], 300, False, "rp")
    print(f"{r['kind']} {r.get('class')}: {(r.get('msg') or '')[:3000]}")
    for l in ((r["res"] or {}).get("trace") or r["stderr"][-6000:].splitlines())[-60:]: print("  ", l)
    if r["kind"] == "violation":
        print("same history as recorded" if r.get("hash") == d["hash"] else "another history than recorded")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0 if r["kind"] == "ok" else 4

def main():
    signal.signal(signal.SIGTERM, stop); signal.signal(signal.SIGINT, stop)
    a = sys.argv[1:]
    if a[0] == "setup":
        print(f"built in {build():.0f} s"); write_known(); return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[0] == "replay": return replay(a[1])
    if a[0] == "seed":
        build(); write_known()
        r = run1(a[1], int(a[2]), int(a[3]) if len(a) > 3 else 0, a[4] if len(a) > 4 else "", 600, True, "sd")
        print(r["kind"], r.get("class"), r.get("msg")); return 0
    if a[0] == "sweep":  # sweep PROP FROM COUNT : many seeds, print the trouble
        if "--nobuild" not in a: build()
        write_known()
        p, s0, n = a[1], int(a[2]), int(a[3])
        t = time.time(); kinds = {}; tot = {}
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(lambda i: run1(p, s0 + i, i % 7, "", 150, False, f"{i}"), range(n)):
                k = r["kind"] + (" " + r["class"] if r["kind"] == "violation" else "")
                kinds[k] = kinds.get(k, 0) + 1
                if r["kind"] != "ok" and kinds[k] <= 2:
                    print(k, "seed", r["seed"], "sched", r["sched"], "rc", r["rc"], (r.get("msg") or r["stderr"][-2500:])[:2500], flush=True)
                if r["res"]:
                    for kk, v in list(r["res"]["counts"].items()) + list(r["res"]["faults"].items()): tot[kk] = tot.get(kk, 0) + v
                    for kk in r["res"].get("known") or []: tot["KNOWN " + kk] = tot.get("KNOWN " + kk, 0) + 1
        print(kinds, f"{time.time()-t:.0f}s"); print(json.dumps(tot, sort_keys=True)); return 0
    print(__doc__); return 5

if __name__ == "__main__":
    sys.exit(main())
