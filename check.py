#!/usr/bin/env python3
"""Decide one property by deterministic simulation with fault injection.

  check.py S01            explore (VERIF_SEED, VERIF_TIER=quick|thorough)
  check.py --replay FILE  rebuild from /repo and re-execute one recorded run
  check.py --setup        build every variant

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check
itself failed.
"""
import concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build

T0 = time.time()
NCPU = len(os.sched_getaffinity(0))
OUT = os.environ.get("B64_OUT", os.path.join(VERIF, "out"))
EVID = os.path.join(os.environ["B64_OUT"], "evidence") if "B64_OUT" in os.environ else os.path.join(VERIF, "evidence")
LIM = 20                       # CPU seconds after which one run counts as hung
LIMITS = {"i686h": 120, "x64h": 120, "clih": 400, "clih32": 400, "x64g": 120, "i686g": 120}

# variants explored per property, with their share of the time
STREAM = {"x64": 6, "x64c": 2, "x64n": 2, "x64p": 2, "i686": 3, "a64": 3, "a64n": 1, "arm": 2, "armn": 1, "armp": 1, "s390": 2}
OMP = {"x64ot": 9, "i686ot": 3, "x64o": 2, "i686o": 1, "a64o": 1, "a64ot": 1, "armo": 1, "s390o": 1}
CLI = {"clis": 5, "clim": 4, "clio": 3, "clil": 3, "clie": 3, "cli": 3, "cliE": 1, "cli32": 2, "clib": 2}
PLAN = {
    "S01": STREAM, "S02": STREAM, "S03": STREAM, "S04": STREAM, "S05": dict(STREAM, x64t=4, i686t=2, a64t=2, armt=1), "S06": STREAM, "S07": STREAM, "S08": STREAM,
    "T01": {"x64t": 8, "i686t": 2, "x64": 4, "i686": 1, "s390": 1, "a64": 1, "armd": 1, "a64t": 1, "a64ta": 1, "armt": 1, "armta": 1, "x64ot": 2, "x64o": 1},
    "T02": {"x64": 8, "x64t": 6, "i686": 3, "i686t": 1, "a64": 1, "armd": 1, "a64t": 1, "a64ta": 1, "armt": 1, "armta": 1},
    "T03": {"x64": 5, "x64s": 3, "x64q": 1, "x64r": 1, "x64t": 3, "x64p": 1, "i686": 2, "arm": 1, "armd": 1, "a64": 1, "a64t": 1, "armt": 1, "x64o": 3, "x64os": 2, "x64ot": 1, "i686o": 1, "a64o": 1},
    "T04": {"x64": 5, "x64n": 3, "x64c": 3, "x64s": 2, "x64q": 2, "x64r": 2, "i686": 3},
    "S09": {"x64": 8, "x64t": 3, "x64c": 1, "x64n": 1, "x64p": 2, "i686": 4, "i686t": 1, "a64": 1, "a64t": 1, "a64ta": 1, "arm": 1, "armt": 1, "armta": 1, "s390": 1},
    "T05": {"x64": 8, "x64t": 6, "x64c": 1, "i686": 3, "i686t": 1, "a64": 1, "armd": 1, "a64t": 1, "a64ta": 1, "armt": 1, "armta": 1},
    "P01": OMP, "P02": OMP, "P03": OMP, "P04": OMP,
    "U01": CLI, "U02": CLI, "U03": CLI, "U04": CLI, "U05": CLI,
    "U07": {"clim": 6, "cli": 3, "clie": 2, "cli32": 2, "clib": 1},
    "U08": {"clis": 5, "clim": 4, "clio": 3, "clil": 2, "clie": 3, "clib": 1},
    "U06": {"pipe": 6, "pipee": 3, "pipeb": 2},
}
# runs of a fixed number, whatever the time: (variant, number quick, number thorough)
HUGE = [("x64g", 1, 8), ("i686g", 1, 8)]
FIXED = {"P01": [("i686h", 1, 6), ("x64h", 1, 6)], "P02": [("i686h", 1, 6), ("x64h", 1, 6)], "S01": HUGE, "S02": HUGE, "S03": HUGE, "S05": HUGE, "S07": HUGE,
         "U01": [("clih", 2, 6), ("clih32", 1, 4)], "U08": [("clih", 3, 8), ("clih32", 1, 4)], "U02": [("clih", 2, 6), ("clih32", 1, 4)]}
QUICK_S = float(os.environ.get("B64_QUICK_S", "30"))
THOROUGH_S = float(os.environ.get("B64_THOROUGH_S", "1200"))

REAL_LIB = "lib/ (streaming and whole-buffer API, codec choice, every codec of the variant, tables) is the real code, compiled as shipped"
STUBS = {
    "S": ["allocator and system calls the library might use: shim that records and can refuse them"],
    "T": ["CPUID/XGETBV: simulated machine where single-stepped", "threads: simulated tasks, one runs at a time", "interrupt delivery: simulated at a chosen instruction"],
    "P": ["OpenMP runtime: simulated libgomp ABI (team size, barriers, singles, loops, criticals, atomics)", "threads: simulated tasks"],
    "U": ["read/write/writev/open/stdio devices, malloc, exit, stdout/stderr: simulated operating system; the C library's stdio buffering and getopt are real"],
}
RULES = {
    "S": "one run = a seeded choice tape deciding streams, data, codecs, block schedule, placement, damage, crash and checkpoint points; non-trivial when the run splits a stream, damages it, crashes or refuses a service; distinct by event hash",
    "T": "one run = a seeded choice tape deciding programs, codecs, machine, and every preemption or interrupt; non-trivial when callers are interleaved, interrupted, or a machine is simulated; distinct by event hash",
    "P": "one run = a seeded choice tape deciding input, damage, team size granted and every thread switch; non-trivial when the parallel path runs with more than one thread; distinct by event hash",
    "U": "one run = a seeded choice tape deciding options, input, read and write sizes, interruptions and failures; non-trivial when at least one short or failed operation was injected or output was split; distinct by event hash",
}

def log(*a):
    print(*a, flush=True)

class Explorer:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="b64sim-")
        self.stop = threading.Event()
        self.procs, self.lock = set(), threading.Lock()
        self.results, self.viols, self.errors, self.skipped = [], [], [], []
        self.known, self.known_hit = load_known(prop)
        self.cpu = iter(range(10**9))

    def cmd(self, variant, *args):
        return build.emulator(variant) + [self.bins[variant]] + list(args)

    def spawn(self, argv, timeout=None):
        p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, env=dict(os.environ, LC_ALL="C"))
        with self.lock:
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return -9, out
        finally:
            with self.lock:
                self.procs.discard(p)
        return p.returncode, out

    def job(self, variant, n, of, seconds, maxn, slot):
        start, res = n, None
        base = os.path.join(self.tmp, "%s.%d" % (variant, n))
        end = time.time() + seconds
        while not self.stop.is_set():
            args = ["run", "prop=" + self.prop, "variant=" + variant, "seed=%d" % self.seed, "start=%d" % start, "stride=%d" % of,
                    "time=%.1f" % max(0.1, end - time.time()), "out=" + base, "viol=" + base + ".viol", "cpu=%d" % slot,
                    "thorough=%d" % (self.tier == "thorough"), "limit=%d" % LIMITS.get(variant, LIM)]
            if maxn:
                args += ["max=%d" % maxn, "recheck=%d" % (self.tier == "thorough")]
            rc, out = self.spawn(self.cmd(variant, *args), timeout=seconds + 120 + (200 if maxn else 0))
            if self.stop.is_set():
                return
            if rc == 0:
                try:
                    self.results.append((variant, base, json.load(open(base))))
                except ValueError as e:
                    self.errors.append("%s: unreadable statistics: %s" % (variant, e))
                return
            if rc == 1:
                m = re.search(r"VIOLATED class=(\S+) hash=(\S+) seed=\d+ index=(\d+) variant=\S+ msg=(.*)", out)
                if not m:
                    self.errors.append("%s: exit 1 without a violation: %s" % (variant, out[-400:])); self.stop.set(); return
                v = dict(variant=variant, cls=m.group(1), hash=m.group(2), index=int(m.group(3)), msg=m.group(4), file=base + ".viol", start=start, stride=of)
                k = self.known_match(v)
                if k:
                    self.known_hit.add(k); start = v["index"] + of
                    if maxn or time.time() > end: return
                    continue
                with self.lock:
                    self.viols.append(v)
                self.stop.set()
                return
            self.errors.append("%s: exit %s: %s" % (variant, rc, out[-600:]))
            self.stop.set()
            return

    def known_match(self, v):
        for k in self.known:
            if (not k["class"] or k["class"] == v["cls"]) and re.search(k["match"], v["msg"]):
                return k["text"]
        return None

    def explore(self):
        plan = dict(PLAN[self.prop])
        fixed = FIXED.get(self.prop, [])
        names = list(plan) + [f[0] for f in fixed]
        self.bins = {}
        inner = cf.ThreadPoolExecutor(NCPU + 2)
        with cf.ThreadPoolExecutor(len(names)) as ex:
            fut = {n: ex.submit(build.build, n, inner) for n in names}
            for n, f in fut.items():
                try:
                    self.bins[n] = f.result()
                except build.BuildError as e:
                    self.skipped.append(n)
                    log("NOTE: variant %s was not explored, it does not build: %s" % (n, str(e)[-1500:]))
        inner.shutdown()
        if not self.bins or "BUILD" in os.environ:
            raise SystemExit(2)
        plan = {k: w for k, w in plan.items() if k in self.bins}
        self.build_s = time.time() - T0
        T = QUICK_S if self.tier == "quick" else THOROUGH_S
        total = NCPU * T
        jobs, chunk = [], max(3.0, T / 4)
        for v, n, nt in fixed:
            if v in self.bins:
                k = n if self.tier == "quick" else nt
                jobs.append((v, 0, 1, 600, k)); total -= 8 * k
        sw = sum(plan.values())
        rest = []
        for v, w in plan.items():
            t = total * w / sw
            n = max(1, round(t / chunk))
            for i in range(n):
                rest.append((i, v, i, n, t / n, 0))
        rest.sort(key=lambda j: j[0])         # all variants early
        jobs += [j[1:] for j in rest]
        slots = list(range(NCPU))
        def go(j):
            if self.stop.is_set(): return
            with self.lock: s = slots.pop()
            try: self.job(*j, s)
            finally:
                with self.lock: slots.append(s)
        t = time.time()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(go, j) for j in jobs]
            while not all(f.done() for f in fs):
                if self.stop.is_set():
                    with self.lock:
                        for p in list(self.procs):
                            try: os.killpg(p.pid, signal.SIGKILL)
                            except ProcessLookupError: pass
                time.sleep(0.05)
            for f in fs: f.result()
        self.explore_s = time.time() - t

    def replay(self, variant, path, trace=None):
        a = ["replay", "file=" + path, "limit=%d" % LIMITS.get(variant, LIM)] + (["trace=" + trace] if trace else [])
        rc, out = self.spawn(self.cmd(variant, *a), timeout=300)
        m = re.search(r"VIOLATED class=(\S+) hash=(\S+) .*msg=(.*)", out)
        return rc, (m.group(1), m.group(2), m.group(3)) if m else None, out

    def history(self, variant, start, stride, index, thorough=None):
        rc, out = self.spawn(self.cmd(variant, "run", "prop=" + self.prop, "variant=" + variant, "seed=%d" % self.seed, "start=%d" % start, "stride=%d" % stride,
            "max=%d" % ((index - start) // stride + 1), "time=600", "out=" + os.path.join(self.tmp, "hist"), "viol=" + os.path.join(self.tmp, "hist.viol"),
            "thorough=%d" % ((self.tier == "thorough") if thorough is None else thorough), "limit=%d" % LIMITS.get(variant, LIM)), timeout=900)
        m = re.search(r"VIOLATED class=(\S+) hash=(\S+) seed=\d+ index=(\d+) variant=\S+ msg=(.*)", out)
        return (int(m.group(3)), m.group(1), m.group(2), m.group(4)) if m else None

    def confirm(self, v):
        """Minimise, then replay twice in fresh processes; returns the replay file."""
        os.makedirs(OUT, exist_ok=True)
        name = os.path.join(OUT, "%s-%s-seed%d-%d.replay" % (self.prop, v["variant"], self.seed, v["index"]))
        rc0, r0, out0 = self.replay(v["variant"], v["file"])
        if not r0:
            # perhaps it takes what earlier runs of the process left in memory
            first = self.history(v["variant"], v["start"], v["stride"], v["index"])
            if first and first[0] == v["index"] and first == self.history(v["variant"], v["start"], v["stride"], v["index"]):
                with open(name, "w") as f:
                    f.write("history start=%d stride=%d seed=%d index=%d thorough=%d\n" % (v["start"], v["stride"], self.seed, v["index"], self.tier == "thorough"))
                    f.write("# the violation takes the runs before it in the same process; the last of them:\n" + open(v["file"]).read())
                return name, "the run violates the property only after the runs before it in the same process"
            return None, "the recorded run does not violate the property when replayed: rc %s %s" % (rc0, out0[-300:])
        small = v["file"] + ".min"
        cand = [v["file"]]
        if v["variant"] not in LIMITS:
            rc, out = self.spawn(self.cmd(v["variant"], "shrink", "file=" + v["file"], "out=" + small, "shrink=%d" % (20 if self.tier == "quick" else 60), "limit=%d" % LIM), timeout=200)
            log("minimised:", out.strip()[-200:])
            if rc == 0: cand.insert(0, small)
        for c in cand:
            _, r1, _ = self.replay(v["variant"], c)
            _, r2, _ = self.replay(v["variant"], c)
            if r1 and r1 == r2:
                tr = v["file"] + ".trace"
                self.replay(v["variant"], c, tr)
                head = open(c).read()
                body = head if os.path.getsize(tr) == 0 else open(tr).read()
                with open(name, "w") as f:
                    f.write(body)
                v["cls"], v["hash"], v["msg"] = r1
                return name, None
        # it violates every time, but not in the same words
        shutil.copyfile(v["file"], name)
        return name, "event hash differs between replays"

    def cross_process(self):
        """The same run in another process has the same event hash."""
        n = 0
        seen = set()
        for variant, base, r in self.results:
            if variant in seen or not r["hashes"] or variant in LIMITS: continue
            seen.add(variant)
            hs = r["hashes"][:3] + r["hashes"][-1:]
            for idx, h in hs:
                rc, out = self.spawn(self.cmd(variant, "hash", "prop=" + self.prop, "variant=" + variant, "seed=%d" % self.seed, "start=%d" % idx, "max=1", "thorough=%d" % (self.tier == "thorough"), "limit=%d" % LIM), timeout=200)
                m = re.search(r"HASH \d+ (\S+)", out)
                if not m or m.group(1) != h:
                    self.errors.append("run %d of %s is not reproducible across processes: %s, %s" % (idx, variant, h, out[-300:]))
                n += 1
        return n

    def evidence(self, violations, cross):
        agg, sets = {}, {"sig": set(), "cov": set(), "sched": set()}
        runs = nontriv = re_ = steps = events = 0
        per = {}
        samples = []
        for variant, base, r in self.results:
            runs += r["runs"]; nontriv += r["nontrivial"]; re_ += r["rechecks"]; steps += r["steps"]; events += r["events"]
            p = per.setdefault(variant, {"build": build.VARIANTS[variant]["what"], "runs": 0, "cpu_s": 0})
            p["runs"] += r["runs"]; p["cpu_s"] = round(p["cpu_s"] + r["wall"], 1)
            for k, x in r["stats"].items(): agg[k] = agg.get(k, 0) + x
            for k in sets:
                try: data = open(base + "." + k, "rb").read()
                except FileNotFoundError: continue
                vh = hash(variant) & 0xffffffff
                sets[k].update((vh, data[i:i + 8]) for i in range(0, len(data), 8))
            if len(samples) < 4 and r["samples"] and variant not in [s["variant"] for s in samples]:
                samples.append({"variant": variant, "trace": r["samples"][0]})
        faults = {k[6:]: x for k, x in sorted(agg.items()) if k.startswith("fault.")}
        probes = {k: x for k, x in sorted(agg.items()) if not k.startswith("fault.")}
        fam = self.prop[0]
        wall = max(self.explore_s, 0.001)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": runs, "distinct_nontrivial": len(sets["sig"]), "rule": RULES[fam], "samples": samples,
                "runs_per_hour": int(runs / wall * 3600), "seeds_per_hour": int(runs / wall * 3600),
                "runs_nontrivial": nontriv,
                "simulated_steps": steps, "simulated_time_note": "the library and tool have no clock; simulated time is counted in steps: memory accesses, stepped instructions, library calls or I/O operations",
                "recorded_events": events,
                "faults_injected": faults, "probes": probes,
                "distinct_interleavings": len(sets["sched"]), "interleaving_measure": "hash of the sequence of scheduling decisions (task switches, interrupt points, block cuts or I/O sizes) of a run",
                "distinct_states": len(sets["cov"]), "state_measure": "hash of scenario features noted at scheduling points (codec, phase, position, pending bytes, machine)",
                "variants": per, "variants_not_built": self.skipped,
                "reexecuted_in_process": re_, "reexecuted_in_other_process": cross,
                "real_components": [REAL_LIB] + (["bin/base64.c is the real tool"] if fam == "U" else []),
                "stub_components": STUBS[fam],
                "build_s": round(self.build_s, 1),
            },
            "assumptions": ["sampling: a clean batch is evidence, not proof", "the compilers and, for the qemu variants, the emulator are trusted",
                            "interleavings are sequentially consistent; weak-memory reorderings are not simulated" if fam in "TP" else "one task at a time"],
            "wall_s": round(time.time() - T0, 1), "violations": violations,
        }
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        return ev

def load_known(prop):
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S*) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                known.append({"class": m.group(2), "match": m.group(3), "text": m.group(4)})
    return known, set()

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    if sys.argv[1] == "--setup":
        names = sorted({v for p in PLAN.values() for v in p} | {f[0] for fs in FIXED.values() for f in fs})
        bad = 0
        inner = cf.ThreadPoolExecutor(NCPU + 2)
        with cf.ThreadPoolExecutor(4) as ex:
            for n, f in [(n, ex.submit(build.build, n, inner)) for n in names]:
                try: f.result()
                except build.BuildError as e: bad += 1; log("NOTE: %s does not build: %s" % (n, e))
        log("built %d variants in %.0f s" % (len(names) - bad, time.time() - T0))
        return 0 if bad < len(names) else 2
    if sys.argv[1] == "--replay":
        txt = open(sys.argv[2]).read()
        prop = re.search(r"^property (\S+)", txt, re.M).group(1); variant = re.search(r"^variant (\S+)", txt, re.M).group(1)
        x = Explorer(prop, "quick", 1)
        try:
            x.bins = {variant: build.build(variant)}
            h = re.search(r"^history start=(\d+) stride=(\d+) seed=(\d+) index=(\d+) thorough=(\d)", txt, re.M)
            if h:
                x.seed = int(h.group(3))
                r = x.history(variant, int(h.group(1)), int(h.group(2)), int(h.group(4)), h.group(5) == "1")
                rc, out = 0, "VIOLATED %s" % (r,) if r else "not violated"
            else:
                rc, r, out = x.replay(variant, os.path.abspath(sys.argv[2]))
        finally:
            shutil.rmtree(x.tmp, ignore_errors=True)
        log(out.strip())
        if r:
            log("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(sys.argv[2])))
            return 1
        return 0 if rc == 0 else 2
    prop = sys.argv[1]
    if prop not in PLAN:
        print("unknown property", prop); return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    x = Explorer(prop, tier, seed)
    try:
        x.explore()
        if x.viols:
            for v in sorted(x.viols, key=lambda v: v["index"]):
                log("found: %s %s index=%d: %s" % (v["variant"], v["cls"], v["index"], v["msg"]))
                name, note = x.confirm(v)
                if name:
                    if note: log("NOTE:", note)
                    x.evidence(len(x.viols), 0)
                    log("%s: %s" % (v["cls"], v["msg"]))
                    log("VIOLATION property=%s replay=%s" % (prop, name))
                    return 1
                x.errors.append(note)
        cross = x.cross_process() if not x.errors else 0
        if x.errors:
            for e in x.errors: log("CHECK ERROR:", e)
            return 2
        ev = x.evidence(0, cross)
        for k in sorted(k["text"] for k in x.known):
            log("KNOWN-FINDING: property=%s %s" % (prop, k))
        c = ev["coverage"]
        log("%s held: %d runs (%d distinct non-trivial), %d interleavings, %d states, %.0f s" % (prop, c["evaluations"], c["distinct_nontrivial"], c["distinct_interleavings"], c["distinct_states"], ev["wall_s"]))
        return 0
    finally:
        shutil.rmtree(x.tmp, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
