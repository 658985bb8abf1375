#!/usr/bin/env python3
"""Are runs the same whatever ran before them in the process? Compares event
hashes of many runs made in order with the same runs made in other processes.
usage: determinism.py [seconds per comparison]"""
import concurrent.futures as cf, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build, check
SECS = float(sys.argv[1]) if len(sys.argv) > 1 else 4
only = sys.argv[2:]
def hashes(b, v, p, start, stride, n):
    r = subprocess.run(["timeout", "900"] + build.emulator(v) + [b, "hash", "prop=" + p, "variant=" + v, "seed=%s" % os.environ.get("VERIF_SEED", "1"), "start=%d" % start, "stride=%d" % stride, "max=%d" % n, "limit=120"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    d = {}
    for l in r.stdout.splitlines():
        if l.startswith("HASH "):
            d[int(l.split()[1])] = l.split()[2]
    return d, r.stdout[-300:], r.returncode
def one(a):
    p, v, b = a
    import time
    t = time.time(); x, o, rc = hashes(b, v, p, 0, 1, 30); per = max(1e-4, (time.time() - t) / 30)
    n = max(60, min(6000, int(SECS / per)))
    x, o, rc = hashes(b, v, p, 0, 1, n)
    if rc or len(x) != n: return "%s %s: rc %d, %d of %d: %s" % (p, v, rc, len(x), n, o)
    bad = []
    for s, st in ((n // 2, 1), (5, 7), (3, 11), (0, 13)):
        y, o, rc = hashes(b, v, p, s, st, max(1, (n - s) // st))
        for k in y:
            if k in x and x[k] != y[k]: bad.append((s, st, k))
        if rc: bad.append((s, st, "rc", rc, o))
    return "%s %s: %d runs%s" % (p, v, n, ", DIFFER: %s" % bad[:6] if bad else "")
jobs = [(p, v) for p in check.PLAN for v in check.PLAN[p] if not only or p in only]
bins = build.build_all(sorted({v for _, v in jobs}))
with cf.ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, [(p, v, bins[v]) for p, v in jobs]):
        print(r, flush=True)
