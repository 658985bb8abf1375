#!/usr/bin/env python3
"""Mutation testing of the checks (development only): random small changes of
/repo, kept when they build and pass the stable tests, are run against the
checks of the part they are in until one reports them.
usage: mutate.py gen N SEED DIR [FILES-REGEX] | filter DIR JOBS | check DIR SECONDS [JOBS]   (without filter: all of them)"""
import json, os, random, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
def files():
    out = subprocess.check_output(["git", "-C", REPO, "ls-files", "lib", "bin/base64.c"], text=True).split()
    return [f for f in out if f.endswith(".c") and "tables" not in f]
SWAPS = [(r"(?<![<>=!&|+\-*/^-])<(?![<=>])", ["<="]), (r"<=", ["<"]), (r"(?<![<>=-])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
         (r"(?<![+=(,\s])\s\+\s", [" - "]), (r"\s-\s", [" + "]), (r"<<", [">>"]), (r">>", ["<<"]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=\s)&(?=\s)", ["|"]), (r"(?<=\s)\|(?=\s)", ["&"]),
         (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]), (r"\+\+", ["--"]), (r"--", ["++"])]
def mutations(line):
    code = line.split("//")[0]
    if not code.strip() or code.strip().startswith(("#include", "*", "/*", "extern")):
        return
    for m in re.finditer(r"\b(0x[0-9A-Fa-f]+|\d+)(U?L*)\b", code):
        t = m.group(1); v = int(t, 0)
        for w in {v + 1, v - 1, v ^ 8, v * 2} - {v}:
            if w >= 0:
                yield code[:m.start()] + (hex(w) if t.startswith("0x") else str(w)) + m.group(2) + line[m.end():]
    for pat, to in SWAPS:
        for m in re.finditer(pat, code):
            for t in to:
                yield code[:m.start()] + t + line[m.end():]
    s = code.strip()
    if s.endswith(";") and not re.match(r"(const|static|struct|int|size_t|uint\w+|char|bool|__m\w+|return|unsigned|break|case|register|else|if|for|while|\})", s):
        yield code.replace(s, ";") + "\n" if "\n" not in code else code.replace(s, ";")
def gen(n, seed, d, only=""):
    rnd = random.Random(seed); os.makedirs(d, exist_ok=True); pool = {}
    for f in files():
        if not re.search(only, f): continue
        for i, l in enumerate(open(os.path.join(REPO, f))):
            for x in mutations(l):
                if x != l: pool.setdefault(f, []).append((i, x))
    fs = sorted(pool); k = 0
    while k < n:
        f = rnd.choice(fs); i, x = rnd.choice(pool[f])
        a = open(os.path.join(REPO, f)).read().splitlines(True); b = list(a); b[i] = x if x.endswith("\n") else x + "\n"
        import difflib
        p = "".join(difflib.unified_diff(a, b, "a/" + f, "b/" + f))
        if p:
            open("%s/m%04d.diff" % (d, k), "w").write(p); k += 1
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def one(d, m):
    W = "/tmp/mt-w-" + m
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/vp")
    run(["git", "clone", "-q", REPO, W + "/repo"])
    for f in ("build.sh", "test.sh", "run_tests.py", "results.py", "BASELINE.json"):
        s = open("/opt/vp/" + f).read() if os.path.exists("/opt/vp/" + f) else None
        if s is not None: open(W + "/vp/" + f, "w").write(s.replace("/repo", W + "/repo").replace("/opt/vp", W + "/vp"))
    r = "no-apply"
    if run(["git", "apply", d + "/" + m + ".diff"], cwd=W + "/repo").returncode == 0:
        try:
            run(["timeout", "-k", "5", "150", "bash", W + "/vp/test.sh", W + "/t.json"], timeout=200)
            b = json.load(open(W + "/vp/BASELINE.json")); t = json.load(open(W + "/t.json"))
            r = "killed" if set(b["stable"]) - set(t["passed"]) else "survives"
        except Exception as e:
            r = "killed"
    shutil.rmtree(W, ignore_errors=True)
    open(d + "/" + m + ".tests", "w").write(r)
    return r
def filt(d, jobs):
    ms = sorted(x[:-5] for x in os.listdir(d) if x.endswith(".diff") and not os.path.exists(d + "/" + x[:-5] + ".tests"))
    with ThreadPoolExecutor(jobs) as ex:
        for m, r in zip(ms, ex.map(lambda m: one(d, m), ms)):
            print(m, r, flush=True)
def props(f, text):
    if f.startswith("bin"): return "U01 U02 U03 U04 U05 U07 U06 U08".split()
    if "openmp" in f: return "P03 P01 P02 P04 T01 T03".split()
    if "choose" in f: return "T04 T03 S01 S02 T01 T05".split()
    if "lib.c" in f: return "S04 S03 S02 S01 T03 T01 T04 P03 S06 S05".split()
    if "enc" in f: return "S01 S05 S06".split()
    if "dec" in f: return "S03 S02 S05 S04 S06".split()
    return "S01 S02 S03 S05 T03 T04 P03".split()
def check1(d, secs, m):
    p = open(d + "/" + m + ".diff").read(); f = re.search(r"^\+\+\+ b/(\S+)", p, re.M).group(1)
    W = "/tmp/mt-c-" + m
    shutil.rmtree(W, ignore_errors=True); run(["git", "clone", "-q", REPO, W]); run(["git", "apply", d + "/" + m + ".diff"], cwd=W)
    res = "SURVIVES"
    for pr in props(f, p):
        r = run(["python3", V + "/check.py", pr], env=dict(os.environ, B64_REPO=W, B64_BUILD=W + "-b", B64_OUT=W + "-o", B64_QUICK_S=secs, VERIF_SEED="1"))
        if r.returncode == 1: res = "caught by " + pr; break
        if r.returncode not in (0, 1): res = "ERROR rc=%d by %s: %s" % (r.returncode, pr, r.stdout[-200:].strip().replace("\n", " | ")); break
    for y in (W, W + "-b", W + "-o"): shutil.rmtree(y, ignore_errors=True)
    open(d + "/" + m + ".checks", "w").write(res)
    if res == "SURVIVES": res += "\n" + "".join(l + "\n" for l in p.splitlines()[2:] if l[0] in "+-@")
    print(m, f, res, flush=True)
def check(d, secs, jobs=1):
    ms = [x[:-5] for x in sorted(os.listdir(d)) if x.endswith(".diff") and not os.path.exists(d + "/" + x[:-5] + ".checks")]
    ms = [m for m in ms if not os.path.exists(d + "/" + m + ".tests") or open(d + "/" + m + ".tests").read() == "survives"]
    with ThreadPoolExecutor(int(jobs)) as ex: list(ex.map(lambda m: check1(d, secs, m), ms))
if __name__ == "__main__":
    a = sys.argv
    if a[1] == "gen": gen(int(a[2]), int(a[3]), a[4], *a[5:])
    elif a[1] == "filter": filt(a[2], int(a[3]))
    elif a[1] == "check": check(*a[2:])
