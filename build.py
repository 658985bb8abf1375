#!/usr/bin/env python3
"""Build simulator binaries from /repo's current working tree.

Every binary contains the real code of /repo (lib/ and, for the command-line
scenarios, bin/base64.c) compiled as shipped, linked against the simulator in
/verif/sim. Results are cached under /verif/build by a hash of everything that
went into them, so a changed tree is always rebuilt.
"""
import concurrent.futures as cf, fcntl, hashlib, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("B64_REPO", "/repo")
BUILD = os.environ.get("B64_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")

X86_ALL = dict(AVX512=1, AVX2=1, SSSE3=1, SSE41=1, SSE42=1, AVX=1)
X86_FLAGS = {"ssse3": "-mssse3", "sse41": "-msse4.1", "sse42": "-msse4.2", "avx": "-mavx", "avx2": "-mavx2",
             "avx512": "-mavx512vl -mavx512vbmi", "neon32": "-mfpu=neon", "neon64": ""}
NOASM = "-DBASE64_SSSE3_USE_ASM=0 -DBASE64_SSE41_USE_ASM=0 -DBASE64_SSE42_USE_ASM=0 -DBASE64_AVX_USE_ASM=0 -DBASE64_AVX2_USE_ASM=0 -DBASE64_NEON64_USE_ASM=0"
TSAN = "-fsanitize=thread"
# name: toolchain prefix, emulator, compiler, codecs in the build, extra flags, parts, scenario set
def V(tc="", emu=None, cc="gcc", have=None, cflags="", instr=False, omp=False, kind="lib", o="-O3", cli=None, drop=(), what=""):
    return dict(drop=drop, tc=tc, emu=emu, cc=cc, have=have if have is not None else X86_ALL, cflags=cflags, instr=instr, omp=omp, kind=kind, o=o, cli=cli, what=what)
I686, A64, ARM, S390 = "i686-linux-gnu-", "aarch64-linux-gnu-", "arm-linux-gnueabihf-", "s390x-linux-gnu-"
VARIANTS = {
    "x64":   V(what="x86-64, all codecs, inline assembly as shipped, gcc -O3"),
    "x64c":  V(cc="clang", what="x86-64, all codecs, clang -O3"),
    "x64n":  V(cflags=NOASM, what="x86-64, all codecs, intrinsics instead of assembly"),
    "x64p":  V(have={}, what="x86-64, no vector codec in the build"),
    "x64q":  V(have=dict(SSE41=1, SSE42=1, AVX2=1), what="x86-64, only SSE4.1, SSE4.2 and AVX2 in the build"),
    "x64r":  V(have=dict(SSSE3=1, AVX=1, AVX512=1), what="x86-64, only SSSE3, AVX and AVX-512 in the build"),
    "x64s":  V(have=dict(SSSE3=1, AVX2=1), cflags="", what="x86-64, only SSSE3 and AVX2 in the build"),
    "x64t":  V(cflags=NOASM, instr=True, what="x86-64, every memory access of the library is a scheduling point"),
    "i686":  V(tc=I686, cflags="", what="32-bit x86, all codecs"),
    "i686t": V(tc=I686, cflags=NOASM, have={}, instr=True, what="32-bit x86, plain codec, every memory access is a scheduling point"),
    "a64t":  V(tc=A64, emu="qemu-aarch64", cflags=NOASM, drop=("BASE64_NEON64_USE_ASM",), have=dict(NEON64=1), instr=True, what="AArch64 with NEON intrinsics, every memory access observed (qemu-user)"),
    "armt":  V(tc=ARM, emu="qemu-arm", cflags=NOASM + " -mfpu=neon", drop=("BASE64_NEON32_USE_ASM",), have=dict(NEON32=1), instr=True, what="ARM with NEON intrinsics, every memory access observed (qemu-user)"),
    "armta": V(tc=ARM, emu="qemu-arm", cflags="-mfpu=neon", have=dict(NEON32=1), instr=True, what="ARM with NEON assembly, memory accesses between the assembly observed (qemu-user)"),
    "a64ta": V(tc=A64, emu="qemu-aarch64", have=dict(NEON64=1), instr=True, what="AArch64 with NEON assembly, memory accesses between the assembly observed (qemu-user)"),
    "a64n":  V(tc=A64, emu="qemu-aarch64", drop=("BASE64_NEON64_USE_ASM",), have=dict(NEON64=1), what="AArch64 with NEON intrinsics, as for compilers without GNU assembly (qemu-user)"),
    "armn":  V(tc=ARM, emu="qemu-arm", cflags="-mfpu=neon", drop=("BASE64_NEON32_USE_ASM",), have=dict(NEON32=1), what="ARM with NEON intrinsics as the default, as for compilers without GNU assembly (qemu-user)"),
    "a64":   V(tc=A64, emu="qemu-aarch64", have=dict(NEON64=1), what="AArch64 with NEON (qemu-user)"),
    "armd":  V(tc=ARM, emu="qemu-arm", cflags="-mfpu=neon", have=dict(NEON32=1), what="ARM with NEON assembly as the default (qemu-user)"),
    "arm":   V(tc=ARM, emu="qemu-arm", have=dict(NEON32=1), what="ARM with NEON (qemu-user)"),
    "armp":  V(tc=ARM, emu="qemu-arm", have={}, what="ARM, plain codec (qemu-user)"),
    "s390":  V(tc=S390, emu="qemu-s390x", have={}, what="big-endian s390x, plain codec (qemu-user)"),
    "x64g":  V(what="x86-64, all codecs, blocks beyond 4 GiB"),
    "i686g": V(tc=I686, what="32-bit x86, all codecs, blocks beyond 1 GiB"),
    "x64h":  V(omp=True, kind="omp", what="x86-64 OpenMP build as shipped, inputs beyond 4 GiB"),
    "x64ot": V(cflags=NOASM, instr=True, omp=True, kind="omp", what="x86-64 OpenMP build on the simulated runtime, every memory access is a scheduling point"),
    "x64o":  V(omp=True, kind="omp", what="x86-64 OpenMP build as shipped on the simulated runtime"),
    "x64os": V(have=dict(SSSE3=1, AVX2=1), omp=True, kind="omp", what="x86-64 OpenMP build with only SSSE3 and AVX2"),
    "i686ot": V(tc=I686, cflags=NOASM, have=dict(SSSE3=1, AVX2=1), instr=True, omp=True, kind="omp", what="32-bit x86 OpenMP build, instrumented"),
    "i686h": V(tc=I686, omp=True, kind="omp", what="32-bit x86 OpenMP build as shipped, inputs beyond 1 GiB"),
    "i686o": V(tc=I686, omp=True, kind="omp", what="32-bit x86 OpenMP build as shipped"),
    "a64o":  V(tc=A64, emu="qemu-aarch64", have=dict(NEON64=1), omp=True, kind="omp", what="AArch64 OpenMP build (qemu-user)"),
    "a64ot": V(tc=A64, emu="qemu-aarch64", cflags=NOASM, drop=("BASE64_NEON64_USE_ASM",), have=dict(NEON64=1), instr=True, omp=True, kind="omp", what="AArch64 OpenMP build with NEON intrinsics, instrumented (qemu-user)"),
    "armo":  V(tc=ARM, emu="qemu-arm", have=dict(NEON32=1), omp=True, kind="omp", what="ARM OpenMP build (qemu-user)"),
    "s390o": V(tc=S390, emu="qemu-s390x", have={}, omp=True, kind="omp", what="big-endian OpenMP build (qemu-user)"),
    "cli":   V(kind="cli", cli=dict(), what="command-line tool as shipped (1 MiB buffers, writev)"),
    "clis":  V(kind="cli", cli=dict(raw=24), what="command-line tool with 24-byte buffers"),
    "clim":  V(kind="cli", cli=dict(raw=96), what="command-line tool with 96-byte buffers"),
    "clio":  V(kind="cli", cli=dict(raw=31), what="command-line tool with 31-byte buffers"),
    "clil":  V(kind="cli", cli=dict(raw=1500), what="command-line tool with 1500-byte buffers"),
    "clie":  V(kind="cli", cli=dict(raw=48, emul=True), what="command-line tool with 48-byte buffers and emulated writev"),
    "cliE":  V(kind="cli", cli=dict(emul=True), what="command-line tool with 1 MiB buffers and emulated writev"),
    "clib":  V(kind="cli", tc=S390, emu="qemu-s390x", have={}, cli=dict(raw=48), what="command-line tool on big-endian s390x (qemu-user)"),
    "cli32": V(kind="cli", tc=I686, cli=dict(raw=40), what="command-line tool on 32-bit x86, 40-byte buffers"),
    "clih":  V(kind="cli", cli=dict(huge=True), what="command-line tool as shipped, inputs beyond 4 GiB"),
    "clih32": V(kind="cli", tc=I686, cli=dict(huge=True), what="command-line tool on 32-bit x86, inputs beyond 4 GiB"),
    "pipe":  V(kind="pair", cli=dict(raw=48), what="two instances of the tool, 48-byte buffers"),
    "pipeb": V(kind="pair", cli=dict(), what="two instances of the tool as shipped"),
    "pipee": V(kind="pair", cli=dict(raw=30, emul=True), what="two instances of the tool, emulated writev"),
}

SHIM_LIB = """malloc calloc realloc reallocarray aligned_alloc memalign posix_memalign valloc strdup free mmap munmap mprotect brk sbrk open openat
read write close syscall getpid clock_gettime gettimeofday time sysconf getrandom nanosleep usleep sched_yield pthread_create rand random fopen getenv secure_getenv
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once""".split()

class BuildError(Exception):
    pass

def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def tree_files():
    out = []
    for d in ("lib", "bin", "include"):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(r, f)
                if f.endswith((".c", ".h", ".inc", ".S", ".s")) and not (f == "config.h"):
                    out.append(os.path.relpath(p, REPO))
    return out

_state = None
def source_state():
    global _state
    if _state is None:
        h = hashlib.sha256()
        for f in tree_files():
            h.update(f.encode() + b"\0")
            with open(os.path.join(REPO, f), "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        for f in sorted(os.listdir(SIM)):
            with open(os.path.join(SIM, f), "rb") as fh:
                h.update(f.encode() + hashlib.sha256(fh.read()).digest())
        with open(os.path.abspath(__file__), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
        _state = h.hexdigest()[:16]
    return _state

def lib_sources(repo):
    src = [os.path.join("lib", f) for f in sorted(os.listdir(os.path.join(repo, "lib"))) if f.endswith(".c") and f != "lib_openmp.c"]
    src.append("lib/tables/tables.c")
    arch = os.path.join(repo, "lib/arch")
    for a in sorted(os.listdir(arch)):
        if os.path.exists(os.path.join(arch, a, "codec.c")):
            src.append("lib/arch/%s/codec.c" % a)
    return src

def build(name, pool=None):
    """Build one variant; returns the path of the binary."""
    v = VARIANTS[name]
    h = hashlib.sha256((source_state() + repr(sorted(v.items()))).encode()).hexdigest()[:16]
    final = os.path.join(BUILD, "%s-%s" % (name, h))
    binary = os.path.join(final, "sim")
    if os.path.exists(binary):
        return binary
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + name), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(binary):
            return binary
        for d in os.listdir(BUILD):          # older builds of this variant
            if d.startswith(name + "-"):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = final + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        try:
            _build(name, v, tmp, pool)
            os.rename(tmp, final)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return binary

def _build(name, v, d, pool):
    own = pool is None
    pool = pool or cf.ThreadPoolExecutor(os.cpu_count() or 4)
    src = os.path.join(d, "src")
    for f in tree_files():
        p = os.path.join(src, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if v["drop"]:            # as a compiler that does not get these definitions sees it
            with open(os.path.join(REPO, f), newline="") as a, open(p, "w", newline="") as b:
                b.writelines("\n" if re.match(r"\s*#\s*define\s+(%s)\b" % "|".join(v["drop"]), l) else l for l in a)
        else:
            shutil.copyfile(os.path.join(REPO, f), p)
    have = v["have"]
    with open(os.path.join(src, "lib/config.h"), "w") as f:
        for c in ("AVX512", "AVX2", "NEON32", "NEON64", "SSSE3", "SSE41", "SSE42", "AVX"):
            f.write("#define HAVE_%s %d\n" % (c, have.get(c, 0)))
    tc = v["tc"]
    cc = [v["cc"]] if v["cc"] == "clang" else [tc + "gcc"]
    base = ["-std=c99", v["o"], "-DNDEBUG", "-DBASE64_STATIC_DEFINE", "-fno-pic", "-fno-pie", "-w", "-fno-asynchronous-unwind-tables",
            "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-I" + os.path.join(src, "lib"), "-I" + os.path.join(src, "include")]
    if tc == ARM:
        base += ["-marm"]
    if cc[0].endswith("gcc"):
        base += ["-fcf-protection=none"] if tc in ("", I686) else []
    base += v["cflags"].split()
    if v["instr"]:
        base += [TSAN]
    if v["omp"]:
        base += ["-fopenmp"]
    jobs, objs = [], []
    def comp(c, flags, out):
        jobs.append(pool.submit(run, cc + flags + ["-c", c, "-o", out]))
    for s in lib_sources(src):
        o = os.path.join(d, s.replace("/", "_")[:-2] + ".o")
        arch = s.split("/")[2] if s.startswith("lib/arch/") else ""
        fl = X86_FLAGS.get(arch, "").split() if have.get(arch.upper()) else []
        comp(os.path.join(src, s), base + fl, o)
        objs.append(o)
    clio = []
    if v["cli"] is not None:
        for k in ((0, 1) if v["kind"] == "pair" else (0,)):
            o = os.path.join(d, "cli%d.o" % k)
            fl = ["-DBASE64_SIM_BUFFER_RAW_SIZE=%d" % v["cli"]["raw"]] if v["cli"].get("raw") else []
            if v["cli"].get("emul"):
                fl += ["-DEMULATE_WRITEV"]
            comp(os.path.join(src, "bin/base64.c"), base + fl, o)
            clio.append(o)
    # simulator
    scc = [tc + "gcc"]
    sf = ["-std=gnu11", "-O2", "-g1", "-fno-pic", "-fno-pie", "-w", "-U_FORTIFY_SOURCE", "-fno-strict-aliasing", "-I" + SIM, "-I" + os.path.join(src, "lib"), "-I" + os.path.join(src, "include")]
    if v["instr"]:
        sf.append("-DINSTRUMENTED=1")
    if v["omp"]:
        sf.append("-DOMP=1")
    parts = {"lib": "sim step instr model shim sut abi scen_stream scen_huge scen_threads main_lib",
             "omp": "sim step instr model shim sut gomp scen_omp main_omp",
             "cli": "sim step instr model shim sut clienv scen_cli main_cli",
             "pair": "sim step instr model shim sut clienv scen_cli main_cli"}[v["kind"]].split()
    if v["kind"] in ("cli", "pair"):
        sf.append("-DCLI_RAW=%d" % (v["cli"].get("raw") or 1024 * 1024))
        sf.append("-DCLI_HUGE=%d" % bool(v["cli"].get("huge")))
        sf.append("-DCLI_EMUL=%d" % bool(v["cli"].get("emul")))
        sf.append("-DCLI_PAIR=%d" % (v["kind"] == "pair"))
    simo = []
    for p in parts:
        o = os.path.join(d, "sim_%s.o" % p)
        fl = ["-mno-red-zone"] if p == "step" and tc == "" else []
        jobs.append(pool.submit(run, scc + sf + fl + ["-c", os.path.join(SIM, p + ".c"), "-o", o]))
        simo.append(o)
    for j in jobs:
        j.result()
    if own:
        pool.shutdown()
    # one image for the system under test
    objcopy, ld = tc + "objcopy", tc + "ld"
    def image(objs, out, redef):
        run([ld, "-r", "-T", os.path.join(SIM, "sut.lds"), "-o", out + ".r"] + objs)
        syms = os.path.join(d, os.path.basename(out) + ".syms")
        with open(syms, "w") as f:
            for a, b in redef:
                f.write("%s %s\n" % (a, b))
        run([objcopy, "--redefine-syms=" + syms, out + ".r", out])
    redef = [(s, "shim_" + s) for s in SHIM_LIB]
    if v["instr"]:
        redef += [(s, "__tsan_" + s) for s in ("memcpy", "memmove", "memset", "memchr", "memrchr", "memcmp", "bcmp", "strlen", "strnlen", "strchr")]
    images = []
    lib = os.path.join(d, "sut_lib.o")
    if any("__cpu_model" in run([tc + "nm", "-u", o]) for o in objs):      # the compiler's own detection, as part of the library
        lg = run([tc + "gcc", "-print-libgcc-file-name"]).strip()
        run([tc + "ar", "x", lg, "cpuinfo.o"], cwd=d)
        objs.append(os.path.join(d, "cpuinfo.o"))
    image(objs, lib, redef)
    images.append(lib)
    if clio:
        sys.path.insert(0, VERIF)
        import clisyms
        for k, o in enumerate(clio):
            out = os.path.join(d, "sut_cli%d.o" % k)
            # the tool's own mutable image
            image([o], out, clisyms.redefs(k, run([tc + "nm", o])))
            images.append(out)
    run(scc + ["-static", "-no-pie", "-o", os.path.join(d, "sim")] + simo + images + ["-Wl,-z,noexecstack", "-Wl,--no-warnings" if False else "-Wl,-O1", "-lpthread"])
    if tc in (ARM, A64) and v["kind"] == "lib" and not v["instr"]:
        insns(tc, os.path.join(d, "sim"))
    for f in os.listdir(d):
        if f.endswith((".o", ".r", ".syms")):
            os.unlink(os.path.join(d, f))
    shutil.rmtree(src)

def insns(tc, binary):
    """Addresses of the instructions of the system under test; 1: the next one executed is the one after it."""
    dis = run([tc + "objdump", "-d", "--no-show-raw-insn", "--start-address=0x%x" % sym(tc, binary, "__start_sut_text"), "--stop-address=0x%x" % sym(tc, binary, "__stop_sut_text"), binary])
    with open(binary + ".insns", "w") as f:
        for l in dis.splitlines():
            m = re.match(r"\s*([0-9a-f]+):\s+(\S+)\s*(.*)", l)
            if not m or m.group(2).startswith(".") or m.group(2) in ("udf", "undefined"):
                continue
            op, args = m.group(2), m.group(3)
            jump = re.match(r"(b|bl|blx|bx|ret|br|blr|cbz|cbnz|tbz|tbnz|svc|brk|bkpt|b\.\w+|bl?x?(eq|ne|cs|hs|cc|lo|mi|pl|vs|vc|hi|ls|ge|lt|gt|le))$", op) or re.match(r"(ldm|pop)", op) or args.startswith("pc") or "ex" in op[2:]
            f.write("%s %d\n" % (m.group(1), 0 if jump else 1))

def sym(tc, binary, name):
    for l in run([tc + "nm", binary]).splitlines():
        if l.endswith(" " + name):
            return int(l.split()[0], 16)
    raise BuildError("no symbol " + name)

def build_all(names):
    """Build several variants at once; {name: path}."""
    res = {}
    inner = cf.ThreadPoolExecutor((os.cpu_count() or 4) + 2)
    with cf.ThreadPoolExecutor(len(names)) as ex:
        fut = {n: ex.submit(build, n, inner) for n in names}
        for n, f in fut.items():
            res[n] = f.result()
    inner.shutdown()
    return res

def emulator(name):
    e = VARIANTS[name]["emu"]
    return [e] if e else []

if __name__ == "__main__":
    names = sys.argv[1:] or list(VARIANTS)
    try:
        for n, p in build_all(names).items():
            print(n, p)
    except BuildError as e:
        print("BUILD FAILED:", e)
        sys.exit(2)
