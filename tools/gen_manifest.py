#!/usr/bin/env python3
"""Writes MANIFEST.json; run after changing the list of properties."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = "2cfcefc"
full = subprocess.check_output(["git", "-C", "/repo", "rev-parse", HOOK], text=True).strip()
T = "deterministic simulation with fault injection: "
TECH = {
 "S01": T + "seeded schedules of interleaved encoder streams cut into blocks, byte-wise reference model as oracle",
 "S02": T + "seeded block schedules of interleaved decoder streams, byte-wise reference model as oracle",
 "S03": T + "seeded damage in transit (loss, duplication, reordering, corruption) under seeded block schedules, byte-wise reference model as oracle",
 "S04": T + "seeded histories of failure, abandonment and re-initialisation; history invariants and a fresh twin state as oracle",
 "S05": T + "seeded block schedules on guard-paged, canaried, read-only-aliased buffers; memory invariants checked after every call",
 "S06": T + "seeded checkpoints, process crashes, moves and changes of machine against the undisturbed execution",
 "S07": T + "seeded workloads with every allocation and system call refused",
 "S08": T + "seeded block schedules, damage and codecs through a call trampoline; register and control-state invariants checked at every return",
 "S09": T + "seeded block schedules and damage with instructions or memory accesses counted and the stack painted; bounded progress checked for every call",
 "T01": T + "seeded preemption of caller threads at instruction or memory-access level against each program run alone",
 "T02": T + "seeded interrupts at instruction level whose handlers use the library, against each operation run alone",
 "T03": T + "seeded programs of forced and default codecs in concurrent callers, instruction-set monitor, against each program run alone",
 "T04": T + "seeded simulated x86 machines (CPUID, XGETBV) with an instruction-set monitor over single-stepped library code",
 "T05": T + "seeded crashes of caller threads in mid-call (thread gone, all others gone as after fork, jump out of the call and retry) under seeded preemption, against each program run alone",
 "P01": T + "seeded schedules and team sizes on a simulated OpenMP runtime, serial reference model as oracle",
 "P02": T + "seeded schedules and team sizes on a simulated OpenMP runtime, serial reference model as oracle",
 "P03": T + "seeded damage, schedules and team sizes on a simulated OpenMP runtime, serial reference model as oracle",
 "P04": T + "seeded threaded applications (nested teams, shared constructs, locks, settings) around the calls on a simulated OpenMP runtime; settings and team position compared at every return, serial reference model as oracle",
 "U01": T + "seeded read and write sizes and signal interruptions on a simulated operating system, expected output checked at every write",
 "U02": T + "seeded read and write sizes and signal interruptions on a simulated operating system, expected output checked at every write",
 "U03": T + "seeded failures of open, read, write, close and allocation and full disks on a simulated operating system, exact-prefix invariant at every write",
 "U04": T + "seeded damage and I/O behaviour on a simulated operating system, exact-prefix invariant at every write",
 "U05": T + "seeded line noise and I/O behaviour on a simulated operating system, expected output checked at every write",
 "U07": T + "seeded argument vectors against a small model of the command line, with seeded I/O behaviour and failures, expected output checked at every write",
 "U08": T + "seeded long inputs, noise and I/O behaviour on a simulated operating system that accounts memory in use, output held back and operations made",
 "U06": T + "seeded schedules of two tool processes over a bounded pipe with process deaths at any operation",
}
NOTE = {
 "S": "A seeded sample of runs over up to fifteen builds (x86-64 by gcc and clang, with and without inline assembly, 32-bit x86, AArch64 and ARM NEON by assembly and by intrinsics, shipped and instrumented, big-endian s390x, memory-access-instrumented builds): no violation was found in them, which is evidence and not proof. Trusts the reference model, the compilers and, for the foreign builds, qemu-user.",
 "T": "A seeded sample of interleavings; each run executes one sequentially consistent interleaving at single-instruction (x86 trap flag) or single-memory-access (compiler instrumentation) granularity. Weak-memory reorderings are not simulated. Trusts the host processor for instructions it executes natively.",
 "P": "A seeded sample of team sizes and interleavings on a simulated libgomp; the code is compiled by gcc -fopenmp as shipped. Weak-memory reorderings are not simulated. 32-bit builds include inputs beyond 1 GiB.",
 "U": "A seeded sample of I/O behaviours; bin/base64.c and the library are the real code, C library stdio buffering and getopt are real, devices, allocator, signals, exit and (U06) the pipe and both processes are simulated.",
}
NA = {
 "N01": "The tables are constants and their generators pure functions without input, schedule, clock, I/O fault or second party; there is nothing for a simulator to decide.",
 "N03": "Symbol visibility and header compatibility are properties of the build products, not of any execution; there is nothing to simulate.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
assert set(TECH) | set(NA) == set(ids), set(ids) ^ (set(TECH) | set(NA))
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "hooks": {
  "guard": "BASE64_SIM_BUFFER_RAW_SIZE",
  "enable": "-DBASE64_SIM_BUFFER_RAW_SIZE=N when compiling bin/base64.c makes the tool's input buffer N bytes instead of 1 MiB, so that its buffer handling is reached by short inputs; undefined, the source is as shipped. Everything else is simulated by renaming the undefined symbols of the compiled objects.",
  "source_commits": [full],
 },
 "checks": [{
  "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
  "technique": TECH[i], "level": "exploration", "level_note": NOTE[i[0]],
 } for i in ids if i in TECH],
 "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
 "notes": "Replay a reported violation with: python3 check.py --replay FILE. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
