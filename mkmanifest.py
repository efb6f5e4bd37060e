#!/usr/bin/env python3
"""Writes MANIFEST.json (kept as a script so that the list of checks stays in step)."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
SESS = ("Seeded search over simulated sessions (arbiter, engine replicas, lossy network, crashes, cancelled searches); every "
        "answer is judged. A clean batch is evidence, not proof. Trusts the reference model of shogi and shogi_core.")
T_SESS = "deterministic simulation with fault injection: seeded session world (discrete-event, simulated clock/network/crash), reference-model oracle"
LEVEL = {}
checks = []
def add(p, tech, note):
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                   "technique": tech, "level": "exploration", "level_note": note})
for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]:
    add(p, T_SESS, SESS)
na = []
done = json.load(open(os.path.join(ROOT, "built.json"))) if os.path.exists(os.path.join(ROOT, "built.json")) else []
if "thr" in done:
    for p in ["C09", "C10", "C11", "C12"]:
        add(p, "deterministic simulation with fault injection: real threads under a seeded scheduler at every memory access, with happens-before race detection",
            "Seeded search over schedules at memory-access granularity with stalls, panics, crashes, failing allocations; "
            "sequentially consistent interleavings plus happens-before race detection" +
            ("; a second phase runs short scripts in Miri with seeded weak-memory values. " if p in ("C09", "C10") else ". ") +
            "Trusts the compiler's instrumentation (ThreadSanitizer pass), the runtime in thr/src/rt.c and the reference model.")
else:
    na += [{"property": p, "reason": "check under construction"} for p in ["C09", "C10", "C11", "C12"]]
add("C13", "deterministic simulation: the same seeded sessions executed in four builds in lockstep, event logs compared",
    "Seeded search over simulated sessions; the portable and the AVX2 build, each with and without run-time checks, must produce the same log. Samples, does not enumerate.")
add("C18", "deterministic simulation: the same seeded sessions executed in builds for other processors (wasm32 in node, the NEON backend against stand-ins) in lockstep, event logs compared",
    "Seeded search over simulated sessions. The wasm32 builds are real and executed by V8; the aarch64 backend is the real source compiled for x86-64 against plain-Rust stand-ins of the intrinsics; big-endian code (s390x) is interpreted by Miri. "
    "If the library does not compile for a backend, that is reported as not decided for it.")
add("C14", "deterministic simulation with fault injection: seeded sessions and long churn with cancelled searches and panicking calls, allocator accounting at every step",
    "Seeded search; heap bytes held by the library are accounted exactly through the global allocator; bounds are generous (16 KiB per position, 4 KiB per ply, 64 KiB slack), so only growth with work done is reported.")
add("C17", "deterministic simulation with fault injection: seeded sessions, long histories, long work and crowds, the price of calls counted in steps by compiler instrumentation",
    "Seeded search; a price is compared with that of a new object of the same position (twice that plus 2000 steps allowed; on the unchanged tree they are equal to the step). "
    "Work inside prebuilt standard library functions and the kernel is not counted, except bytes copied and sleeping.")
add("C19", "deterministic simulation with fault injection: seeded sessions and scripts of arbitrary calls (panics in the middle, mismatched take-backs, threads) under AddressSanitizer and in the Miri interpreter with seeded scheduling",
    "Seeded search; reports only undefined behaviour that AddressSanitizer or Miri shows (Miri's aliasing rules count only if both proposals are violated). Histories in the interpreter are short. "
    "What Miri cannot interpret is reported as not decided.")
if "perft" in done:
    add("C15", "deterministic simulation with fault injection: the real example on a simulated standard output and clock",
        "Seeded search over write outcomes (short, interrupted, failing), clock readings and failing allocations at depths 1-4; fault-free runs at depths 5 and 6 (7 in the thorough tier) against counts of the reference model.")
else:
    na.append({"property": "C15", "reason": "check under construction"})
na += [
    {"property": "C16", "reason": "a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide; its effect on histories is judged through C05 and C06"},
]
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the public API, the allocator, the compiler's instrumentation and libc symbols are the seams."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
