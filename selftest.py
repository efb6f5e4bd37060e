#!/usr/bin/env python3
"""Tests of the machinery itself, not of the library.

  selftest.py [RUNS]   every run of a simulator, executed again in another process, at another place in the
                       sequence of runs and while the machine is busy, must give the same digest (all answers;
                       for threads also the executed schedule); the session digests must not depend on the build.
"""
import subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import check
import os
sys.path.insert(0, os.path.join(check.ROOT, "perft"))
import perftsim


def digests(cmd, first, step, count):
    o = subprocess.run(cmd + ["--from", str(first), "--step", str(step), "--count", str(count), "--digest"],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=850).stdout
    d = {}
    for l in o.splitlines():
        if l.startswith("DIGEST "):
            _, i, x = l.split()
            d[int(i)] = x
        if l.startswith(("VIOLATION", "INTERNAL")):
            raise SystemExit(" ".join(cmd) + ": " + l)
    return d


def compare(name, cmds, n):
    """The runs 0..n-1 split over 3 workers, over 5 workers, and in one."""
    with ThreadPoolExecutor(9) as ex:
        parts = []
        for step, cmd in zip((3, 5, 1), (cmds * 3)[:3]):
            parts.append([ex.submit(digests, cmd, k, step, (n - k + step - 1) // step) for k in range(step)])
        maps = []
        for p in parts:
            m = {}
            for f in p:
                m.update(f.result())
            maps.append(m)
    bad = [i for i in range(n) if len({m.get(i) for m in maps}) != 1 or maps[0].get(i) is None]
    print("%s: %d runs three times, %d differ %s" % (name, n, len(bad), bad[:5]), flush=True)
    return not bad


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    bins = check.build(list(check.FLAVOURS), {})
    ok = True
    for prop in check.SESSION + ["C10", "C11", "C13"]:
        cmds = [[os.path.join(bins[f], "ysim"), "run", "--prop", prop, "--seed", "5"] for f in (("core", "simd") if prop != "C17" else ("meter",))]
        ok &= compare(prop, cmds if prop == "C13" else cmds[:1], n)
    for f in check.BUILDS["C18"][1:]:
        cmds = [[os.path.join(bins[x], "ysim"), "run", "--prop", "C13", "--seed", "5"] for x in (f, "core")]
        ok &= compare("C18 " + f, cmds, n)
    for prop in check.THREADS:
        for f in ("thr-core", "thr-simd"):
            ok &= compare(prop + " " + f, [[check.thr(bins, f), "run", "--prop", prop, "--seed", "5"]], n)
    for f in ("asan-core", "asan-simd"):
        ok &= compare("C19 " + f, [[os.path.join(bins[f], "ysim"), "run", "--prop", "C19", "--seed", "5"]], n)
    native = os.path.join(bins["native"], "ymiri")
    jobs = []
    for f in ("miri-core", "miri-simd", "miri-s390x"):
        for how in ("ALONE",) if f == "miri-s390x" else ("ALONE", "COLD-3", "LATE-2"):
            lines = check.run_quietly([native, "SHORT", "5", str(len(jobs)), "8", "4"]).splitlines()
            jobs.append((f, how, lines))
    with ThreadPoolExecutor(4) as ex:
        runs = [[ex.submit(lambda j=j: check.Miri(j[0], j[1], 5, j[2]).wait(check.time.time() + 600)) for _ in range(2)] for j in jobs]
        for (f, how, _), r in zip(jobs, runs):
            a, b = [(m.result().digests, m.result().logs, m.result().p.returncode) for m in r]
            print("interpreter %s %s: %d scripts twice, %s" % (f, how, len(a[0]), "the same" if a == b and a[0] else "DIFFERENT"), flush=True)
            ok &= a == b and bool(a[0])
    bad = 0
    for run in range(4, 4 + n):
        depth, ev = perftsim.plan_of(5, run, False)
        r = [perftsim.execute(bins[perftsim.flavour_of(run)], depth, ev) for _ in range(3)]
        # what the clock of the example measures is simulated, so everything it prints is repeatable
        bad += len({(x.rc, x.out, x.trace) for x in r}) != 1
    print("C15: %d runs three times, %d differ" % (n, bad))
    return 0 if ok and not bad else 1


if __name__ == "__main__":
    sys.exit(main())
