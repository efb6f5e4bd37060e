#!/usr/bin/env python3
"""Runs the checks: builds the simulators from /repo's working tree, searches seeds in parallel, minimises
and confirms what it finds, writes evidence.

  check.py build                 build everything (setup)
  check.py C05                   one check; VERIF_SEED and VERIF_TIER from the environment
  check.py replay FILE           run a replay file again; exit 1 if it shows its violation
"""
import fcntl, hashlib, json, os, shutil, signal, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
OUT = os.path.join(ROOT, "out")
sys.path.insert(0, os.path.join(ROOT, "perft"))
sys.dont_write_bytecode = True
CPUS = max(2, min(8, os.cpu_count() or 2))
SESSION = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C14", "C17"]
THREADS = ["C09", "C10", "C11", "C12"]
# builds that have to agree; the first is the one the others are compared with
BUILDS = {"C13": ["core", "simd", "core-unchecked", "simd-checked"],
          "C18": ["core", "wasm-simd", "wasm-core", "neon"]}
# these may fail to compile without the check failing: then the property is not decided for them
FOREIGN = ["wasm-simd", "wasm-core", "neon", "miri-core", "miri-simd", "miri-s390x"]
HANG_S = 60


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building

def repo_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith((".rs", ".toml")):
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


THR_ARGS = ["build", "--offline", "--release", "-Zbuild-std=std,panic_unwind", "--target", "x86_64-unknown-linux-gnu"]
THR_FLAGS = ("-Zsanitizer=thread -Zexternal-clangrt -Ctarget-cpu=x86-64-v3 "
             "-Cllvm-args=-tsan-instrument-func-entry-exit=0")
THR_DIR = "x86_64-unknown-linux-gnu/release"
THR_CLEAN = ["--release", "--target", "x86_64-unknown-linux-gnu"]
WASM = "wasm32-unknown-unknown"
WASM_SYSROOT = os.path.join(ROOT, "target", "wasm-std", "sysroot")
WASM_FLAGS = "-Cpanic=unwind --sysroot " + WASM_SYSROOT
HOST = "x86_64-unknown-linux-gnu"
ASAN_FLAGS = "-Zsanitizer=address -Zub-checks=yes"
FLAVOURS = {
    # name: (crate, cargo arguments, RUSTFLAGS, directory of the binaries, arguments for cleaning)
    "core": ("sim", ["build", "--offline"], "-Ctarget-cpu=x86-64", "debug", []),
    "simd": ("sim", ["build", "--offline", "--release", "--features", "simd"], "-Ctarget-cpu=x86-64-v3", "release", ["--release"]),
    # C13 only: the other two combinations
    "core-unchecked": ("sim", ["build", "--offline", "--release"], "-Ctarget-cpu=x86-64", "release", ["--release"]),
    "simd-checked": ("sim", ["build", "--offline", "--features", "simd"], "-Ctarget-cpu=x86-64-v3", "debug", []),
    # C17: counts the steps of each call
    "meter": ("sim", ["build", "--offline", "--release", "--features", "simd,meter", "--target", "x86_64-unknown-linux-gnu"],
              "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc "
              "-Ctarget-cpu=x86-64-v3", "x86_64-unknown-linux-gnu/release", ["--release", "--target", "x86_64-unknown-linux-gnu"]),
    # C18: the real wasm32 builds (run by node), and the aarch64 sources against stand-ins for the intrinsics
    "wasm-simd": ("wasm", ["+nightly", "build", "--offline", "--release", "--target", WASM, "--features", "simd"],
                  WASM_FLAGS + " -Ctarget-feature=+simd128", WASM + "/release", ["--release", "--target", WASM]),
    "wasm-core": ("wasm", ["+nightly", "build", "--offline", "--target", WASM], WASM_FLAGS, WASM + "/debug", ["--target", WASM]),
    "neon": ("sim", ["build", "--offline", "--features", "simd"], "-Ctarget-cpu=x86-64", "debug", []),
    # C19: memory errors are reported where they happen; undefined operations are reported by the interpreter
    "asan-core": ("sim", ["+nightly", "build", "--offline", "--target", HOST], ASAN_FLAGS + " -Ctarget-cpu=x86-64", HOST + "/debug",
                  ["--target", HOST]),
    "asan-simd": ("sim", ["+nightly", "build", "--offline", "--release", "--features", "simd", "--target", HOST],
                  ASAN_FLAGS + " -Ctarget-cpu=x86-64-v3", HOST + "/release", ["--release", "--target", HOST]),
    "miri-core": ("miri", ["+nightly", "miri", "run", "--offline", "--target", HOST], "-Ctarget-cpu=x86-64", "", []),
    "miri-simd": ("miri", ["+nightly", "miri", "run", "--offline", "--target", HOST, "--release", "--features", "simd"],
                  "-Ctarget-cpu=x86-64-v3", "", []),
    # C18: a big-endian processor; C09, C10: weak memory; what they answer is compared with "native"
    "miri-s390x": ("miri", ["+nightly", "miri", "run", "--offline", "--target", "s390x-unknown-linux-gnu"], "", "", []),
    "native": ("miri", ["build", "--offline"], "-Ctarget-cpu=x86-64", "debug", []),
    "thr-core": ("thr", ["+nightly"] + THR_ARGS, THR_FLAGS, THR_DIR, THR_CLEAN),
    "thr-simd": ("thr", ["+nightly"] + THR_ARGS + ["--features", "simd"], THR_FLAGS, THR_DIR, THR_CLEAN),
    "perft-core": ("perft", ["build", "--offline", "--profile", "checked"], "-Ctarget-cpu=x86-64", "checked", ["--profile", "checked"]),
    "perft-simd": ("perft", ["build", "--offline", "--release", "--features", "simd"], "-Ctarget-cpu=x86-64-v3", "release", ["--release"]),
}


def cargo(args, cwd, flags, target, more={}):
    env = dict(os.environ)
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
        env.pop(k, None)
    env["RUSTFLAGS"] = flags
    env.update(more)
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_NET_OFFLINE"] = "true"
    return subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def run_quietly(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise HarnessError("%s:\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout.strip()


def wasm_std():
    """The standard library for wasm32, from the sources that come with the toolchain."""
    version = run_quietly(["rustc", "+nightly", "-vV"])
    stamp = os.path.join(WASM_SYSROOT, "version")
    if os.path.exists(stamp) and open(stamp).read() == version:
        return
    base = os.path.dirname(WASM_SYSROOT)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(os.path.join(base, "empty", "src"))
    with open(os.path.join(base, "empty", "src", "lib.rs"), "w"):
        pass
    with open(os.path.join(base, "empty", "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "empty"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                '[profile.release]\nopt-level = 3\ndebug = false\npanic = "unwind"\n')
    vendor = run_quietly(["rustc", "+nightly", "--print", "sysroot"]) + "/lib/rustlib/src/rust/library/vendor"
    target = os.path.join(base, "t")
    r = cargo(["+nightly", "build", "--offline", "--release", "-Zbuild-std=std,panic_unwind", "--target", WASM,
               "--config", 'source.crates-io.replace-with="vendored"', "--config", 'source.vendored.directory="%s"' % vendor],
              os.path.join(base, "empty"), "-Cpanic=unwind", target)
    if r.returncode != 0:
        raise HarnessError("standard library for wasm32:\n" + r.stdout[-4000:])
    lib = os.path.join(WASM_SYSROOT, "lib", "rustlib", WASM, "lib")
    os.makedirs(lib)
    for d, _, fs in os.walk(os.path.join(target, WASM)):
        for f in fs:
            if f.endswith((".rlib", ".rmeta")) and "empty" not in f:
                shutil.copy(os.path.join(d, f), lib)
    shutil.rmtree(target)
    with open(stamp, "w") as f:
        f.write(version)


def neon_stubs():
    """What the aarch64 sources are compiled against; returns the environment for cargo."""
    src = os.path.join(ROOT, "neon")
    out = os.path.join(ROOT, "target", "neon", "stubs")
    key = run_quietly(["rustc", "-vV"]) + "".join(open(os.path.join(src, f)).read() for f in ("neon.rs", "std.rs", "core.rs", "wrap.sh"))
    stamp = os.path.join(out, "made-from")
    if not os.path.exists(stamp) or open(stamp).read() != key:
        shutil.rmtree(os.path.join(ROOT, "target", "neon"), ignore_errors=True)
        os.makedirs(out)
        std = ["rustc", "--edition", "2021", "-Copt-level=3", "-Ctarget-cpu=x86-64", "--crate-type", "rlib", "--out-dir", out]
        run_quietly(std + ["--crate-name", "yneon_std", "std.rs"], src)
        run_quietly(std + ["--crate-name", "yneon_core", "-L", out, "--extern", "yneon_std=" + os.path.join(out, "libyneon_std.rlib"), "core.rs"], src)
        with open(stamp, "w") as f:
            f.write(key)
    return {"NEON_STUBS": out, "RUSTC_WRAPPER": os.path.join(src, "wrap.sh")}


def miri_env():
    return {"XDG_CACHE_HOME": os.path.join(ROOT, "target", "miri-std"), "MIRIFLAGS": ""}


def miri_std(target):
    """The standard library as the interpreter wants it."""
    version = run_quietly(["rustc", "+nightly", "-vV"])
    stamp = os.path.join(miri_env()["XDG_CACHE_HOME"], "version-" + target)
    if os.path.exists(stamp) and open(stamp).read() == version:
        return
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    r = cargo(["+nightly", "miri", "setup", "--offline", "--target", target], ROOT, "", os.path.join(ROOT, "target", "miri-t"), miri_env())
    if r.returncode != 0:
        raise HarnessError("standard library for the interpreter:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(version)


def build(names, undecided=None):
    """Builds flavours from the current tree; returns {name: directory with the binaries}. With `undecided` given,
    a foreign flavour the library does not compile for goes there instead of being an error."""
    os.makedirs(os.path.join(ROOT, "target"), exist_ok=True)
    with open(os.path.join(ROOT, "target", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = repo_hash()
        errs = {}
        if any(n.startswith("wasm-") for n in names):
            wasm_std()
        stubs = neon_stubs() if "neon" in names else {}
        for t in sorted({FLAVOURS[n][1][FLAVOURS[n][1].index("--target") + 1] for n in names if n.startswith("miri-")}):
            miri_std(t)

        def one(n):
            crate, args, flags, sub, clean = FLAVOURS[n]
            plus, rest = ([], args)
            if args[0].startswith("+"):
                plus, rest = [args[0]], args[1:]
            target = os.path.join(ROOT, "target", n)
            stamp = os.path.join(target, ".repo-hash")
            more = stubs if n == "neon" else miri_env() if n.startswith("miri-") else {}
            have = open(stamp).read() if os.path.exists(stamp) else ""
            cwd = os.path.join(ROOT, crate)
            if n.startswith("miri-"):
                if have != want:
                    shutil.rmtree(target, ignore_errors=True)
                # interprets nothing, but leaves everything compiled
                rest = rest + ["--", "ALONE"]
            elif have != want and os.path.isdir(target):
                # cargo goes by time stamps; contents are what counts here
                cargo(plus + ["clean", "--offline", "-p", "yasai"] + clean, cwd, flags, target, more)
                if os.path.exists(stamp):
                    os.unlink(stamp)
            r = cargo(plus + rest, cwd, flags, target, more)
            if r.returncode != 0:
                errs[n] = r.stdout[-4000:]
                if n in FOREIGN and undecided is not None and "could not compile `yasai`" in r.stdout:
                    undecided[n] = errs.pop(n)
                return
            if crate == "wasm":
                with open(os.path.join(target, sub, "ysim"), "w") as f:
                    f.write('#!/bin/sh\nexec node --stack-size=3900 "%s" "%s" "$@"\n' % (
                        os.path.join(cwd, "run.js"), os.path.join(target, sub, "ywasm.wasm")))
                os.chmod(os.path.join(target, sub, "ysim"), 0o755)
            if crate == "perft":
                r = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-Wall", "-o", os.path.join(target, sub, "shim.so"),
                                    os.path.join(cwd, "shim.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    errs[n] = r.stdout[-4000:]
                    return
            with open(stamp, "w") as f:
                f.write(want)

        ts = [threading.Thread(target=one, args=(n,)) for n in names]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            for n, e in errs.items():
                log("build of", n, "failed:\n", e)
            raise HarnessError("build failed")
    return {n: os.path.join(ROOT, "target", n, FLAVOURS[n][3]) for n in names if n not in (undecided or ())}


# ---------------------------------------------------------------- workers

class Worker:
    """A worker process; its standard output is read line by line."""

    def __init__(self, cmd, tag, on_line=None, env=None):
        self.cmd, self.tag = cmd, tag
        self.run = None
        self.stats = None
        self.viol = None
        self.script = []
        self.lines = on_line
        self.last = time.time()
        self.hung = False
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
        self.err = ""
        self.t = threading.Thread(target=self._read)
        self.t.start()
        self.t2 = threading.Thread(target=self._read_err)
        self.t2.start()

    def _read_err(self):
        self.err = self.p.stderr.read()
        self.err = self.err[:8000] + self.err[8000:][-4000:]

    def _read(self):
        inside = False
        for l in self.p.stdout:
            l = l.rstrip("\n")
            self.last = time.time()
            if inside:
                if l == "END-SCRIPT":
                    inside = False
                else:
                    self.script.append(l)
            elif l.startswith("RUN "):
                self.run = int(l[4:])
            elif l == "BEGIN-SCRIPT":
                inside = True
                self.script = []
            elif l.startswith("STATS "):
                self.stats = json.loads(l[6:])
            elif l.startswith("VIOLATION "):
                w = l.split(" ", 2)
                self.viol = (w[1], w[2] if len(w) > 2 else "")
            if self.lines:
                self.lines(self, l)

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass

    def join(self):
        self.p.wait()
        self.t.join()
        self.t2.join()


def supervise(workers, hang_s=HANG_S):
    """Waits for all; the first violation stops the others; a silent worker is killed as hung."""
    while True:
        alive = [w for w in workers if w.t.is_alive() or w.p.poll() is None]
        if not alive:
            break
        if any(w.viol and w.p.poll() is not None for w in workers) or any(
                w.p.poll() not in (None, 0, 1) and not w.hung for w in workers):
            for w in alive:
                w.kill()
        for w in alive:
            if time.time() - w.last > hang_s and w.p.poll() is None:
                w.hung = True
                w.kill()
        time.sleep(0.05)
    for w in workers:
        w.join()


def call(cmd, timeout):
    """(exit code or 'hang', stdout)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return "hang", o or "", e or ""


def outcome(rc, out):
    """What an execution showed: (class, detail) or None."""
    for l in out.splitlines():
        if l.startswith("VIOLATION "):
            w = l.split(" ", 2)
            return w[1], (w[2] if len(w) > 2 else "")
    if rc == "hang":
        return "hang", "the call does not return"
    if rc not in (0, 1, 2):
        return "crash", "the process ended with status %s" % rc
    if rc == 2:
        raise HarnessError("replay not understood:\n" + out)
    return None


def ddmin(items, test, deadline):
    """Delta debugging: a small sublist for which test(sublist) holds."""
    n = 2
    while len(items) >= 2 and time.time() < deadline:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        for i in range(len(chunks)):
            if time.time() > deadline:
                return items
            rest = [x for j, c in enumerate(chunks) if j != i for x in c]
            if rest and test(rest):
                items = rest
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


# ---------------------------------------------------------------- reporting

def known_findings(prop):
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                res.append(l.split(" ", 2)[2])
    return res


def write_replay(prop, header, body):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.txt" % (prop, int(time.time() * 1000)))
    with open(path, "w") as f:
        f.write("# property=%s\n" % prop)
        for k, v in header.items():
            f.write("# %s=%s\n" % (k, str(v).replace("\n", " / ")))
        f.write("\n".join(body) + "\n")
    return path


def header_of(path):
    h = {}
    for l in open(path):
        if l.startswith("# ") and "=" in l:
            k, v = l[2:].rstrip("\n").split("=", 1)
            h.setdefault(k, v)
    return h


def evidence(prop, tier, seed, level, coverage, t0, violations, assumptions):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    path = os.path.join(ROOT, "evidence", prop + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, path)


def merge(stats):
    """Adds up the STATS of the workers."""
    tot = {}
    for s in stats:
        for k, v in s.items():
            if isinstance(v, dict):
                d = tot.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif isinstance(v, list):
                tot.setdefault(k, []).extend(v)
            elif k.startswith("peak"):
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
    return tot


# ---------------------------------------------------------------- session properties

ASSUME_SESSION = [
    "the reference model of shogi (sim/src/refmodel.rs) states the rules correctly; it is cross-checked against published perft numbers",
    "shogi_core behaves as documented (it is used to build positions and moves)",
    "a search over seeds samples histories; it does not enumerate them",
]


ASSUME_FOREIGN = [
    "the stand-ins for the NEON intrinsics (neon/neon.rs) do what the Arm reference says; code generation for aarch64 is not executed",
    "node executes WebAssembly correctly",
]


def exec_session(bins, flavour, prop, lines, timeout=30):
    d = os.path.join(OUT, "tmp")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "r%d-%d.txt" % (os.getpid(), threading.get_ident()))
    with open(f, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    try:
        if prop in BUILDS:
            return compare_builds(bins, ["exec", f, "--prop", "C13", "--log"], timeout)
        rc, out, err = call([os.path.join(bins[flavour], "ysim"), "exec", f, "--prop", prop], timeout)
        return outcome(rc, out)
    finally:
        os.unlink(f)


def compare_builds(bins, args, timeout):
    """The same arguments given to all builds: what differs from the portable checked build, or None."""
    r = [call([os.path.join(d, "ysim")] + args, timeout) for d in bins.values()]
    for name, x in list(zip(bins, r))[1:]:
        o = compare_logs(r[0], x, name)
        if o:
            return o
    return None


def compare_logs(a, b, name):
    for x in (a, b):
        if x[0] == 2:
            raise HarnessError("replay not understood: " + x[1][-500:])
    la = [l for l in a[1].splitlines() if l.startswith(("LOG ", "DIGEST ")) and not l.startswith("LOG t=")]
    lb = [l for l in b[1].splitlines() if l.startswith(("LOG ", "DIGEST ")) and not l.startswith("LOG t=")]
    if (a[0] == "hang") != (b[0] == "hang") or (a[0] in (0, 1)) != (b[0] in (0, 1)):
        return "builds-differ", "build core ended with %s, build %s with %s" % (a[0], name, b[0])
    for x, y in zip(la, lb):
        if x != y:
            return "builds-differ", "build core: %s; build %s: %s" % (x, name, y)
    if len(la) != len(lb):
        return "builds-differ", "logs of different length"
    return None


def worker_cmd(bins, flavour, prop, seed, frm, step, extra):
    return [os.path.join(bins[flavour], "ysim"), "run", "--prop", "C13" if prop in BUILDS else prop, "--seed", str(seed),
            "--from", str(frm), "--step", str(step)] + extra


def session_finding(bins, prop, seed, tier, w, flavour, step, first):
    """A worker reported something: minimise, confirm in fresh processes, write the replay file."""
    run = w.run
    lines, cls, detail = list(w.script), None, None
    thorough = ["--thorough"] if tier == "thorough" else []
    if w.viol:
        cls, detail = w.viol
    else:
        # the process died or hung: find out in what operation
        tr = os.path.join(OUT, "tmp", "trace-%d" % os.getpid())
        os.makedirs(os.path.dirname(tr), exist_ok=True)
        rc, out, err = call(worker_cmd(bins, flavour, prop, seed, run, 1, ["--count", "1", "--trace", tr] + thorough), 90)
        lines = open(tr).read().splitlines() if os.path.exists(tr) else []
        o = outcome(rc, out)
        if o is None:
            if w.hung:
                log("worker was silent for a while but run", run, "completes when repeated")
                return None
            # only together with earlier runs
            cls, detail = "crash", "the process ended with status %s in run %d" % (w.p.returncode, run)
            lines = []
        else:
            cls, detail = o
    notes = ["# " + l for l in lines if l.startswith("note ")]
    ops = [l for l in lines if not l.startswith("note ")]
    tmo = 15 if cls == "hang" else 60

    def shows(ls):
        try:
            o = exec_session(bins, flavour, prop, ls, tmo)
        except HarnessError:
            return False
        return o is not None and o[0] == cls

    head = {"class": cls, "flavour": flavour, "seed": seed, "run": run, "how": "check.py replay <this file>"}
    if ops and shows(ops):
        ops = ddmin(ops, shows, time.time() + (90 if tier == "quick" else 300))
        ops = shrink_churn(ops, shows)
        o = exec_session(bins, flavour, prop, ops, tmo)
        o2 = exec_session(bins, flavour, prop, ops, tmo)
        if o and o2 and o[0] == o2[0] == cls:
            detail = o[1]
            head["detail"] = detail
            head["mode"] = "ops"
            return cls, detail, write_replay(prop, head, ["# events and faults of the run it was found in:"] + notes[:200] + ops)
    # not from one run alone: the runs before it in the same process matter
    k = 1
    n_before = (run - first) // step
    while True:
        k = min(k * 4, n_before)
        frm = run - k * step
        cmd = worker_cmd(bins, flavour, prop, seed, frm, step, ["--count", str(k + 1)] + thorough)
        rc, out, err = call(cmd, 600)
        o = outcome(rc, out)
        if o and o[0] == cls:
            head.update({"mode": "runs", "detail": o[1]})
            return cls, o[1], write_replay(prop, head, ["runs " + " ".join(cmd[1:])])
        if k >= n_before:
            break
    head.update({"mode": "runs", "detail": detail, "note": "shown once, not again: the code under test is not deterministic"})
    cmd = worker_cmd(bins, flavour, prop, seed, first, step, ["--count", str(n_before + 1)] + thorough)
    return cls, detail, write_replay(prop, head, ["runs " + " ".join(cmd[1:])])


def shrink_churn(ops, shows):
    """Long walks: halve their lengths as long as the violation stays."""
    for i in range(len(ops)):
        while ops[i].startswith(("churn ", "grind ", "deep ", "herd ", "relay ", "throng ", "fail ")):
            w = ops[i].split()
            n = int(w[3]) // 2
            if n < 1:
                break
            c = ops[:i] + [" ".join(w[:3] + [str(n)] + w[4:])] + ops[i + 1:]
            if not shows(c):
                break
            ops = c
    return ops


RULE_SESSION = (
    "a case is one full observation or take-back comparison judged by this property's oracle on a live position; "
    "distinct_nontrivial counts different (board, hands, side) values judged on positions that were reached by at "
    "least one move, take-back or clone (union over all workers)")


def sessions(bins, flavours, prop, seed, tier, ms):
    """Runs of the session simulator in parallel: the workers, what was found, the sum of the statistics, how many different states."""
    d = os.path.join(OUT, "tmp")
    os.makedirs(d, exist_ok=True)
    workers, dist = [], []
    for i in range(CPUS):
        fl = flavours[i % len(flavours)]
        f = os.path.join(d, "distinct-%d-%d" % (os.getpid(), i))
        dist.append(f)
        extra = ["--ms", str(ms), "--distinct", f] + (["--thorough"] if tier == "thorough" else [])
        w = Worker(worker_cmd(bins, fl, prop, seed, i, CPUS, extra), fl)
        w.first = i
        workers.append(w)
    supervise(workers)
    finding = None
    for w in sorted(workers, key=lambda w: (not w.viol, w.run or 0)):
        if w.viol or w.hung or w.p.returncode not in (0, 1, -9):
            if w.run is None:
                raise HarnessError("worker did not start: %s" % w.err)
            finding = session_finding(bins, prop, seed, tier, w, w.tag, CPUS, w.first)
            if finding:
                finding = finding + (w.tag, w.run)
                break
    st = merge([w.stats for w in workers if w.stats])
    if not finding and any(w.stats is None for w in workers):
        raise HarnessError("a worker ended without statistics: %s" % [w.err for w in workers if w.stats is None])
    rc, o, e = call([os.path.join(bins[flavours[0]], "ysim"), "union"] + dist, 120)
    for f in dist:
        if os.path.exists(f):
            os.unlink(f)
    return workers, finding, st, int(o.strip() or 0)


def check_session(prop, tier, seed):
    t0 = time.time()
    flavours = ["meter"] if prop == "C17" else ["core", "simd"]
    bins = build(flavours)
    tb = time.time() - t0
    ms = 28000 if tier == "quick" else 600000
    workers, finding, st, distinct = sessions(bins, flavours, prop, seed, tier, ms)
    wall = time.time() - t0 - tb
    cov = session_coverage(st, distinct, wall, workers)
    assume = ASSUME_SESSION
    if prop == "C17":
        cov["rule"] = ("a case is one comparison of prices (steps of legal_moves, is_check_move, moves made and taken back, queries, clones, "
                       "new positions) or one operation judged on the way; distinct_nontrivial counts different (board, hands, side) values priced")
        cov["interleaving_measure"] = "distinct (board, hands, side) values priced"
        cov["dearest_price_in_percent_of_a_new_object"] = st.get("peak_price_percent", 0)
        assume = ASSUME_SESSION[1:] + ["steps are basic blocks of instrumented code and bytes copied; work inside the prebuilt standard library's "
                                       "own functions and the kernel is not counted"]
    evidence(prop, tier, seed, "exploration", cov, t0, 1 if finding else 0, assume)
    return report(prop, finding, st)


def session_coverage(st, distinct, wall, workers):
    runs = st.get("runs", 0)
    return {
        "evaluations": st.get("judged", 0),
        "distinct_nontrivial": distinct,
        "rule": RULE_SESSION,
        "samples": [s[:1500] for s in st.get("samples", [])[:6]],
        "simulated_runs": runs,
        "fault_free_runs": runs - st.get("faulty_runs", 0) - st.get("churn_runs", 0),
        "seeds_per_hour": int(runs * 3600 / max(wall, 0.1)),
        "simulated_time_s": round(st.get("sim_us", 0) / 1e6, 1),
        "simulated_events": st.get("events", 0),
        "primitive_operations": st.get("ops", 0),
        "full_observations": st.get("observations", 0),
        "faults_injected": st.get("faults", {}),
        "start_positions": st.get("starts", {}),
        "situations_reached": st.get("probes", {}),
        "peak_bytes_held_by_library": st.get("peak_held", 0),
        "bytes_left_at_the_end": st.get("left_held", 0),
        "workers": ["%s seeds %d, %d+%d.." % (w.tag, w.first, w.first, CPUS) for w in workers],
        "interleaving_measure": "distinct (board, hands, side) values judged",
        "real_components": ["yasai (%s)" % ", ".join(sorted({w.tag for w in workers})), "shogi_core", "arrayvec", "once_cell", "rand"],
        "simulated_components": ["arbiter, engine replicas, network, clock, journal, crashes (sim/src/session.rs)"],
    }


def report(prop, finding, st):
    if finding:
        cls, detail, path = finding[:3]
        print("%s: %s: %s" % (prop, cls, detail))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    print("%s held: %d runs, %d cases judged" % (prop, st.get("runs", 0), st.get("judged", 0)), flush=True)
    return 0


# ---------------------------------------------------------------- C13: two builds in lockstep

def check_builds(prop, tier, seed):
    t0 = time.time()
    undecided = {}
    bins = build(BUILDS[prop], undecided)
    builds = list(bins)
    more = build(["native", "miri-s390x"], undecided) if prop == "C18" else {}
    for n, e in undecided.items():
        print("NOT-DECIDED: property=%s the library does not compile in build %s" % (prop, n))
        log(e)
    tb = time.time() - t0
    ms = 28000 if tier == "quick" else 600000
    pairs = max(1, CPUS // len(builds))
    digests = {}
    lock = threading.Lock()
    diff = []
    agreed = [0]

    def on_line(w, l):
        if l.startswith("DIGEST "):
            _, i, x = l.split()
            with lock:
                d = digests.setdefault(i, [])
                d.append(x)
                if x != d[0]:
                    diff.append((int(i), w))
                elif len(d) == len(builds):
                    agreed[0] += 1
                    del digests[i]

    workers, dist = [], []
    d = os.path.join(OUT, "tmp")
    os.makedirs(d, exist_ok=True)
    for i in range(pairs):
        for fl in builds:
            f = os.path.join(d, "distinct-%d-%d%s" % (os.getpid(), i, fl))
            w = Worker(worker_cmd(bins, fl, prop, seed, i, pairs, ["--ms", str(ms), "--digest", "--distinct", f]), fl, on_line)
            w.first, w.dist = i, f
            workers.append(w)
    while any(w.p.poll() is None for w in workers):
        if diff or any(w.p.poll() not in (None, 0) for w in workers):
            break
        for w in workers:
            if w.p.poll() is None and time.time() - w.last > HANG_S:
                w.hung = True
                w.kill()
        time.sleep(0.05)
    broken = [w for w in workers if w.p.poll() not in (None, 0) or w.hung]
    if diff or broken:
        for w in workers:
            w.kill()
    for w in workers:
        w.join()
    finding = None
    cand = sorted(set([i for i, _ in diff] + [w.run for w in broken if w.run is not None]))
    for i in cand:
        args = worker_cmd(bins, "core", prop, seed, i, 1, ["--count", "1", "--log", "--script"])[1:]
        o = compare_builds(bins, args, 120)
        if not o:
            continue
        out = max((call([os.path.join(bins[x], "ysim")] + args, 120)[1] for x in builds), key=lambda t: t.count("\n"))
        ls = out.splitlines()
        ops = []
        if "BEGIN-SCRIPT" in ls:
            ops = ls[ls.index("BEGIN-SCRIPT") + 1:ls.index("END-SCRIPT")]
        if not ops:
            tr = os.path.join(d, "trace-%d" % os.getpid())
            for fl in builds:
                call(worker_cmd(bins, fl, prop, seed, i, 1, ["--count", "1", "--trace", tr]), 120)
                t = open(tr).read().splitlines()
                if len(t) > len(ops):
                    ops = t
        notes = ["# " + l for l in ops if l.startswith("note ")]
        ops = [l for l in ops if not l.startswith("note ")]

        def shows(x):
            return exec_session(bins, None, prop, x, 30) is not None

        head = {"class": o[0], "seed": seed, "run": i, "mode": "ops", "how": "check.py replay <this file>"}
        if shows(ops):
            ops = ddmin(ops, shows, time.time() + 90)
            o = exec_session(bins, None, prop, ops, 30) or o
        head["detail"] = o[1]
        finding = (o[0], o[1], write_replay(prop, head, notes[:200] + ops))
        break
    if (diff or broken) and not finding:
        if diff:
            # differs only after other runs in the same process
            i, w = min(diff, key=lambda x: x[0])
            path = write_replay(prop, {"class": "builds-differ", "mode": "pair", "detail": "digests of run %d differ" % i},
                                ["pair --seed %d --from %d --step %d --count %d" % (seed, w.first, pairs, (i - w.first) // pairs + 1)])
            finding = ("builds-differ", "digests of run %d differ" % i, path)
        elif not all(w.hung for w in broken):
            raise HarnessError("a worker failed: %s" % [w.err for w in broken])
    mst, unsupported = {}, {}
    if not finding and "miri-s390x" in more:
        ysim, native = os.path.join(bins["core"], "ysim"), os.path.join(more["native"], "ymiri")
        found, mst, unsupported = interpret([(i, "miri-s390x", "ALONE") for i in range(CPUS)],
                                            lambda frm, n: short_scripts(ysim, seed, frm, CPUS, n, True),
                                            verdict_answers, native, seed, 75 if tier == "quick" else 400)
        if found:
            finding = interpreted_finding(prop, found, verdict_answers, native, seed, tier)
        for n, e in unsupported.items():
            print("NOT-DECIDED: property=%s build %s: %s" % (prop, n, e))
    st = merge([w.stats for w in workers if w.stats])
    rc, o, e = call([os.path.join(bins["core"], "ysim"), "union"] + [w.dist for w in workers], 120)
    distinct = int(o.strip() or 0)
    for w in workers:
        if os.path.exists(w.dist):
            os.unlink(w.dist)
    cov = session_coverage(st, distinct, time.time() - t0 - tb, workers)
    cov["runs_compared_between_builds"] = agreed[0]
    cov["builds_compared"] = builds
    cov["builds_not_decided"] = sorted(undecided) + sorted(unsupported)
    cov.update(mst)
    if "miri-s390x" in more:
        cov["builds_compared"] = builds + ["miri-s390x"]
    assume = ASSUME_SESSION[1:]
    if prop == "C18":
        assume = assume + ASSUME_FOREIGN
        cov["real_components"] += ["big-endian code interpreted by Miri (s390x)", "wasm32 code executed by V8 (node)", "standard library for wasm32 built from the toolchain's sources"]
        cov["simulated_components"] += ["entropy on wasm32 (none)", "NEON intrinsics (neon/neon.rs), the aarch64 instruction set"]
    cov["rule"] = ("a case is one operation or full observation whose answers enter the digest that is compared between the "
                   "builds; distinct_nontrivial counts different (board, hands, side) values observed after at least one move")
    if not finding and agreed[0] == 0 and len(builds) > 1:
        raise HarnessError("nothing was compared")
    evidence(prop, tier, seed, "exploration", cov, t0, 1 if finding else 0, assume)
    return report(prop, finding, st)


# ---------------------------------------------------------------- C19: undefined behaviour

ASAN = "exitcode=77:detect_leaks=0:handle_sigill=1:allocator_may_return_null=1:detect_stack_use_after_return=1"
ASSUME_UB = [
    "AddressSanitizer and Miri report only what is undefined behaviour; what violates the experimental aliasing rules counts only if it "
    "violates both proposals (stacked and tree borrows)",
    "undefined behaviour that neither detects (invalid values in machine code, some aliasing in long histories) is decided only in the short "
    "histories that are interpreted",
    "a search over seeds samples histories; it does not enumerate them",
]
RULE_UB = (
    "a case is one script of arbitrary calls executed in full, or one full observation or call sequence of a session, without undefined "
    "behaviour; distinct_nontrivial counts different (board, hands, side) values asked in the machine-code runs after at least one move")


def ub_outcome(rc, out, err):
    """Undefined behaviour in a machine-code run: (class, detail) or None. Panics, aborts and hangs are none."""
    import re
    m = re.search(r"unsafe precondition\(s\) violated[^\n]*", err)
    if m:
        return "undefined-behaviour", m.group(0)
    m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", err)
    if rc == 77 and m and not re.match(r"stack-overflow|allocator|allocation|out-of-memory|requested", m.group(1)):
        what = re.sub(r"0x[0-9a-f]{6,}|==\d+==", "..", m.group(1))
        at = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err)
        at = [re.sub(r"\s*\(.*", "", x) for x in at if "yasai" in x][:2]
        return "undefined-behaviour", "%s%s" % (what, " in " + ", ".join(at) if at else "")
    return None


def asan_env():
    return dict(os.environ, ASAN_OPTIONS=ASAN)


def asan_call(bins, fl, args, timeout):
    p = subprocess.Popen([os.path.join(bins[fl], "ysim")] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", env=asan_env())
    try:
        o, e = p.communicate(timeout=timeout)
        return ub_outcome(p.returncode, o, e)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None


def asan_exec(bins, fl, lines, timeout=60):
    d = os.path.join(OUT, "tmp")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "u%d-%d.txt" % (os.getpid(), threading.get_ident()))
    with open(f, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    try:
        return asan_call(bins, fl, ["exec", f, "--prop", "C19"], timeout)
    finally:
        os.unlink(f)


def asan_phase(bins, prop, tier, seed, ms):
    """Sessions and scripts of arbitrary calls in machine code; a worker that ends for another reason goes on behind that run."""
    d = os.path.join(OUT, "tmp")
    os.makedirs(d, exist_ok=True)
    end = time.time() + ms / 1000
    stats, dist, workers, found = [], [], [], []
    given_up = [0]
    lock = threading.Lock()

    def lane(i):
        fl = "asan-core" if i % 2 == 0 else "asan-simd"
        frm = i
        while time.time() < end - 0.5 and not found:
            f = os.path.join(d, "distinct-%d-%d-%d" % (os.getpid(), i, frm))
            w = Worker(worker_cmd(bins, fl, prop, seed, frm, CPUS, ["--ms", str(int((end - time.time()) * 1000)), "--distinct", f]), fl,
                       env=asan_env())
            w.first, w.dist = frm, f
            with lock:
                workers.append(w)
                dist.append(f)
            while w.p.poll() is None:
                if time.time() - w.last > HANG_S or found:
                    w.kill()
                time.sleep(0.05)
            w.join()
            if w.stats:
                stats.append(w.stats)
                return
            if found:
                return
            o = ub_outcome(w.p.returncode, "", w.err)
            if o:
                found.append((w, fl, o))
                return
            if w.run is None:
                raise HarnessError("worker did not start: %s" % w.err)
            given_up[0] += 1
            frm = w.run + CPUS

    ts = [threading.Thread(target=lane, args=(i,)) for i in range(CPUS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    rc, o, e = call([os.path.join(bins["asan-core"], "ysim"), "union"] + dist, 120)
    distinct = int(o.strip() or 0)
    for f in dist:
        if os.path.exists(f):
            os.unlink(f)
    finding = None
    if found:
        w, fl, (cls, detail) = found[0]
        tr = os.path.join(d, "trace-%d" % os.getpid())
        args = worker_cmd(bins, fl, prop, seed, w.run, 1, ["--count", "1", "--trace", tr])[1:]
        head = {"class": cls, "flavour": fl, "seed": seed, "run": w.run, "how": "check.py replay <this file>"}
        o = asan_call(bins, fl, args, 120)
        ops = []
        if o:
            detail = o[1]
            ops = [l for l in open(tr).read().splitlines() if not l.startswith("note ")]
        if ops and asan_exec(bins, fl, ops):
            shows = lambda x: asan_exec(bins, fl, x) is not None
            ops = ddmin(ops, shows, time.time() + (60 if tier == "quick" else 300))
            ops = shrink_churn(ops, shows)
            detail = (asan_exec(bins, fl, ops) or (0, detail))[1]
            head.update({"mode": "ops", "detail": detail})
            finding = (cls, detail, write_replay(prop, head, ops))
        else:
            args = worker_cmd(bins, fl, prop, seed, w.first, CPUS, ["--count", str((w.run - w.first) // CPUS + 1)])
            head.update({"mode": "runs", "detail": detail})
            finding = (cls, detail, write_replay(prop, head, ["runs " + " ".join(args[1:])]))
    return finding, merge(stats), distinct, workers, given_up[0]


class Miri:
    """One process of the interpreter."""

    def __init__(self, flavour, how, seed, scripts, tree=False):
        crate, args, flags, _, _ = FLAVOURS[flavour]
        env = dict(os.environ)
        for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
            env.pop(k, None)
        env.update(miri_env())
        env.update({"RUSTFLAGS": flags, "CARGO_TARGET_DIR": os.path.join(ROOT, "target", flavour), "CARGO_NET_OFFLINE": "true",
                    "MIRIFLAGS": "-Zmiri-ignore-leaks -Zmiri-seed=%d %s%s" % (
                        seed % 2**32, "-Zmiri-preemption-rate=0.05" if how != "ALONE" else "", " -Zmiri-tree-borrows" if tree else "")})
        self.flavour, self.how, self.seed, self.scripts, self.tree = flavour, how, seed, scripts, tree
        self.digests, self.at, self.logs, self.shared = {}, None, [], False
        self.p = subprocess.Popen(["cargo", args[0], "miri", "run", "-q"] + args[3:] + ["--", how] + scripts, cwd=os.path.join(ROOT, crate), env=env,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        self.err = ""
        self.cut = False
        self.ts = [threading.Thread(target=self._out), threading.Thread(target=self._err)]
        [t.start() for t in self.ts]

    def _out(self):
        for l in self.p.stdout:
            w = l.split()
            if l.startswith("DIGEST "):
                self.digests[int(w[1])] = w[2]
            elif l.startswith("OP "):
                self.at = (int(w[1]), int(w[2]))
            elif l.startswith("LOG "):
                self.logs.append(l.strip())
            elif l.startswith("SHARED"):
                self.shared = True

    def _err(self):
        self.err = self.p.stderr.read()[:20000]

    def wait(self, deadline, stop=lambda: False):
        while self.p.poll() is None:
            if time.time() > deadline or stop():
                self.cut = True
                try:
                    os.killpg(self.p.pid, signal.SIGKILL)
                except OSError:
                    pass
                break
            time.sleep(0.1)
        self.p.wait()
        [t.join() for t in self.ts]
        return self

    def outcome(self):
        """('ub', detail), ('contested', detail), ('unsupported', detail), or None."""
        import re
        m = re.search(r"error: Undefined Behavior: ([^\n]*)", self.err)
        if m:
            what = re.sub(r"<\d+>|\balloc\d+\b|0x[0-9a-f]+", "..", m.group(1))
            at = re.findall(r"(?:-->|at) (/repo/[^\s:]*:\d+)", self.err)
            if "Stacked Borrows rules" in self.err and not self.tree:
                return "contested", what
            return "ub", what + (" at " + at[0] if at else "")
        m = re.search(r"error: unsupported operation: ([^\n]*)", self.err)
        if m:
            return "unsupported", m.group(1)
        return None


def short_scripts(ysim, seed, frm, step, count, tame=False):
    rc, o, e = call([ysim, "short", "--seed", str(seed), "--from", str(frm), "--step", str(step), "--count", str(count)] + (["--tame"] if tame else []), 120)
    if rc != 0:
        raise HarnessError("scripts: %s" % e)
    return o.splitlines()


def verdict_ub(m, native):
    o = m.outcome()
    return ("undefined-behaviour", o[1]) if o and o[0] == "ub" else None


def native_answers(native, scripts):
    """Digests and log of the scripts executed alone on this machine; scripts that end the process are left out."""
    rc, o, e = call([native, "ALONE"] + scripts, 120)
    if rc != 0:
        return None
    ls = o.splitlines()
    return {int(l.split()[1]): l.split()[2] for l in ls if l.startswith("DIGEST ")}, [l for l in ls if l.startswith("LOG ")]


def verdict_answers(m, native):
    """The interpreter must answer what the machine answers; in threads, without a data race."""
    o = m.outcome()
    if m.how != "ALONE" and o and o[0] == "ub" and "ata race" in o[1]:
        return "data-race", o[1]
    if m.how != "ALONE" and "the evaluated program deadlocked" in m.err:
        return "deadlock", "the threads wait for each other for ever in " + m.flavour
    have = native_answers(native, m.scripts)
    if have is None:
        return None
    for k, d in sorted(m.digests.items()):
        if have[0].get(k) != d:
            diff = [(x, y) for x, y in zip(m.logs, have[1]) if x != y] if m.how == "ALONE" else []
            m.at = tuple(int(x) for x in diff[0][0].split()[1:3]) if diff else None
            return "answers-differ", "%s: other answers than alone on this machine for: %s%s" % (
                m.flavour + (" in threads" if m.how != "ALONE" else ""), m.scripts[k][:300], ", at operation %d" % m.at[1] if m.at else "")
    if m.shared:
        return "answers-differ", "a shared position changes its answers while it is only asked"
    return None


def interpret(plan, make, verdict, native, seed, budget):
    """Short scripts in the interpreter, in one thread or several: lanes of (number, flavour, how)."""
    st = {"interpreted_scripts": 0, "interpreted_scripts_in_threads": 0, "interpreter_processes": 0, "contested": 0}
    unsupported, found = {}, []
    lock = threading.Lock()
    end = time.time() + budget

    def lane(i, fl, how):
        k, tree = 0, False
        while not found and (time.time() < end - 40 or k == 0):
            # threads: many short processes (what matters is the first use); alone: one long one
            n = 400 if how == "ALONE" else 3 * int(how[5:])
            m = Miri(fl, how, seed * 1000003 + i + 8 * k, make(i + 8 * 1000 * k, n), tree).wait(end, lambda: bool(found))
            with lock:
                st["interpreted_scripts"] += len(m.digests)
                st["interpreted_scripts_in_threads"] += len(m.digests) if how != "ALONE" else 0
                st["interpreter_processes"] += 1
            v = verdict(m, native)
            if v:
                found.append((m, v))
                return
            o = m.outcome()
            if o and o[0] == "contested":
                st["contested"] += 1
                log("contested (stacked borrows only?):", o[1])
                if tree:
                    return
                tree = True
                continue
            if o and o[0] == "unsupported":
                unsupported[fl] = o[1]
                return
            if m.cut:
                return
            k += 1

    ts = [threading.Thread(target=lane, args=x) for x in plan]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return found[0] if found else None, st, unsupported


def interpreted(flavour, how, seed, scripts, tree, verdict, native, secs=150):
    return verdict(Miri(flavour, how, seed, scripts, tree).wait(time.time() + secs), native)


def interpreted_finding(prop, found, verdict, native, seed, tier):
    m, (cls, detail) = found
    scripts = m.scripts

    def go(cands):
        """The first of the candidates that still shows it; candidates run in parallel."""
        res = [None] * len(cands)

        def one(i):
            res[i] = interpreted(m.flavour, m.how, m.seed, cands[i], m.tree, verdict, native)

        for b in range(0, len(cands), CPUS):
            ts = [threading.Thread(target=one, args=(i,)) for i in range(b, min(b + CPUS, len(cands)))]
            [t.start() for t in ts]
            [t.join() for t in ts]
        for c, r in zip(cands, res):
            if r and r[0] == cls:
                return c, r[1]
        return None

    if m.how == "ALONE" and m.at:
        k, i = m.at
        ops = scripts[k].split(";")[:i + 1]
        last = ops[-1]
        cands = []
        if last.startswith("abuse "):
            w = last.split()
            cands += [[";".join(ops[:-1] + [" ".join(w[:3] + [str(n)])])] for n in range(1, int(w[3]))][:6]
        cands += [[";".join(ops)], scripts[:k] + [";".join(ops)]]
        r = go(cands)
        if r:
            scripts, detail = r
            deadline = time.time() + (60 if tier == "quick" else 300)
            while len(scripts) == 1 and time.time() < deadline:
                ops = scripts[0].split(";")
                r = go([[";".join(ops[:j] + ops[j + 1:])] for j in range(1, len(ops) - 1)][-CPUS:])
                if not r:
                    break
                scripts, detail = r
    elif m.how != "ALONE":
        n = int(m.how[5:])
        short = [";".join(s.split(";")[:1] + ["obs " + s.split()[1]]) for s in scripts]
        r = go([short[:n], [";".join(s.split(";")[:2]) for s in scripts[:n]], scripts[:n], scripts[:2 * n], short])
        if r:
            scripts, detail = r
    head = {"class": cls, "flavour": m.flavour, "mode": "miri", "threads": m.how, "seed": m.seed, "tree": int(m.tree),
            "detail": detail, "how": "check.py replay <this file>"}
    return cls, detail, write_replay(prop, head, scripts)


def check_ub(prop, tier, seed):
    t0 = time.time()
    undecided = {}
    bins = build(["asan-core", "asan-simd", "miri-core", "miri-simd"], undecided)
    tb = time.time() - t0
    quick = tier == "quick"
    finding, st, distinct, workers, given_up = asan_phase(bins, prop, tier, seed, 28000 if quick else 400000)
    wall = time.time() - t0 - tb
    unsupported, mst = {}, {}
    if not finding:
        plan = [(i, "miri-core" if i % 2 == 0 else "miri-simd", ["ALONE", "ALONE", "ALONE", "ALONE", "LATE-2", "COLD-3", "WARM-3", "LATE-3"][i % 8])
                for i in range(CPUS)]
        ysim = os.path.join(bins["asan-core"], "ysim")
        found, mst, unsupported = interpret([x for x in plan if x[1] in bins], lambda frm, n: short_scripts(ysim, seed, frm, 8, n),
                                            verdict_ub, None, seed, 110 if quick else 800)
        if found:
            finding = interpreted_finding(prop, found, verdict_ub, None, seed, tier)
    unsupported.update({k: v.strip().splitlines()[-1] for k, v in undecided.items()})
    for n, e in unsupported.items():
        print("NOT-DECIDED: property=%s build %s: %s" % (prop, n, e))
    cov = session_coverage(st, distinct, wall, workers)
    cov["rule"] = RULE_UB
    cov["evaluations"] = st.get("judged", 0) + mst.get("interpreted_scripts", 0)
    cov.update(mst)
    cov["runs_that_ended_without_answer"] = given_up
    cov["not_decided"] = sorted(unsupported)
    cov["real_components"] = ["yasai, shogi_core, arrayvec, once_cell, rand (machine code with AddressSanitizer and run-time checks of unsafe "
                              "preconditions: portable, AVX2; the same interpreted by Miri)"]
    cov["simulated_components"] = cov["simulated_components"] + ["the abstract machine, its threads and its weak memory (Miri, seeded)"]
    if not finding and st.get("runs", 0) == 0 and mst.get("interpreted_scripts", 0) == 0:
        raise HarnessError("nothing ran")
    evidence(prop, tier, seed, "exploration", cov, t0, 1 if finding else 0, ASSUME_SESSION[1:2] + ASSUME_UB)
    st["judged"] = cov["evaluations"]
    return report(prop, finding, st)


# ---------------------------------------------------------------- C09-C12: threads

ASSUME_THREADS = [
    "the ThreadSanitizer pass of the compiler instruments every shared access of the library, std and the dependencies",
    "interleavings are sequentially consistent; weaker memory orders show as data races, and as values only in the short scripts that "
    "Miri executes (C09, C10)",
    "shogi_core's positions and moves are built outside the scheduled calls",
    "a search over seeds samples schedules; it does not enumerate them",
]
RULE_THREADS = (
    "a case is one answer of a live position compared with what the same calls answer alone in a fresh process (C12: also "
    "with a fresh process given the snapshot); distinct_nontrivial counts different executed schedules (hash of the "
    "sequence of switches with their positions, and the number of steps), union over all workers")


def symbols(binary, text):
    """Names the functions of a race report."""
    import re
    try:
        o = subprocess.run(["nm", "-C", "--defined-only", binary], stdout=subprocess.PIPE, text=True, timeout=60).stdout
    except (OSError, subprocess.TimeoutExpired):
        return text
    t = []
    for l in o.splitlines():
        w = l.split(" ", 2)
        if len(w) == 3 and w[1] in "tTwW":
            t.append((int(w[0], 16), w[2]))
    t.sort()

    def name(m):
        a = int(m.group(2), 16)
        best = [n for x, n in t if x <= a][-1:]
        return "%s %s" % (m.group(1), best[0] if best else m.group(2))
    return re.sub(r"(pc) (0x[0-9a-f]+)", name, text)


def thr(bins, flavour):
    return os.path.join(bins[flavour], "ythr")


def exec_threads(bins, flavour, lines, timeout=300):
    d = os.path.join(OUT, "tmp")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "t%d-%d.txt" % (os.getpid(), threading.get_ident()))
    with open(f, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    try:
        rc, out, err = call([thr(bins, flavour), "exec", f], timeout)
        if rc not in (0, 1):
            raise HarnessError("thread simulator: status %s: %s %s" % (rc, out[-500:], err[-500:]))
        return outcome(rc, out)
    finally:
        os.unlink(f)


def threads_finding(bins, prop, seed, tier, w):
    cls, detail = w.viol
    lines = list(w.script)
    d = os.path.join(OUT, "tmp")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "m%d.txt" % os.getpid())
    with open(f, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    secs = 60 if tier == "quick" else 200
    rc, out, err = call([thr(bins, w.tag), "min", f, "--seconds", str(secs)], secs * 4 + 120)
    os.unlink(f)
    head = {"class": cls, "flavour": w.tag, "seed": seed, "run": w.run, "mode": "threads", "how": "check.py replay <this file>"}
    ls = out.splitlines()
    if rc == 1 and "BEGIN-SCRIPT" in ls:
        small = ls[ls.index("BEGIN-SCRIPT") + 1:ls.index("END-SCRIPT")]
        o = exec_threads(bins, w.tag, small)
        if o and o[0] == cls:
            lines, detail = small, o[1]
    detail = symbols(thr(bins, w.tag), detail)
    o = exec_threads(bins, w.tag, lines)
    if not (o and o[0] == cls):
        head["note"] = "shown once, not again: the code under test is not deterministic"
    head["detail"] = detail
    return cls, detail, write_replay(prop, head, lines)


def digests_of(bins, fl, seed, frm, step, count):
    """Plays runs in a fresh process: {run: digest of everything seen in it}."""
    rc, out, err = call(worker_cmd(bins, fl, "C13", seed, frm, step, ["--count", str(count), "--digest"]), 300)
    return {int(w[1]): w[2] for w in (l.split() for l in out.splitlines()) if w and w[0] == "DIGEST"}


def restarts_differ(bins, fl, seed, run, step, before):
    """Is a run the same in a fresh process as in one that played runs before it? What differs, or None."""
    a = digests_of(bins, fl, seed, run - before * step, step, before + 1).get(run)
    b = digests_of(bins, fl, seed, run, step, 1).get(run)
    if a is None or b is None or a == b:
        return None
    return "run %d has digest %s after %d runs in the same process, and %s in a fresh process" % (run, a, before, b)


RESTART_STEP, RESTART_BLOCK = 4, 8


def restarts(bins, prop, seed, ms):
    """Whole sessions in processes with a long past and again in fresh ones: finding or None, statistics."""
    fls = ["core", "simd", "core", "simd"]
    first, second, diff = {}, {}, []
    lock = threading.Lock()
    agreed, fresh = [0], [0]
    stop = threading.Event()

    def put(mine, other, i, x, before):
        with lock:
            if i not in other:
                mine[i] = x, before
            else:
                y, b = other.pop(i)
                if x == y:
                    agreed[0] += 1
                else:
                    diff.append((i, max(b, before)))
                    stop.set()

    def on_line(w, l):
        if l.startswith("DIGEST "):
            _, i, x = l.split()
            put(first, second, int(i), x, (int(i) - w.first) // RESTART_STEP)

    def again(i):
        frm = i
        while not stop.is_set() and time.time() < end:
            ds = digests_of(bins, fls[i], seed, frm, RESTART_STEP, RESTART_BLOCK)
            fresh[0] += 1
            for k, v in ds.items():
                put(second, first, k, v, 0)
            frm += RESTART_STEP * RESTART_BLOCK
    end = time.time() + ms * 0.001
    workers = []
    for i in range(RESTART_STEP):
        w = Worker(worker_cmd(bins, fls[i], "C13", seed, i, RESTART_STEP, ["--ms", str(ms), "--digest"]), fls[i], on_line)
        w.first = i
        workers.append(w)
    ts = [threading.Thread(target=again, args=(i,)) for i in range(RESTART_STEP)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for w in workers:
        if stop.is_set():
            w.kill()
        else:
            try:
                w.p.wait(60)
            except subprocess.TimeoutExpired:
                w.kill()
        w.join()
    st = {"runs_played_again_in_a_fresh_process": agreed[0], "fresh_processes": fresh[0]}
    for i, before in sorted(diff)[:3]:
        fl = fls[i % RESTART_STEP]
        k = 0
        while True:
            for _ in range(4):
                o = restarts_differ(bins, fl, seed, i, RESTART_STEP, k)
                if o:
                    return ("answer", o, write_replay(
                        prop, {"class": "answer", "mode": "restarts", "flavour": fl, "seed": seed, "detail": o, "how": "check.py replay <this file>"},
                        ["restart %d %d %d" % (i, RESTART_STEP, k)])), st
                if k > 64:
                    break
            if k >= before:
                break
            k = min(max(1, k * 4), before)
        o = "run %d: processes disagree" % i
        return ("answer", o, write_replay(
            prop, {"class": "answer", "mode": "restarts", "flavour": fl, "seed": seed, "detail": o, "note": "shown once, not again: the code under "
                   "test is not deterministic"}, ["restart %d %d %d" % (i, RESTART_STEP, before)])), st
    return None, st


def check_threads(prop, tier, seed):
    t0 = time.time()
    bins = build(["thr-core", "thr-simd"] + (["core", "simd"] if prop in ("C10", "C11", "C12") else []))
    tb = time.time() - t0
    ms = 28000 if tier == "quick" else 600000
    turns = None
    if prop in ("C10", "C11"):
        # threads one at a time: many more of them, coming and going (C11: failing), over whole games
        _, finding, turns, n = sessions(bins, ["core", "simd"], prop, seed, tier, ms // 2)
        if finding:
            evidence(prop, tier, seed, "exploration", session_coverage(turns, n, time.time() - t0 - tb, []), t0, 1, ASSUME_THREADS)
            return report(prop, finding, turns)
        if turns.get("probes", {}).get("threads_come_and_go", 0) == 0:
            raise HarnessError("no threads came and went")
    past = None
    if prop == "C12":
        finding, past = restarts(bins, prop, seed, ms // 2)
        if finding:
            evidence(prop, tier, seed, "exploration", {"evaluations": past["runs_played_again_in_a_fresh_process"], **past}, t0, 1, ASSUME_THREADS)
            return report(prop, finding, {"runs": 0, "judged": 0})
        if past["runs_played_again_in_a_fresh_process"] == 0:
            raise HarnessError("nothing was played again")
    workers, dist = [], []
    d = os.path.join(OUT, "tmp")
    os.makedirs(d, exist_ok=True)
    for i in range(CPUS):
        fl = "thr-core" if i % 2 == 0 else "thr-simd"
        f = os.path.join(d, "distinct-%d-%d" % (os.getpid(), i))
        dist.append(f)
        w = Worker([thr(bins, fl), "run", "--prop", prop, "--seed", str(seed), "--from", str(i), "--step", str(CPUS),
                    "--ms", str(ms), "--distinct", f], fl)
        w.first = i
        workers.append(w)
    supervise(workers, 170)
    finding = None
    for w in workers:
        if w.viol:
            finding = threads_finding(bins, prop, seed, tier, w)
            break
    mst, unsupported = {}, {}
    if prop in ("C09", "C10") and not finding:
        # the same with weak memory
        undecided = {}
        more = build(["native", "miri-core", "miri-simd"], undecided)
        how = {"C09": ["LATE-2", "COLD-3", "LATE-3", "COLD-6"], "C10": ["WARM-2", "LATE-2", "WARM-4", "LATE-3"]}[prop]
        native = os.path.join(more["native"], "ymiri")
        found, mst, unsupported = interpret(
            [x for x in [(i, "miri-core" if i % 2 == 0 else "miri-simd", how[i // 2 % 4]) for i in range(CPUS)] if x[1] in more],
            lambda frm, n: run_quietly([native, "SHORT", str(seed), str(frm), "8", str(n)]).splitlines(),
            verdict_answers, native, seed, 75 if tier == "quick" else 400)
        if found:
            finding = interpreted_finding(prop, found, verdict_answers, native, seed, tier)
        unsupported.update({k: v.strip().splitlines()[-1] for k, v in undecided.items()})
        for n, e in unsupported.items():
            print("NOT-DECIDED: property=%s build %s: %s" % (prop, n, e))
    if not finding and any(w.stats is None for w in workers):
        raise HarnessError("a worker ended without statistics: %s" % [(w.p.returncode, w.err) for w in workers if w.stats is None])
    st = merge([w.stats for w in workers if w.stats])
    rc, o, e = call([thr(bins, "thr-core"), "union"] + dist, 120)
    distinct = int(o.strip() or 0)
    for f in dist:
        if os.path.exists(f):
            os.unlink(f)
    wall = time.time() - t0 - tb
    runs = st.get("runs", 0)
    seams = st.get("seams", {})
    inj = dict(st.get("faults", {}))
    inj.update({"stalls": seams.get("stalls", 0), "threads stopped for good": seams.get("stops", 0), "process crashes": seams.get("crashes", 0),
                "failed allocations": seams.get("failed_allocations", 0), "spurious wake-ups": seams.get("spurious_wakeups", 0),
                "clock leaps": seams.get("clock_leaps", 0),
                "readings of the host (variables, processors)": seams.get("host_reads", 0)})
    cov = {
        "evaluations": st.get("judged", 0), "distinct_nontrivial": distinct, "rule": RULE_THREADS,
        "samples": [x[:1500] for x in st.get("samples", [])[:6]],
        "simulated_runs": runs, "simulated_processes": st.get("processes", 0),
        "fault_free_runs": runs - st.get("faulty_runs", 0), "seeds_per_hour": int(runs * 3600 / max(wall, 0.1)),
        "simulated_time_s": round(seams.get("simulated_us", 0) * 1e-6, 3), "scheduling_points": seams.get("steps", 0),
        "faults_injected": inj, "seams": seams, "schedulers": st.get("modes", {}), "threads_per_process": st.get("threads", {}),
        "processes_crashed_on_purpose": st.get("crashed", 0), "processes_ended_by_a_failed_allocation": st.get("aborted_by_allocation_failure", 0),
        "interleaving_measure": "distinct executed schedules",
        "workers": ["%s seeds %d, %d+%d.." % (w.tag, w.first, w.first, CPUS) for w in workers],
        "real_components": ["yasai (portable and AVX2 code)", "once_cell, rand, arrayvec, std (compiled with instrumentation)", "real threads, one running at a time"],
        "simulated_components": ["scheduler, futexes, sleeping, clocks, entropy, process ids, allocation failures, crashes (thr/src/rt.c)"],
    }
    cov.update(mst)
    if turns:
        cov["evaluations"] += turns.get("judged", 0)
        cov["threads_one_at_a_time"] = {
            "rule": "sessions of the session simulator played by changing helper threads%s, and once more by one thread alone: everything "
                    "seen is the same" % (" with failing calls in between" if prop == "C11" else ""),
            "bursts_of_failing_calls": turns.get("probes", {}).get("bursts_of_failing_calls", 0),
            "simulated_runs": turns.get("runs", 0), "primitive_operations": turns.get("ops", 0), "full_observations": turns.get("observations", 0),
            "changes_of_helpers": turns.get("probes", {}).get("spread_over_threads", 0),
            "throngs_of_threads_that_come_and_go": turns.get("probes", {}).get("threads_come_and_go", 0),
            "faults_injected": turns.get("faults", {})}
    if past:
        cov["evaluations"] += past["runs_played_again_in_a_fresh_process"]
        cov["restarts"] = dict(past, rule="whole sessions (all answers, orders of move lists and keys) in a process that has played many "
                                          "sessions, and again in a fresh process: the digests are equal")
    if mst:
        cov["not_decided"] = sorted(unsupported)
        cov["simulated_components"].append("threads and weak memory of the Miri interpreter (short scripts)")
    evidence(prop, tier, seed, "exploration", cov, t0, 1 if finding else 0, ASSUME_THREADS)
    return report(prop, finding, st)


# ---------------------------------------------------------------- C15: the perft example

ASSUME_PERFT = [
    "the example reaches the outside only through libc (write, clock_gettime, malloc are replaced; the rest is real)",
    "the reference model of shogi counts correctly; it is cross-checked against published perft numbers",
    "the clock is monotonic, as the example asks for a monotonic one",
    "a search over seeds samples plans of faults; it does not enumerate them",
]
KNOWN_CLOCK = "attempt to divide by zero"


COUNTS = os.path.join(ROOT, "perft", "counts.txt")


def perft_recorded():
    """Counts of the reference model computed beforehand (ysim perft 6 and 7): {depth: (moves, total)}."""
    ref = {}
    for l in open(COUNTS):
        if not l.startswith("#"):
            d, m, n = l.split()
            ref.setdefault(int(d), {})[m] = int(n)
    return {d: (mv, mv.pop("total")) for d, mv in ref.items()}


def perft_reference(bins, depths):
    ref = perft_recorded()
    for d in depths:
        if d in ref:
            continue
        rc, o, e = call([os.path.join(bins["simd"], "ysim"), "perft", str(d)], 600)
        if rc != 0:
            raise HarnessError("reference counts: %s %s" % (rc, e))
        mv = {}
        for l in o.splitlines():
            k, v = l.replace(":", "").split()
            mv[k] = int(v)
        ref[d] = (mv, mv.pop("total"))
    if ref[3][1] != 25470 or ref[6][1] != 547581517 or ref[7][1] != 15086269607:
        raise HarnessError("reference counts are wrong")
    return ref


def perft_worker(i, bins, ref, seed, deadline, deep, known, q, stop):
    import perftsim
    st = {"runs": 0, "judged": 0, "fault_free": 0, "faults": {}, "depths": {}, "ends": {}, "known": 0, "writes": 0, "clock_readings": 0, "peak_ns": 0,
          "simulated_ns": 0, "samples": []}
    seen, run = set(), i
    try:
        while time.time() < deadline and not stop.is_set():
            depth, ev = perftsim.plan_of(seed, run, deep)
            fl = perftsim.flavour_of(run)
            r = perftsim.execute(bins[fl], depth, ev)
            o = perftsim.judge(r, ref[depth], depth)
            if o and o[0] == "known":
                st["known"] += 1
                o = None if known else ("failed", "the clock does not advance: exit status 101, attempt to divide by zero")
            if o:
                q.put(("viol", i, run, fl, depth, ev, o))
                stop.set()
                return
            st["runs"] += 1
            st["judged"] += r.judged
            f = perftsim.faults(r.trace)
            st["fault_free"] += not f
            for k, v in f.items():
                st["faults"][k] = st["faults"].get(k, 0) + v
            st["depths"][str(depth)] = st["depths"].get(str(depth), 0) + 1
            st["ends"][str(r.rc)] = st["ends"].get(str(r.rc), 0) + 1
            for l in r.trace.splitlines():
                st["writes"] += l.startswith("w ")
                if l.startswith("c "):
                    st["clock_readings"] += 1
                    st["simulated_ns"] += int(l.split("+")[1])
            if len(st["samples"]) < 2 and f:
                st["samples"].append("run %d: perft %d with %s ended with %s; %s" % (run, depth, ",".join(ev), r.rc, f))
            seen.add(perftsim.schedule(r.trace))
            run += CPUS
        q.put(("done", i, st, b"".join(seen)))
    except Exception as e:
        q.put(("broken", i, repr(e)))
        stop.set()


def check_perft(prop, tier, seed):
    import multiprocessing, perftsim
    t0 = time.time()
    bins = build(["perft-core", "perft-simd", "simd"])
    deep = tier == "thorough"
    ref = perft_reference(bins, [1, 2, 3, 4, 5])
    tb = time.time() - t0
    known = [k for k in known_findings(prop) if KNOWN_CLOCK in k]
    mp = multiprocessing.get_context("fork")
    q, stop = mp.Queue(), mp.Event()
    deadline = time.time() + (600 if deep else 24)
    ps = [mp.Process(target=perft_worker, args=(i, bins, ref, seed, deadline, deep, bool(known), q, stop)) for i in range(CPUS)]
    [p.start() for p in ps]
    msgs = []
    for _ in ps:
        try:
            m = q.get(timeout=deadline - time.time() + (400 if not deep else 900))
        except Exception:
            raise HarnessError("a worker does not answer")
        msgs.append(m)
        if m[0] != "done":
            break
    for p in ps:
        if msgs[-1][0] != "done":
            p.terminate()
        p.join()
    broken = [m for m in msgs if m[0] == "broken"]
    viol = [m for m in msgs if m[0] == "viol"]
    finding = None
    if viol:
        _, i, run, fl, depth, ev, o = viol[0]
        cls = o[0]

        def shows(events, d=None):
            r = perftsim.execute(bins[fl], d or depth, events)
            x = perftsim.judge(r, ref[d or depth], d or depth)
            if x and x[0] == "known":
                x = None if known else ("failed", "")
            return x if x and x[0] == cls else None

        for d in range(1, depth):
            if shows(ev, d):
                depth = d
                break
        if shows([]):
            ev = []
        elif shows(ev):
            ev = ddmin(ev, lambda x: shows(x) is not None, time.time() + 60)
        o = shows(ev) or o
        path = write_replay(prop, {"class": cls, "flavour": fl, "seed": seed, "run": run, "detail": o[1], "how": "check.py replay <this file>"},
                            ["depth %d" % depth] + ["event " + e for e in ev])
        finding = (cls, o[1], path)
    elif broken:
        raise HarnessError("a worker failed: %s" % broken)
    done = [m for m in msgs if m[0] == "done"]
    st = merge([m[2] for m in done])
    digests = b"".join(m[3] for m in done)
    distinct = len(set(digests[k:k + 8] for k in range(0, len(digests), 8)))
    # the recorded finding, asked for directly
    if known and not finding:
        for fl in ("perft-core", "perft-simd"):
            r = perftsim.execute(bins[fl], 2, ["c2:0"])
            x = perftsim.judge(r, ref[2], 2)
            if x and x[0] == "known":
                print("KNOWN-FINDING: property=%s %s" % (prop, known[0]))
                break
    wall = time.time() - t0 - tb
    runs = st.get("runs", 0)
    cov = {
        "evaluations": st.get("judged", 0), "distinct_nontrivial": distinct,
        "rule": "a case is one printed root move or total compared with the reference count; distinct_nontrivial counts different "
                "sequences of write outcomes, clock readings and failed allocations that were executed",
        "samples": st.get("samples", [])[:6], "simulated_runs": runs, "fault_free_runs": st.get("fault_free", 0),
        "seeds_per_hour": int(runs * 3600 / max(wall, 0.1)), "simulated_time_s": round(st.get("simulated_ns", 0) / 1e9, 3),
        "faults_injected": st.get("faults", {}), "depths": st.get("depths", {}), "exit_statuses": st.get("ends", {}),
        "writes": st.get("writes", 0), "clock_readings": st.get("clock_readings", 0), "runs_showing_the_known_finding": st.get("known", 0),
        "interleaving_measure": "distinct executed sequences of outcomes",
        "real_components": ["examples/perft.rs and yasai (portable with run-time checks; AVX2)", "std", "a real process per run"],
        "simulated_components": ["standard output, clock, allocation failures, entropy (perft/shim.c)"],
    }
    if not finding and runs == 0:
        raise HarnessError("nothing ran")
    evidence(prop, tier, seed, "exploration", cov, t0, 1 if finding else 0, ASSUME_PERFT)
    return report(prop, finding, st)


# ---------------------------------------------------------------- replay

def replay(path):
    h = header_of(path)
    prop = h["property"]
    body = [l.rstrip("\n") for l in open(path) if not l.startswith("#") and l.strip()]
    if prop in SESSION or prop in BUILDS:
        if h.get("mode") == "miri":
            bins = build(["native", h["flavour"]], {})
            o = interpreted(h["flavour"], h["threads"], int(h["seed"]), body, h.get("tree") == "1", verdict_answers,
                            os.path.join(bins["native"], "ymiri"), 300)
            return replayed(prop, path, o)
        bins = build(BUILDS[prop], {}) if prop in BUILDS else build(["meter"] if prop == "C17" else ["core", "simd"])
        if h.get("mode") == "runs":
            o = outcome(*call([os.path.join(bins[h["flavour"]], "ysim")] + body[0].split()[1:], 900)[:2])
        elif h.get("mode") == "pair":
            o = compare_builds(bins, ["run", "--prop", "C13", "--digest"] + body[0].split()[1:], 900)
        else:
            o = exec_session(bins, h.get("flavour"), prop, body, 60)
    elif prop == "C19":
        bins = build(["asan-core", "asan-simd", "miri-core", "miri-simd"], {})
        if h.get("mode") == "miri":
            o = interpreted(h["flavour"], h["threads"], int(h["seed"]), body, h.get("tree") == "1", verdict_ub, None, 300)
        elif h.get("mode") == "runs":
            o = asan_call(bins, h["flavour"], body[0].split()[1:], 900)
        else:
            o = asan_exec(bins, h["flavour"], body)
    elif prop in THREADS and h.get("mode") == "miri":
        bins = build(["native", h["flavour"]], {})
        o = interpreted(h["flavour"], h["threads"], int(h["seed"]), body, h.get("tree") == "1", verdict_answers,
                        os.path.join(bins["native"], "ymiri"), 300)
    elif prop in THREADS and h["flavour"] in ("core", "simd"):
        bins = build(["core", "simd"])
        if h.get("mode") == "restarts":
            run, step, before = map(int, body[0].split()[1:])
            o = next((x for x in (restarts_differ(bins, h["flavour"], int(h["seed"]), run, step, before) for _ in range(4)) if x), None)
            o = o and ("answer", o)
        elif h.get("mode") == "runs":
            o = outcome(*call([os.path.join(bins[h["flavour"]], "ysim")] + body[0].split()[1:], 900)[:2])
        else:
            o = exec_session(bins, h.get("flavour"), prop, body, 60)
    elif prop in THREADS:
        bins = build(["thr-core", "thr-simd"])
        o = exec_threads(bins, h["flavour"], body)
    elif prop == "C15":
        import perftsim
        bins = build([h["flavour"], "simd"])
        depth = int(body[0].split()[1])
        r = perftsim.execute(bins[h["flavour"]], depth, [l.split()[1] for l in body[1:]])
        print(r.out + r.err + r.trace, end="")
        o = perftsim.judge(r, perft_reference(bins, sorted({3, depth}))[depth], depth)
        if o and o[0] == "known":
            print("KNOWN-FINDING: property=C15 " + "".join(known_findings(prop)[:1]))
            o = None if known_findings(prop) else ("failed", KNOWN_CLOCK)
    else:
        raise HarnessError("unknown property")
    return replayed(prop, path, o)


def replayed(prop, path, o):
    if o:
        print("%s: %s" % o)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the violation does not show")
    return 0


def main():
    what = sys.argv[1]
    if what == "build":
        build(list(FLAVOURS), {})
        return 0
    if what == "replay":
        return replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if what in SESSION:
        return check_session(what, tier, seed)
    if what in BUILDS:
        return check_builds(what, tier, seed)
    if what == "C19":
        return check_ub(what, tier, seed)
    if what in THREADS:
        return check_threads(what, tier, seed)
    if what == "C15":
        return check_perft(what, tier, seed)
    raise HarnessError("unknown property " + what)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        log("harness error:", e)
        sys.exit(2)
