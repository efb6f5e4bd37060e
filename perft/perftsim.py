"""Simulation of the perft example: its standard output, clock, memory and death follow a plan.

A plan is a list of events; see shim.c. Everything the example can observe is decided by it, so a plan is an
exactly repeatable run.
"""
import hashlib, os, random, re, signal, subprocess, tempfile

MOVE = re.compile(r"^((?:[1-9][a-i][1-9][a-i]\+?)|(?:[PLNSGBR]\*[1-9][a-i])): (\d+)$")
TOTAL = re.compile(r"^Searched: (\d+) nodes")
FATAL = [("e28", "no space left"), ("e5", "I/O error"), ("e32", "broken pipe"), ("e11", "would block"), ("e27", "file too large"),
         ("e122", "over quota"), ("z", "takes nothing")]
STEPS = [1, 2, 999, 1000, 123456, 10 ** 6, 10 ** 9, 7 * 10 ** 9 + 1, 3600 * 10 ** 9, 10 ** 15, 9 * 10 ** 17]


def plan_of(seed, run, deep):
    """(depth, events) of a run."""
    r = random.Random("%d/%d" % (seed, run))
    depth = r.choices([1, 2, 3, 4, 5], [38, 30, 20, 12, 3 if deep else 0])[0]
    # the first runs go deep, under the same kinds of plans: what only a long history or a late position
    # shows. Run 2 of a thorough search goes deeper still.
    depth = [6, 6, 7 if deep else 5, 5][run] if run < 4 else depth
    ev = []
    kind = r.random()
    if r.random() < 0.8:
        for c in range(1, r.randint(1, 4) + 1):
            ev.append("c%d:%d" % (c, r.choice(STEPS) if r.random() < 0.7 else r.randint(1, 10 ** r.randint(1, 17))))
    if r.random() < 0.1:
        ev = [e for e in ev if not e.startswith("c2:")] + ["c2:0"]
    span = 40
    if kind < 0.1:
        return depth, ev
    if r.random() < 0.4:
        m = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 16])
        ev.append("m%d" % m)
        span = 40 + 260 // m
    if r.random() < 0.8:
        for _ in range(r.randint(1, r.choice([3, 10, 40]))):
            w = r.randint(1, span)
            x = r.random()
            if x < 0.5:
                n = r.choice([1, 1, 1, 2, 5])          # interrupted several times in a row
                ev += ["w%d:i" % (w + k) for k in range(n)]
            else:
                ev.append("w%d:s%d" % (w, r.randint(1, 9)))
    if r.random() < 0.35:
        # late faults matter as much as early ones
        w = r.choice([r.randint(1, span), r.randint(28, 36), 31, 32, 33])
        f = r.choice(FATAL)[0] if r.random() < 0.85 else "k"
        ev.append("w%d:%s" % (w, f.upper() if f[0] == "e" and r.random() < 0.6 else f))
    if r.random() < 0.1:
        ev.append("a%d" % r.choice([r.randint(1, 12), r.randint(1, 120)]))
    if r.random() < 0.1 and "c2:0" not in ev:
        ev.append("x1")
    if run < 4:
        # these are to get to their end
        ev = [e for e in ev if e[0] in "cm" and e != "c2:0" or e[0] == "w" and e.split(":")[1][0] in "is"]
    # one event per ordinal
    seen, out = set(), []
    for e in reversed(ev):
        k = e.split(":")[0] if e[0] != "m" else "m"
        if k not in seen:
            seen.add(k)
            out.append(e)
    return depth, list(reversed(out))


class Result:
    pass


def flavour_of(run):
    """The build of a run. The first four: vectorised, checked, vectorised, checked."""
    if run < 4:
        return ["perft-simd", "perft-core"][run % 2]
    return ["perft-core", "perft-simd"][run // 8 % 2]


def execute(bindir, depth, events, timeout=None):
    timeout = timeout or (60 if depth < 6 else 250 if depth == 6 else 840)
    rd, wr = os.pipe()
    env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": os.path.join(bindir, "shim.so"), "YP_PLAN": ",".join(events), "YP_TRACE": str(wr)}
    res = Result()
    # output goes to files: nobody has to read along
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err, tempfile.TemporaryFile() as tr:
        env["YP_TRACE"] = str(tr.fileno())
        os.close(rd)
        os.close(wr)
        p = subprocess.Popen([os.path.join(bindir, "perft"), str(depth)], stdin=subprocess.DEVNULL, stdout=out, stderr=err,
                             env=env, pass_fds=[tr.fileno()], cwd="/")
        try:
            res.rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            res.rc = "hang"
        for f, n in ((out, "out"), (err, "err"), (tr, "trace")):
            f.seek(0)
            setattr(res, n, f.read(1 << 20).decode("utf8", "replace"))
    return res


def judge(res, ref, depth):
    """(class, detail), or ('known', ...) or None; also the number of judged cases in res.judged."""
    moves, total = ref
    res.judged = 0
    tr = res.trace.splitlines()
    fatal = [l for l in tr if l.startswith("w ") and (" error " in l or l.endswith(" zero"))]
    killed = any(l.endswith(" killed") for l in tr)
    nomem = any(l.startswith("a ") for l in tr)
    clocks = [int(l.split("+")[1]) for l in tr if l.startswith("c ")]
    stuck = len(clocks) >= 2 and sum(clocks[1:]) == 0
    if res.rc == "hang":
        return "hang", "depth %d does not end" % depth
    seen, tot = {}, None
    lines = res.out.split("\n")
    for l in lines[:-1]:
        m = MOVE.match(l)
        if m:
            mv, n = m.group(1), int(m.group(2))
            res.judged += 1
            if mv in seen:
                return "root-move-twice", "depth %d: %s printed twice" % (depth, mv)
            if mv not in moves:
                return "root-move-wrong", "depth %d: %s is not a legal root move" % (depth, mv)
            if moves[mv] != n:
                return "count-wrong", "depth %d: %s printed with %d, exact count %d" % (depth, mv, n, moves[mv])
            seen[mv] = n
        m = TOTAL.match(l)
        if m:
            tot = int(m.group(1))
            res.judged += 1
            if tot != total:
                return "total-wrong", "depth %d: total printed as %d, exact total %d" % (depth, tot, total)
    last = lines[-1]
    if last and MOVE.match(last) is None and not fatal and not killed and not nomem and res.rc == 0:
        return "cut-off", "depth %d: output ends in the middle of a line: %r" % (depth, last[:80])
    complete = len(seen) == len(moves) and tot is not None
    if killed:
        return None
    if res.rc == 0 and not complete:
        return "silent-loss", "depth %d: exit status 0, but %d of %d root moves and %s total arrived (%s)" % (
            depth, len(seen), len(moves), "a" if tot is not None else "no", "; ".join(fatal[:3]))
    if fatal:
        return None
    if res.rc != 0:
        if nomem:
            return None
        if stuck and res.rc == 101 and "attempt to divide by zero" in res.err and len(seen) == len(moves):
            return "known", "clock"
        return "failed", "depth %d: nothing failed, yet exit status %s after %d of %d root moves: %s" % (
            depth, res.rc, len(seen), len(moves), res.err.strip().replace("\n", " / ")[-300:])
    return None


def faults(trace):
    d = {}
    for l in trace.splitlines():
        w = l.split()
        k = None
        if w[0] == "w":
            k = {"short": "short write", "eintr": "interrupted write", "error": "failed write", "zero": "write of nothing", "killed": "kill"}.get(w[2])
        elif w[0] == "a":
            k = "failed allocation"
        elif w[0] == "c":
            k = "clock does not advance" if w[2] == "+0" and w[1] != "1" else None
        if k:
            d[k] = d.get(k, 0) + 1
    return d


def schedule(trace):
    """What the run went through, for counting different ones."""
    return hashlib.sha256("\n".join(l for l in trace.splitlines() if not l.startswith("end")).encode()).digest()[:8]
