"""--run-solver: results that are stale, missing or unreadable never count as a success."""
import random
from checks.common import *
from checks.solver import *
import vsim

ID = "S02"
RULE = ("one scenario = a history of 0-2 earlier translate-and-solve runs of a study in the same directory (finished, failed or killed), then "
        "one more whose solver ends in a seeded way and whose operations on results and listings (lookups, removal, directory reading, opening, "
        "reading, starting the solver) fail in a seeded way; non-trivial = results of an earlier run were there or a fault fired; distinct = "
        "distinct event-history hash")
ASSUME = ["the solver writes its results before it ends, into the directory it was started in",
          "a solver that reads no results back (NASTRAN) is judged by its exit status alone"]
BUDGET = {"quick": 240, "thorough": 3000}


def tasks(tier, seed):
    return slices(12, [["ASTER"], ["SYSTUS"], ["ASTER"], ["SYSTUS"], ["NASTRAN"]], 32 if tier == "quick" else 1000)


def explore(W, task, rng, tier):
    names, w, n = task
    for k in range(n):
        d = deck(rng.choice(names))
        opts = rng.choice(OPTS[w]) if rng.random() < 0.3 else []
        if w == "SYSTUS" and rng.random() < 0.3:
            opts = ["--systus.OutputProduct", "topaze"]
        s = study(ID, "stale", d, w, rng, opts, plain=rng.random() < 0.7)
        s["history"] = [[behaviour(rng, w, good=rng.random() < 0.7), rng.choice([None, None, rng.randrange(1 << 30)])] for _ in range(rng.choice([0, 1, 1, 2]))]
        b = behaviour(rng, w, good=rng.random() < 0.4)
        if rng.random() < 0.35:
            b["res"] = None
            b["ret"] = 0
        elif rng.random() < 0.2:
            b.update(res="nook", ret=0, n=rng.choice([40, 3000]))
        s["behs"] = [b]
        s["faults"] = [["late", rng.randrange(1 << 30)] for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        s["exists"] = rng.random() > 0.05
        yield s


ERRS = {"unlink": [1, 13, 16, 30, 5], "openr": [13, 5, 23, 24, 12], "read": [5, 116], "stat": [13, 5], "opendir": [13, 5, 24], "readdir": [5, 2],
        "mkdir": [13, 28, 30], "system": [11, 12], "openw": [13, 28], "rmdir": [1, 39], "fstat": [5], "access": [13]}


def late(seed, o, start):
    """a seeded fault on one of the operations of the part of the run that deals with the solver"""
    r = random.Random(seed)
    c = [e for e in o.trace if e[0] >= start and e[2] in ERRS]
    if not c:
        return None
    e = r.choice([x for x in c if x[2] == r.choice(sorted({y[2] for y in c}))] or c)
    x = r.random()
    if x < 0.12:
        return (0, r.choice([3, 9, 5]), e[0], 9)
    if x < 0.3:
        return (0, 6, e[0], r.choice(ERRS[e[2]]))
    if x < 0.55 and e[2] in ("openr", "read"):
        return (0, 17, e[0], r.choice([r.randrange(200), r.randrange(4000), r.randrange(200000)]) * 512 + r.choice([0, 256]) + 5) if e[2] == "openr" else (0, 2, e[0], r.randrange(1000))
    return (0, 1, e[0], r.choice(ERRS[e[2]]))


def judge(W, s):
    vd = Verdict()
    ref, _ = W.ref(without_R(s))
    if ref.exit != 0:
        return vd
    n = datasets(s, ref)
    W.load(s)
    lim = limits(ref)
    for b, stop in s["history"]:
        fs = []
        if stop is not None:
            r = random.Random(stop)
            fs = [(0, r.choice([3, 9, 5]), r.randrange(ref.res.info["ops"], ref.res.info["ops"] + 60), 9)]
        W.run([root_of(s)], knobs=lim, faults=fs, sys=[program(s, b) for _ in range(n + 1)])
    sys = [program(s, s["behs"][0]) for _ in range(n + 1)] if s["exists"] else []
    faults = []
    before = {p for p in W.v.ls() if p not in ref.ls}
    if s["faults"]:
        W.v.snap(1)
        t = W.run([root_of(s)], knobs=lim, sys=sys, trace=True)
        outs = {p for p in ref.ls if p not in s["files"]}
        done = [e[0] for e in t.trace if e[8] in outs and e[2] in ("write", "close", "openw", "trunc", "rename")]
        start = max(done) + 1 if done else 0
        faults = [f for f in (late(x[1], t, start) for x in s["faults"]) if f]
        names = {e[0]: (e[2], e[8]) for e in t.trace}
        W.v.restore(1)
    o = W.run([root_of(s)], knobs=lim, faults=faults, sys=sys)
    vd.nontrivial = bool(before or o.res.faults)
    W.st["probes"]["stale_results"] += bool(before)
    W.st["probes"]["solver_starts"] += len(o.res.sh)
    if o.res.info["budget"]:
        vd.add("no-termination", "the run did not end after %s" % desc(o))
        return vd
    if o.exit not in DOCUMENTED:
        vd.add("status", "undocumented status %d" % o.exit)
    if o.exit != 0:
        return vd
    want = expected(s, s["behs"], n)
    ran = [y for y in o.res.sh if y[1] == 0]
    w = s["writer"]
    if 0 not in want:
        vd.add("success:%d" % min(want), "exit 0, with %s before, %s: the solver %s" % (", ".join(sorted(before)[:3]) or "no results", desc(o), tale(s)))
    elif len(ran) < n:
        vd.add("not-run", "exit 0 although the solver ended well %d times instead of %d; %s" % (len(ran), n, desc(o)))
    else:
        for k, what in o.res.faults:
            op, _, path = what.partition(" ")
            if k == vsim.F_CUT and min(f[3] // 512 for f in faults if f[1] == k) >= o.ls.get(path, (0, 0, 0))[2]:
                continue         # the bad sector lies behind the end of the file
            if k in (vsim.F_ERR, vsim.F_STICKY, vsim.F_CUT) and op in ("openr", "read") and result(s, path):
                vd.add("unread:" + path.rsplit(".", 1)[-1], "exit 0 although %s could not be read (%s)" % (path, desc(o)))
                break
    return vd


def result(s, path):
    import os.path
    b = os.path.basename(path)
    if os.path.dirname(path) != s["outdir"] or not b.startswith(s["stem"]):
        return False
    return b.endswith(".resu") if s["writer"] == "ASTER" else b.endswith((".RESU", ".stdout")) if s["writer"] == "SYSTUS" else False


def tale(s):
    from checks.S01 import story
    return story(s)
