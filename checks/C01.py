"""Crash recovery: whatever a conversion or an older one left behind, running it again gives the same outputs."""
from checks.common import *
import corpus

ID = "C01"
RULE = ("one scenario = a history of 1-3 runs of a study stopped at a chosen operation (killed before or after it, torn write, crash, "
        "disk full, I/O error), and/or leftovers of earlier versions of the outputs (longer, shorter, garbage), then a fault-free run "
        "compared with the run in a clean directory; non-trivial = the stopped run left files or leftovers existed; distinct = distinct "
        "event-history hash")
ASSUME = ["a killed process loses its buffers and memory and nothing that it has handed to the kernel (no power loss: vega never syncs)",
          "outputs of other studies and temporary files of a killed run are not compared"]
BUDGET = {"quick": 240, "thorough": 3000}


def tasks(tier, seed):
    return [[d.name, w, 8 if tier == "quick" else 100] for d in all_studies() for w in ("ASTER", "SYSTUS", "NASTRAN")]


def explore(W, task, rng, tier):
    name, w, n = task
    d = deck(name)
    for rnd in range(2 if tier == "quick" else 6):
        opts = rng.choice(OPTS[w]) if rnd else []
        base = scn(ID, "crash", d, w, opts, out=rng.choice(["out", "out", "new/dir", "."]))
        ref, data = W.ref(base)
        if ref.exit not in (0, 10):
            continue
        S = [e for e in ref.trace if e[8] not in base["files"] and e[8].startswith("/w") and e[2] in ("openw", "write", "close", "mkdir", "trunc", "rename", "unlink", "seek")]
        if not S:
            continue
        first = S[0][0]
        for _ in range(n // 2):
            s = dict(base, history=[], pre={})
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                e = rng.choice(S)
                r = rng.random()
                f = [0, rng.choice([3, 3, 9, 5, 10]), e[0], 0]
                if e[2] == "write" and r < 0.5:
                    f = [0, 4, e[0], rng.randrange(1000)]
                elif r > 0.85:
                    f = [0, 1, e[0], rng.choice([28, 5])]
                elif r > 0.8:
                    f = [0, 14, 0, rng.randrange(20000)]
                s["history"].append([f])
            if rng.random() < 0.35:
                # leftovers of an earlier, different conversion under the same names
                outs = [p for p in data if p not in base["files"]]
                for p in outs:
                    if rng.random() < 0.6:
                        s["pre"][p] = [rng.choice(["longer", "shorter", "garbage", "empty"]), rng.randrange(1 << 30)]
                if rng.random() < 0.4:
                    s["history"] = []
            elif rng.random() < 0.4:
                # an older version of the study was converted before
                main = next(p for p in s["files"] if p.endswith("/" + d.main))
                s["older"] = [main, lat(corpus.edited(d.files[d.main], rng))]
                if rng.random() < 0.5:
                    s["history"] = []
            yield s


def leftover(kind, seed, b):
    import random
    r = random.Random(seed)
    if kind == "empty":
        return b""
    if kind == "shorter":
        return b[:r.randrange(len(b) + 1)]
    if kind == "longer":
        return b + b[-2000:] + bytes(r.randrange(32, 127) for _ in range(500))
    return bytes(r.randrange(256) for _ in range(r.randrange(1, 6000)))


def judge(W, s):
    vd = Verdict()
    ref, data = W.ref(s)
    if ref.exit not in (0, 10):
        return vd
    W.load(s)
    import os.path
    # files vega only copies when absent are the user's once they exist: not overwritten
    keep = copied(s, data)
    for p, (kind, sd) in s["pre"].items():
        if p in keep or p not in data:
            continue
        W.v.mkdir(os.path.dirname(p))
        W.v.put(p, leftover(kind, sd, data[p]))
        vd.nontrivial = True
    if s.get("older"):
        main, text = s["older"]
        W.v.put(main, text)
        o = W.run([root_of(s)], knobs=dict(limits(ref), randseed=77))
        W.v.put(main, s["files"][main])
        for p in keep:
            if p not in s["files"]:
                W.v.rm(p)
        vd.nontrivial = True
        W.st["probes"]["older_versions"] += 1
    W.v.snap(1)
    killed = 0
    for i, fs in enumerate(s["history"]):
        o = W.run([root_of(s)], knobs=dict(limits(ref), randseed=i + 1), faults=fs)
        if o.res.faults and any(k in (3, 5, 10) for k, _ in o.res.faults):
            killed += 1
            if o.exit == 0:
                vd.add("crash-exit0", "exit 0 although the conversion was killed at %s" % desc(o))
        vd.nontrivial = vd.nontrivial or bool(set(o.ls) - set(s["files"]))
        for p in s["files"]:
            if o.ls.get(p) != ref.ls.get(p):
                vd.add("input-lost", "%s was changed or lost when the run was stopped at %s" % (p, desc(o)))
    W.st["probes"]["runs_killed"] += killed
    o = W.run([root_of(s)], knobs=dict(limits(ref), randseed=99))
    if o.exit != ref.exit:
        vd.add("rerun-exit:%s" % o.exit, "running again after %s exits %s instead of %s" % (hist(s), o.exit, ref.exit))
        return vd
    bad = W.diff(o, ref, data, only=lambda p: p in ref.ls)
    if bad:
        vd.add("rerun:" + suffix(bad[0], s), "running again after %s leaves %s different from a clean run" % (hist(s), bad[0]))
    return vd


def copied(s, data):
    """outputs that are verbatim copies of input files"""
    import os.path
    names = {os.path.basename(p) for p in s["files"]}
    return {p for p in data if os.path.basename(p) in names}


def hist(s):
    import vsim
    a = ["a run stopped by %s at operation %d" % (vsim.FNAME.get(f[1], f[1]), f[2]) for h in s["history"] for f in h]
    b = ["a %s leftover %s" % (k, p) for p, (k, _) in list(s["pre"].items())[:3]]
    if s.get("older"):
        a.insert(0, "a conversion of an older version of the study")
    return "; ".join(a + b) or "nothing"
