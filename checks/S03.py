"""--run-solver: the solver is started on the complete translation, once, where it can find it."""
import posixpath
from checks.common import *
from checks.solver import *

ID = "S03"
RULE = ("one scenario = a study translated with --run-solver into an output directory (also with names that are special to a shell, and with files of "
        "other studies in it) while operations of the translation fail in a seeded way; the simulated solver records what it is given when it is "
        "started; non-trivial = the solver was started or a fault fired; distinct = distinct event-history hash")
ASSUME = ["the shell is a model of sh: words, quotes, variables, redirections, && || ; and cd"]
BUDGET = {"quick": 240, "thorough": 3000}
EARLY = {"write": [28, 5, 122], "openw": [13, 28, 24], "close": [28, 5], "mkdir": [13, 28], "read": [5], "openr": [13, 5], "rename": [13, 28], "trunc": [28]}


def tasks(tier, seed):
    return slices(12, [["ASTER"], ["SYSTUS"], ["NASTRAN"]], 60 if tier == "quick" else 1500)


def explore(W, task, rng, tier):
    names, w, n = task
    for k in range(n):
        d = deck(rng.choice(names))
        opts = rng.choice(OPTS[w]) if rng.random() < 0.4 else []
        if w == "SYSTUS" and rng.random() < 0.4:
            opts = ["--systus.OutputProduct", "topaze"] + (["--systus.Subcase", "single"] if rng.random() < 0.5 else [])
        s = study(ID, "start", d, w, rng, opts)
        s["behs"] = [behaviour(rng, w, good=True)]
        s["faults"] = []
        if rng.random() < 0.4:
            others(s, rng)
        if w == "SYSTUS" and rng.random() < 0.3:
            # an earlier translation of the study had more subcases
            m = datasets(dict(s, product="topaze"), W.ref(without_R(s))[0])
            for k in range(m + 1, m + 1 + rng.choice([1, 2])):
                s["files"][posixpath.join(s["outdir"], "%s_SC%d.DAT" % (s["stem"], k))] = "old\n"
        if rng.random() < 0.35:
            # what an earlier translation of the study left when it was killed
            ref, data = W.ref(without_R(s))
            copies = {posixpath.basename(p) for p in s["files"]}
            s["left"] = {p: rng.choice([0, 0, rng.random(), 1]) for p in sorted(data)
                         if p not in s["files"] and posixpath.basename(p) not in copies and rng.random() < 0.7}
        if rng.random() < 0.6:
            ref, _ = W.ref(without_R(s))
            if ref.exit != 0:
                continue
            c = [e for e in ref.trace if e[2] in EARLY]
            if c:
                e = rng.choice([x for x in c if x[2] == rng.choice(sorted({y[2] for y in c}))] or c)
                k = rng.choice([1, 1, 6])
                arg = rng.choice(EARLY[e[2]])
                if e[2] == "write" and rng.random() < 0.3:
                    k, arg = 11, rng.randrange(1000) * 256 + arg
                if e[2] == "close" and rng.random() < 0.5:
                    k, arg = 8, arg * 1001 + rng.randrange(1000)
                s["faults"] = [[0, k, e[0], arg]]
        if rng.random() < 0.2:
            s["knobs"] = dict(dirmode=rng.choice([1, 2, 3]), dirseed=rng.randrange(1 << 30))
        yield s


def others(s, rng):
    """files of other studies in the output directory"""
    st, o = s["stem"], s["outdir"]
    for t in rng.sample([st + "2", st + "_b", "other", st + "_1", "SYSTUS_" + st, st[:max(1, len(st) // 2)]], 2):
        for e in {"ASTER": [".export", ".comm", ".resu", ".mess"], "NASTRAN": ["_vg.nas", "_vg.f06"],
                  "SYSTUS": ["_ALL.DAT", "_SC1.DAT", "_SC1_DATA1.ASC", "_SC1_DATA1.TIT", "_1.RESU"]}[s["writer"]]:
            p = posixpath.join(o, t + e)
            if p not in s["files"]:
                s["files"][p] = "other study\n"


def judge(W, s):
    vd = Verdict()
    ref, data = W.ref(without_R(s))
    n = datasets(s, ref)
    W.load(s)
    for p, share in s.get("left", {}).items():
        if p in data:
            W.v.mkdir(posixpath.dirname(p))
            W.v.put(p, data[p][:int(len(data[p]) * share)])
    W.v.mkdir("/snap")
    sys = [program(s, s["behs"][0], snap="/snap/%d" % i) for i in range(n + 2)]
    o = W.run([root_of(s)], knobs=dict(s.get("knobs") or {}, **limits(ref)), faults=[tuple(f) for f in s["faults"]], sys=sys)
    vd.nontrivial = bool(o.res.sh or o.res.faults)
    W.st["probes"]["solver_starts"] += len(o.res.sh)
    if o.res.info["budget"]:
        vd.add("no-termination", "the run did not end after %s" % desc(o))
        return vd
    if ref.exit != 0:
        if o.res.sh:
            vd.add("start-after-failure", "the solver was started although the translation ends with %d" % ref.exit)
        return vd
    if len(o.res.sh) > n:
        vd.add("extra-start", "the solver was started %d times for %d data set(s): %s" % (len(o.res.sh), n, "; ".join(y[4][-1] for y in o.res.sh)))
    if o.exit == 0 and len(o.res.sh) < n:
        vd.add("missing-start", "exit 0 although the solver was started %d times for %d data set(s)" % (len(o.res.sh), n))
    outs = {p for p in ref.ls if ref.ls[p][0] == 1 and p not in s["files"] and posixpath.dirname(p) == s["outdir"]}
    seen = set()
    for i, (_, st, there, cwd, av) in enumerate(o.res.sh):
        if cwd != s["outdir"]:
            vd.add("directory", "the solver was started in %s instead of %s" % (cwd, s["outdir"]))
            continue
        arg = posixpath.normpath(posixpath.join(cwd, av[-1]))
        prog = s["cmdprog"]
        if av[0] != prog:
            vd.add("program", "%s was started instead of %s" % (av[0], prog))
        if not there or arg not in outs:
            vd.add("wrong-study", "the solver was started on %s, which is not a file of this translation" % arg)
            continue
        if arg in seen:
            vd.add("twice", "the solver was started twice on %s" % arg)
        seen.add(arg)
        for p in sorted(outs):
            g = W.v.get("/snap/%d/%s" % (i, posixpath.basename(p)))
            if not W.same_file(p, g, data[p]):
                vd.add("incomplete:" + suffix(p, s), "the solver was started although %s %s (%s)" % (
                    p, "was missing" if g is None else "was incomplete", desc(o)))
                break
    if not s["faults"] and not o.res.sh:
        vd.add("no-start", "the solver was not started; exit %d" % o.exit)
    return vd
