"""--run-solver: the exit status tells how the solver ended and whether its tests passed."""
from checks.common import *
from checks.solver import *

ID = "S01"
RULE = ("one scenario = a study translated and solved (--run-solver) by a simulated solver that ends in a seeded way (any exit status, killed by "
        "a signal, not installed, no start possible), with complete, partial, missing, failing or empty results and listings, for each writer, "
        "product, option set and output directory; non-trivial = the solver was started; distinct = distinct event-history hash")
ASSUME = ["the shell reports a program killed by signal n with the status 128+n, or is replaced by it and ends with the signal itself",
          "an exit status of 129 to 165 means killed, of 127 not found, as the code documents",
          "SYSTUS counts as having results when its TIT or fdb file is there"]
BUDGET = {"quick": 240, "thorough": 3000}


def tasks(tier, seed):
    return slices(12, [["ASTER"], ["SYSTUS"], ["NASTRAN"]], 60 if tier == "quick" else 1500)


def explore(W, task, rng, tier):
    names, w, n = task
    for k in range(n):
        d = deck(rng.choice(names))
        opts = rng.choice(OPTS[w]) if rng.random() < 0.5 else []
        if w == "SYSTUS" and rng.random() < 0.5:
            opts = ["--systus.OutputProduct", "topaze"] + (["--systus.Subcase", "single"] if rng.random() < 0.6 else [])
        s = study(ID, "outcome", d, w, rng, opts)
        if "topaze" in opts and rng.random() < 0.7 and datasets(s, W.ref(without_R(s))[0]) < 2:
            continue
        s["behs"] = [behaviour(rng, w, good=rng.random() < 0.2) for _ in range(rng.choice([2, 3]) if "topaze" in opts else 1)]
        s["exists"] = rng.random() > 0.06
        s["faults"] = []
        s["knobs"] = {}
        if rng.random() < 0.3:
            s["knobs"] = dict(sched=rng.choice([50, 300, 900]), schedseed=rng.randrange(1 << 30))
        if rng.random() < 0.3:
            s["knobs"].update(dirmode=rng.choice([1, 2, 3]), dirseed=rng.randrange(1 << 30))
        yield s


def judge(W, s):
    vd = Verdict()
    ref, _ = W.ref(without_R(s))
    n = datasets(s, ref)
    W.load(s)
    sys = [program(s, s["behs"][i % len(s["behs"])]) for i in range(max(n, 1) + 2)] if s["exists"] else []
    o = W.run([root_of(s)], knobs=dict(s.get("knobs") or {}, **limits(ref)), sys=sys)
    vd.nontrivial = bool(o.res.sh)
    if o.res.info["budget"]:
        vd.add("no-termination", "the run did not end")
        return vd
    want = expected(s, s["behs"], n) if ref.exit == 0 else {ref.exit}
    W.st["probes"]["solver_starts"] += len(o.res.sh)
    if o.exit not in want:
        vd.add("status:%s-%s" % (min(want), o.exit), "%s ended with %d; the solver %s, so it has to end with %s" % (
            "vegapp", o.exit, story(s), " or ".join(map(str, sorted(want)))))
    return vd


def story(s):
    if not s["exists"]:
        return "is not installed"
    b = s["behs"][0]
    raw = b.get("ret", 0)
    r = "was killed by signal %d" % (raw & 0x7f) if raw & 0x7f else "ended with %d" % (raw >> 8)
    return "%s, results %s%s, listing %s" % (r, b.get("res"), " without " + ", ".join(b["missing"]) if b.get("missing") else "", b.get("out"))
