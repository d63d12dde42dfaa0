"""Input faults: a study that could not be read completely is never converted as if it had been."""
from checks.common import *

ID = "F02"
RULE = ("one scenario = one study x writer run with faults placed at operations on its input, include, test-result or configuration "
        "files (open, stat and read errors, one-shot and persistent, at a chosen byte position via small reads); non-trivial = the "
        "fault fired; distinct = distinct hash of the run's event history")
ASSUME = ["a configuration file that cannot be opened is documented as a warning with default behaviour and is not counted",
          "a missing (not unreadable) include file in best-effort mode is a documented skip and is not injected"]
EIO, EACCES, EMFILE, ESTALE, EISDIR, ENFILE, ELOOP = 5, 13, 24, 116, 21, 23, 40
BUDGET = {"quick": 240, "thorough": 3000}


def tasks(tier, seed):
    st = all_studies()
    return [[[d.name for d in st[i::12]], w, 15 if tier == "quick" else 120] for i in range(12) for w in ("ASTER", "SYSTUS", "NASTRAN")]


CFGS = ["systus.RBE2TranslationMode=lagrangian\n", "systus.OutputProduct=topaze\n", "convertCompletelyRigidsIntoMPCs=0\n",
        "# comment\nsystus.OptionAnalysis=3D\nsystus.RBECoefficient=7\n", "tolerance=0.5\nsystus.OutputMatrix=file\n"]


def explore(W, task, rng, tier):
    names, w, n = task
    tried = {}
    for rnd in range(1 if tier == "quick" else 4):
        for name in names:
            yield from study(W, rng, deck(name), w, n, rnd, tried)


def study(W, rng, d, w, n, rnd, tried):
        cfg = rng.choice(CFGS) if rng.random() < 0.4 else None
        base = scn(ID, "fault", d, w, rng.choice(OPTS[w]) if rnd else [], cfg=cfg)
        base["faults"] = []
        # small transfers put a read boundary (and so a possible error) at many positions of a file
        base["knobs"] = rng.choice([{}, {"chunk": 1, "chunkseed": rng.randrange(1000)}])
        ref, _ = W.ref(base, base["knobs"])
        if ref.exit != 0:
            return
        S = [(op, p, len(ix)) for (op, p), ix in sites(ref).items()
             if p in base["files"] and op in ("openr", "read", "stat", "fstat", "seek", "access") and not (p.endswith(".cfg") and op in ("openr", "stat"))]
        keys = {(op, p) for op, p, _ in S}
        E = [e for e in ref.trace if (e[2], e[8]) in keys]
        ins = sorted({p for _, p, _ in S})
        # a place in a file that cannot be read: at the start or the end of a line, or anywhere
        for _ in range(n // 3):
            p = rng.choice(ins)
            b = base["files"][p]
            if not b or not any(o == "openr" and q == p for o, q, _ in S):
                continue
            m = rng.randrange(len(b))
            e = b.find("\n", m)
            off = rng.choice([0, m, e + 1, e + 1, e + 1, e + 1, e] if e >= 0 else [m])
            yield dict(base, faults=[["site", "openr", p, -1, 17, off * 512 + rng.choice([0, 0, 256]) + rng.choice([EIO, ESTALE])]])
        k = 0
        plan = [(op, p) for p in ins for op in ("openr", "read") if any(o == op and q == p for o, q, _ in S)]
        rng.shuffle(plan)
        while k < max(n, len(plan)):
            op, p = plan[k] if k < len(plan) else rng.choice(S)[:2]
            cnt = next(c for o, q, c in S if o == op and q == p)
            nth = rng.choice([0, -1, rng.randrange(cnt)])
            if k >= len(plan) and k % 2:
                # the places in the code that look at inputs, those least tried first
                low = min(tried.get(e[9], 0) for e in E)
                e = rng.choice([e for e in E if tried.get(e[9], 0) == low])
                tried[e[9]] = low + 1
                op, p = e[2], e[8]
                nth = sites(ref)[op, p].index(e[0])
                W.st["probes"]["code_places_tried"] = len(tried)
            if op == "read":
                f = rng.choice([(1, EIO), (6, EIO), (1, ESTALE), (1, EISDIR)])
            elif op == "openr":
                f = rng.choice([(1, e) for e in (EACCES, EMFILE, EIO, ENFILE, ELOOP)] + [(6, EACCES)])
            else:
                f = (1, rng.choice([EIO, EACCES]))
            k += 1
            yield dict(base, faults=[["site", op, p, nth, f[0], f[1]]])


def judge(W, s):
    return judge_fault(W, s, "input")
