"""Output faults: a conversion that could not put all of its output on disk never exits 0."""
from checks.common import *

ID = "F01"
RULE = ("one scenario = one study x writer x options run with faults placed, from the trace of its fault-free run, at operations on "
        "output files and directories (open/write/close/truncate/seek/mkdir errors, partial writes, write-back lost at close, full "
        "disk); non-trivial = the fault fired in the run; distinct = distinct hash of the run's event history")
ASSUME = ["the simulated kernel reports a failed write, close, open or mkdir with the error codes Linux documents",
          "libmed and libhdf5 run for real; only their system calls are simulated"]
ENOSPC, EIO, EACCES, EMFILE, EROFS, EDQUOT, EINTR, ENOTDIR, EFBIG = 28, 5, 13, 24, 30, 122, 4, 20, 27
OPS = ("openw", "write", "close", "trunc", "mkdir", "seek", "fsync", "rename", "unlink", "lock", "read", "chmod")
BUDGET = {"quick": 240, "thorough": 3000}


def tasks(tier, seed):
    st = all_studies()
    return [[[d.name for d in st[i::12]], w, 20 if tier == "quick" else 150] for i in range(12) for w in ("ASTER", "SYSTUS", "NASTRAN")]


def explore(W, task, rng, tier):
    names, w, n = task
    tried = {}
    for rnd in range(1 if tier == "quick" else 4):
        for name in names:
            yield from study(W, rng, deck(name), w, n, rnd, tried)


def study(W, rng, d, w, n, rnd, tried):
        opts = rng.choice(OPTS[w]) if rnd or rng.random() < 0.5 else []
        base = scn(ID, "fault", d, w, opts, out=rng.choice(["out", "out", "deep/er/out", "."]))
        base["faults"] = []
        ref, _ = W.ref(base)
        if ref.exit != 0:
            base = scn(ID, "fault", d, w, [])
            base["faults"] = []
            ref, _ = W.ref(base)
            if ref.exit != 0:
                return
        inputs = set(base["files"])
        E = [e for e in ref.trace if e[8] not in inputs and e[8].startswith("/w") and e[2] in OPS]
        S = [(op, p, len(ix)) for (op, p), ix in sites(ref).items()
             if p not in inputs and p.startswith("/w") and op in OPS]
        total = ref.res.info["used"]
        outs = sorted({p for op, p, _ in S if op == "write"})
        k = 0
        # every output file gets at least one write-side fault
        rng.shuffle(outs)
        plan = [("write", p) for p in outs]
        while k < max(n, len(plan)):
            if k < len(plan):
                op, p = plan[k]
            elif rng.random() < 0.12:
                s = dict(base, faults=[[0, 14, 0, rng.randrange(max(1, total))]])
                k += 1
                yield s
                continue
            else:
                op, p, _ = rng.choice(S)
            cnt = next(c for o, q, c in S if o == op and q == p)
            nth = rng.choice([0, -1, rng.randrange(cnt), rng.randrange(cnt)])
            if k >= len(plan) and k % 2:
                # the places in the code that operate on outputs, those least tried first
                low = min(tried.get(e[9], 0) for e in E)
                e = rng.choice([e for e in E if tried.get(e[9], 0) == low])
                tried[e[9]] = low + 1
                op, p = e[2], e[8]
                nth = sites(ref)[op, p].index(e[0])
                W.st["probes"]["code_places_tried"] = len(tried)
            if op == "write":
                f = rng.choice([(1, EIO), (1, ENOSPC), (6, ENOSPC), (6, EIO), (1, EDQUOT), (1, EFBIG), (11, rng.randrange(1000) * 256 + ENOSPC), (11, rng.randrange(1000) * 256 + EIO)])
            elif op == "close":
                f = rng.choice([(8, EIO * 1001 + rng.randrange(1000)), (8, ENOSPC * 1001 + rng.randrange(1000)), (8, EDQUOT * 1001 + rng.randrange(900))])
            elif op in ("openw", "mkdir"):
                f = rng.choice([(1, e) for e in (EACCES, ENOSPC, EROFS, EMFILE, EIO, ENOTDIR)])
            else:
                f = rng.choice([(1, EIO), (6, EIO)])
            fl = [["site", op, p, nth, f[0], f[1]]]
            if rng.random() < 0.15 and len(outs) > 1:
                q = rng.choice(outs)
                fl.append(["site", "write", q, rng.choice([0, -1]), 1, ENOSPC])
            k += 1
            yield dict(base, faults=fl)


def judge(W, s):
    return judge_fault(W, s, "output")
