"""Allocation failures: running out of memory never yields exit 0 with truncated or altered outputs."""
from checks.common import *

ID = "F03"
RULE = ("one scenario = one study x writer x options run in which the k-th operator new (or malloc, reaching libmed/libhdf5) fails, "
        "once or from then on, k drawn over the whole run; non-trivial = the failure fired; distinct = distinct event-history hash")
ASSUME = ["memory exhaustion is reported by the allocator (no overcommit kill)"]
BUDGET = {"quick": 240, "thorough": 3000}


def tasks(tier, seed):
    st = all_studies()
    return [[[d.name for d in st[i::12]], w, 40 if tier == "quick" else 400] for i in range(12) for w in ("ASTER", "SYSTUS", "NASTRAN")]


def explore(W, task, rng, tier):
    names, w, n = task
    tried = {}
    for rnd in range(1 if tier == "quick" else 4):
        for name in names:
            base = scn(ID, "fault", deck(name), w, rng.choice(OPTS[w]) if rnd or rng.random() < 0.3 else [], test=rng.random() < 0.8)
            base["faults"] = []
            ref, _ = W.ref(base)
            if ref.exit != 0:
                continue
            places = ref.asites
            for i in range(n):
                kind = rng.choice([12, 12, 12, 13])
                if i % 2:
                    # the places in the code that allocate, those least tried first
                    low = min(tried.get(p[0], 0) for p in places)
                    p = rng.choice([p for p in places if tried.get(p[0], 0) == low])
                    tried[p[0]] = low + 1
                    ctr, at = p[1], rng.choice(p[3:6])
                else:
                    ctr = rng.choice([1, 1, 1, 2])
                    tot = ref.res.info["news" if ctr == 1 else "mallocs"]
                    # late allocations (formatting and writing) are where a swallowed failure hides
                    at = rng.randrange(tot) if rng.random() < 0.5 else tot - 1 - int(tot * rng.random() ** 2)
                W.st["probes"]["allocating_places_tried"] = len(tried)
                yield dict(base, faults=[[ctr, kind, max(0, at), 0]])


def judge(W, s):
    return judge_fault(W, s, "memory")
