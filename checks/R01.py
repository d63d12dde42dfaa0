"""Damaged inputs: whatever is left of a study's files, the conversion ends, within bounds and with a documented status."""
import re
from checks.common import *

ID = "R01"
RULE = ("one scenario = one study x writer x options whose study, include, test result or configuration file was damaged as storage and "
        "interrupted copies damage files: cut at any byte, blocks zeroed, dropped, duplicated, exchanged or overwritten by other parts, "
        "lines lost or doubled, bits flipped; non-trivial = the damaged file was read; distinct = distinct event-history hash")
ASSUME = ["damage that only makes a number of the study bigger is not injected: the work of a conversion may grow with the numbers in it",
          "ending in status 8 (a crash that the parent reports) is a documented way to end"]
BUDGET = {"quick": 240, "thorough": 3000}
CH = "0123456789 ,.+-*$=\n\t/'\"ABCEGRTHU\x00\x7f\xff"


def tasks(tier, seed):
    return [[d.name, w, 24 if tier == "quick" else 240] for d in all_studies() for w in ("ASTER", "SYSTUS", "NASTRAN")]


def damage(rng, b):
    if not b:
        return b
    n = len(b)
    r = rng.random()
    i = rng.randrange(n)
    e = b.find("\n", i)
    e = e if e >= 0 else n - 1
    if r < 0.4:                                                   # cut
        return b[:rng.choice([i, i, e, e + 1, e + 1, max(0, e - 1)])]
    bs = rng.choice([1, 8, 16, 80, 512, 4096])
    a = i // bs * bs
    z = min(n, a + bs)
    if r < 0.5:                                                   # block of zeros
        return b[:a] + "\0" * (z - a) + b[z:]
    if r < 0.58:                                                  # block lost or doubled
        return b[:a] + b[z:] if rng.random() < 0.5 else b[:z] + b[a:]
    if r < 0.64:                                                  # stale block
        j = rng.randrange(n)
        return b[:a] + b[j:j + z - a] + b[z:]
    L = b.split("\n")
    k = min(len(L) - 1, b.count("\n", 0, i))
    if r < 0.8:                                                   # lines lost, doubled, exchanged, cut short
        m = rng.randrange(5)
        if m == 0:
            del L[k:k + rng.choice([1, 1, 2, 5])]
        elif m == 1:
            L[k:k] = [L[k]]
        elif m == 2:
            q = rng.randrange(len(L))
            L[k], L[q] = L[q], L[k]
        elif m == 3:
            L[k] = L[k][:rng.randrange(len(L[k]) + 1)]
        else:
            L = L[k:] + L[:k]
        return "\n".join(L)
    if r < 0.9:                                                   # a character
        if not b[i].isdigit():
            c = rng.choice(CH)
            if not c.isdigit():
                return b[:i] + c + b[i + 1:]
        return b[:i] + " " + b[i + 1:]
    f = L[k].split(",") if "," in L[k] else [L[k][x:x + 8] for x in range(0, len(L[k]), 8)]
    if f:                                                         # a field of a card
        q = rng.randrange(len(f))
        f[q] = rng.choice(["", " " * 8, f[rng.randrange(len(f))], "THRU    ", "ENDT    ", "+       ", "-1      ", "0       ", "X       "])
        L[k] = (",".join(x.strip() for x in f) if "," in L[k] else "".join(x.ljust(8) for x in f))
    return "\n".join(L)


def biggest(b):
    return max([int(x) for x in re.findall(r"\d+", b)] or [0])


def grows(clean, b):
    """may the damage have made a number or a range of the study bigger?"""
    if biggest(b) <= 300:
        return False
    if biggest(b) > biggest(clean):
        return True
    for m in re.finditer("(?i)THRU", b):
        if b[max(0, m.start() - 40):m.end() + 24] not in clean:
            return True
    return False


def explore(W, task, rng, tier):
    name, w, n = task
    d = deck(name)
    for rnd in range(1 if tier == "quick" else 4):
        base = scn(ID, "damage", d, w, rng.choice(OPTS[w]) if rng.random() < 0.6 else [], cfg="# c\nsystus.RBECoefficient=7\ntolerance=0.5\n" if rng.random() < 0.1 else None)
        base["faults"] = []
        ref, _ = W.ref(base)
        used = sorted({p for (op, p) in sites(ref) if op == "read" and p in base["files"]})
        if not used:
            return
        for _ in range(n):
            fs = dict(base["files"])
            p = rng.choice(used)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                fs[p] = damage(rng, fs[p])
            if grows(base["files"][p], fs[p]):
                continue
            yield dict(base, files=fs, clean=base["files"][p], damaged=p)


def judge(W, s):
    vd = Verdict()
    ref, _ = W.ref(dict(s, files=dict(s["files"], **{s["damaged"]: s["clean"]})))
    W.load(s)
    lim = limits(ref, 5)
    lim["steplimit"] += 2000 * len(s["files"][s["damaged"]])
    o = W.run([root_of(s)], knobs=dict(s.get("knobs") or {}, heaplimit=2 << 30, **lim))
    more = {"steplimit": min(lim["steplimit"] * 4, 600000000), "oplimit": lim["oplimit"] * 8}
    if o.res.info["budget"] and more["steplimit"] > lim["steplimit"]:
        W.load(s)
        o = W.run([root_of(s)], knobs=dict(s.get("knobs") or {}, heaplimit=2 << 30, **more))
    vd.nontrivial = True
    bad = [p for p in s["files"] if o.ls.get(p) != ref.ls.get(p) and p != s["damaged"]]
    if bad:
        vd.add("input-changed", "%s was changed by the run" % bad[0])
    if o.res.info["budget"]:
        vd.add("no-termination:%d" % o.res.info["budget"], "the conversion of the damaged %s did not end within its bounds" % s["damaged"])
    elif o.exit not in DOCUMENTED:
        vd.add("status", "ended with the undocumented status %d" % o.exit)
    return vd


