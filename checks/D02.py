"""History independence: a conversion made after others in the same process gives what it gives alone."""
from checks.common import *
import corpus

ID = "D02"
RULE = ("one scenario = a sequence of 2-5 conversions (different studies, writers, options; some of them failing by themselves or by "
        "injected I/O errors) made one after another in one process, the last one compared with the same conversion made alone; "
        "non-trivial = the sequence reached its last conversion; distinct = distinct event-history hash")
ASSUME = ["conversions in one process are made one at a time, as vega's own test programs do; a crash of the process ends the history",
          "libmed and libhdf5 run for real and keep their own process-wide state"]
BUDGET = {"quick": 240, "thorough": 3000}
WR = ("ASTER", "SYSTUS", "NASTRAN")


def tasks(tier, seed):
    return [[d.name, w, 5 if tier == "quick" else 60] for d in all_studies() for w in WR]


def step(rng, d, w, i, out=None, opts=None, edit=False):
    if opts is None:
        opts = rng.choice(OPTS[w]) if rng.random() < 0.4 else []
    base = "/w/s%d/" % i
    files = {base + f: lat1(corpus.edited(b, rng) if edit and f == d.main else b) for f, b in d.files.items()}
    av = ["vegapp", "-o", out or "o%d" % i]
    if d.test and rng.random() < 0.7:
        av += ["-t", "s%d/%s" % (i, d.test)]
    return files, av + [o for o in opts if o not in ("TRACE", "--verbosity", "--graph", "WARN", "ERROR")] + ["s%d/%s" % (i, d.main), d.fmt, w], d.main


def lat1(b):
    return b.decode("latin-1") if isinstance(b, bytes) else b


def explore(W, task, rng, tier):
    name, w, n = task
    d = deck(name)
    allst = all_studies()
    for _ in range(n):
        k = rng.choice([1, 1, 2, 3, 4])
        # the last conversion may reuse a study, a directory, or both of an earlier one
        files, seq, names = {}, [], []
        same = rng.random()
        opts = rng.choice(OPTS[w]) if rng.random() < 0.4 else []
        for i in range(k):
            e = d if same < 0.6 and i == k - 1 else rng.choice(allst)
            if e is d and same < 0.5:      # another version of the same study
                f, av, _ = step(rng, e, w, i, None, opts, rng.random() < 0.3)
            else:
                f, av, _ = step(rng, e, rng.choice(WR) if rng.random() < 0.7 else w, i)
            files.update(f)
            seq.append(av)
            names.append(e.name)
        f, av, main = step(rng, d, w, 9, None, opts if same < 0.5 else None, same < 0.5)
        files.update(f)
        seq.append(av)
        s = dict(prop=ID, kind="seq", deck=d.name, stem=main.rsplit(".", 1)[0], writer=w, files=files, seq=seq, history=names, faults=[])
        if rng.random() < 0.5:
            s["shared"] = 1           # one converter object for the whole sequence
        if rng.random() < 0.4:
            # fail one operation of an earlier conversion, chosen from its trace
            j = rng.randrange(k)
            solo = dict(s, seq=seq[:j + 1])
            ref, _ = W.ref(dict(s, seq=seq[:j + 1]))
            lo = ref.res.seq[j - 1][2] if j and len(ref.res.seq) > j - 1 else 0
            hi = ref.res.info["ops"]
            if hi > lo:
                ev = [e for e in ref.trace if lo <= e[0] < hi and e[2] in ("openr", "openw", "read", "write", "close", "mkdir", "seek", "stat")]
                if ev:
                    e = rng.choice(ev)
                    s["faults"] = [[0, 1, e[0], rng.choice([5, 28, 13, 24])]]
        yield s


def judge(W, s):
    vd = Verdict()
    last = s["seq"][-1]
    ref, data = W.ref(dict(s, seq=[last]), key="solo")
    if not ref.res.seq or ref.res.seq[-1][0] not in (0, 3, 4, 6, 7, 5, 10, 1, 2):
        return vd
    W.load(s)
    # faults are indexed from the start of the sequence and placed before its last conversion
    o = W.run([dict(seq=s["seq"], shared=s.get("shared", 0), cwd="/w", env=s.get("env") or dict(HOME="/home/vega", PATH="/usr/bin:/bin"))],
              knobs={"oplimit": 200000 * len(s["seq"]) + ref.res.info["ops"] * 10}, faults=s["faults"])
    if len(o.res.seq) < len(s["seq"]):
        W.st["probes"]["history_ended_early"] += 1
        return vd
    vd.nontrivial = True
    W.st["probes"]["failed_predecessor"] += any(q[0] for q in o.res.seq[:-1])
    for i, q in enumerate(o.res.seq):
        if q[1]:
            vd.add("fd-leak", "%d descriptor(s) stay open after conversion %d (status %d) of %s; %s" % (
                q[1], i + 1, q[0], s["history"] + [s["deck"]], desc(o)))
            break
    if o.res.seq[-1][0] != ref.res.seq[-1][0]:
        vd.add(("exit-shared" if s.get("shared") else "exit") + ":%s->%s" % (ref.res.seq[-1][0], o.res.seq[-1][0]), "conversion status %s instead of %s when made after %s" % (
            o.res.seq[-1][0], ref.res.seq[-1][0], s["history"]))
        return vd
    outdir = "/w/" + last[last.index("-o") + 1] + "/"
    if o.res.seq[-1][0] in (0, 10):
        bad = [p for p in W.diff(o, ref, data, only=lambda p: p.startswith(outdir))
               if p not in o.ls or p not in data or W.skeleton(p, W.v.get(p)) != W.skeleton(p, data[p])]
        if bad:
            vd.add(("hist-shared:" if s.get("shared") else "hist:") + suffix(bad[0], s),
                   "%s differs from what the conversion writes alone when made after %s%s" % (
                       bad[0], s["history"], " by the same converter object" if s.get("shared") else ""))
    return vd
