"""Several vegapps at work in the same directories do not disturb each other."""
import copy, posixpath
from checks.common import *

ID = "C03"
RULE = ("one scenario = 2-3 vegapps started together on studies that share the input directory, the output directory, include files, or the study "
        "itself (other format, other directory), every operation of all of them interleaved by a seeded scheduler, some of them killed; each is "
        "compared with the same conversion made alone; non-trivial = the scheduler switched between them; distinct = distinct event-history hash")
ASSUME = ["two conversions write different files (the same study in the same format into the same directory is excluded)",
          "the HDF5 library's file locks are advisory and per file"]
BUDGET = {"quick": 240, "thorough": 3000}


def tasks(tier, seed):
    st = all_studies()
    return [[[d.name for d in st[i::12]], n] for i in range(12) for n in [30 if tier == "quick" else 800] * 3]


def rename(d, stem):
    d = copy.copy(d)
    ext = d.main.rsplit(".", 1)[1]
    files = dict(d.files)
    files[stem + "." + ext] = files.pop(d.main)
    d.main, te = stem + "." + ext, d.test
    if te:
        d.test = stem + "." + te.rsplit(".", 1)[1]
        files[d.test] = files.pop(te)
    d.files = files
    return d


def explore(W, task, rng, tier):
    names, n = task
    st = all_studies()
    for k in range(n):
        d1 = deck(rng.choice(names))
        r = rng.random()
        ws = [rng.choice(["ASTER", "SYSTUS", "NASTRAN"]) for _ in range(3)]
        m = rng.choice([2, 2, 2, 3])
        out = rng.choice(["out", "out", "new/dir", "."])
        outs = [out] * m
        if r < 0.5:            # other studies, names that begin alike
            ds = [d1] + [rng.choice(st) for _ in range(m - 1)]
            base = rng.choice(["a", "beam", "x_SC1"])
            stems = rng.sample([base, base + "2", base + "_1", base + "_b", "SYSTUS1"], m) if rng.random() < 0.6 else ["s%d" % i for i in range(m)]
            ds = [rename(d, stems[i]) for i, d in enumerate(ds)]
        elif r < 0.75:         # the study in several formats
            m = min(m, 3)
            ds = [d1] * m
            ws = rng.sample(["ASTER", "SYSTUS", "NASTRAN"], 3)
        else:                  # into several directories
            ds = [d1] * m
            ws = [ws[0]] * 3
            outs = rng.choice([["out", "out2", "out3"], ["new/dir", "new/dir2", "new"], [".", "out", "in"]])[:m]
        if any(f in ds[j].files and ds[j].files[f] != b for i in range(m) for j in range(i) for f, b in ds[i].files.items()):
            continue           # include files of the same name that differ
        ss = [scn(ID, "concurrent", ds[i], ws[i], rng.choice(OPTS[ws[i]]) if rng.random() < 0.4 else [], out=outs[i]) for i in range(m)]
        files = {}
        for s in ss:
            files.update(s["files"])
        s = dict(ss[0], files=files, runs=[dict(argv=x["argv"], stem=x["stem"], outdir=x["outdir"]) for x in ss])
        s["knobs"] = dict(sched=rng.choice([30, 150, 500, 950]), schedseed=rng.randrange(1 << 30))
        if rng.random() < 0.2:
            s["knobs"].update(chunk=rng.choice([512, 4096]), chunkseed=rng.randrange(1 << 30))
        s["faults"] = []
        if rng.random() < 0.3:
            s["faults"] = [["frac", rng.randrange(10000), rng.choice([3, 9, 5, 1, 1]), 9]]
        yield s


def judge(W, s):
    vd = Verdict()
    refs = [W.ref(dict(s, argv=r["argv"])) for r in s["runs"]]
    W.load(s)
    tot = sum(r.res.info["ops"] for r, _ in refs)
    fs = [(0, f[2], f[1] * tot // 10000, 5 if f[2] == 1 else 9) for f in s["faults"]]
    lim = limits(refs[0][0], chunked=bool(s["knobs"].get("chunk")))
    lim["steplimit"] = max(limits(r)["steplimit"] for r, _ in refs)
    lim["oplimit"] = sum(limits(r, chunked=bool(s["knobs"].get("chunk")))["oplimit"] for r, _ in refs)
    o = W.run([root_of(dict(s, argv=r["argv"])) for r in s["runs"]], knobs=dict(s["knobs"], **lim), faults=fs)
    vd.nontrivial = o.res.info["preempts"] > 2
    W.st["probes"]["concurrent_vegapps"] += len(s["runs"])
    if o.res.info["budget"] or o.res.info["deadlock"]:
        vd.add("no-termination", "the conversions did not all end")
        return vd
    bad_in = [p for p in s["files"] if o.ls.get(p) != refs[0][0].ls.get(p)]
    if bad_in:
        vd.add("input-changed", "%s was changed" % bad_in[0])
    spoilt = set()
    for i, (ref, data) in enumerate(refs):
        if o.exits[i] != ref.exit and o.res.faults:
            spoilt |= {p for p in ref.ls if p not in s["files"]}
    for i, (ref, data) in enumerate(refs):
        r = s["runs"][i]
        if o.exits[i] != ref.exit:
            if not o.res.faults:
                vd.add("status:%s-%s" % (ref.exit, o.exits[i]), "%s ended with %d beside %s, and with %d alone: %s" % (
                    " ".join(r["argv"]), o.exits[i], "; ".join(" ".join(x["argv"][1:]) for x in s["runs"] if x is not r), ref.exit, o.res.err(i).decode("latin-1")[-150:].replace("\n", " ")))
            continue
        mine = {p for p in ref.ls if p not in s["files"]}
        bad = W.diff(o, ref, data, only=lambda p: p in mine and ref.ls[p][0] == 1 and not (p in spoilt and shared(p, refs, s)), mask_date=True)
        if bad:
            vd.add("output:" + suffix(bad[0], r), "%s is not what the conversion writes alone (%s)" % (bad[0], desc(o)))
    return vd


def shared(p, refs, s):
    """a copy of an input file that several conversions make"""
    return sum(p in r.ls for r, _ in refs) > 1
