"""vegapp touches nothing but the files of its own study in its output directory."""
import posixpath
from checks.common import *
from checks.solver import renamed, behaviour, datasets, program, FIRST, without_R

ID = "I01"
RULE = ("one scenario = one study x writer x options translated (with or without --run-solver) among files of other studies, in the output directory "
        "and elsewhere, while operations fail or the program is killed in a seeded way, possibly twice in a row; every file and directory of the "
        "simulated machine is compared with before; non-trivial = the run wrote or a fault fired; distinct = distinct event-history hash")
ASSUME = ["the files of a study in the output directory begin with its name, apart from the copies of the study and of its test results",
          "SYSTUS*.DAT in the output directory, except the data of a study, are work files of the SYSTUS solver"]
BUDGET = {"quick": 240, "thorough": 3000}
ENDS = [".export", ".comm", ".med", ".mess", ".resu", ".rmed", ".stdout", ".stderr", "_vg.nas", "_vg.f06", "_ALL.DAT", "_SC1.DAT", "_SC2.DAT", "_SC1_DATA1.ASC",
        "_SC1_DATA1.TIT", "_SC1_DATA1.fdb", "_1.RESU", "_ALL.stdout", ".txt", ".nas", ".f06", ".csv", ".tmp", "~", ".bak", "_repe_out/keep"]
ERR = {"write": [28, 5], "openw": [13, 28], "close": [28, 5], "mkdir": [13, 28], "read": [5], "openr": [13, 5], "rename": [13, 28], "unlink": [13, 16],
       "stat": [13, 5], "opendir": [13], "readdir": [5], "trunc": [28], "system": [11]}


def tasks(tier, seed):
    return slices(12, [["ASTER"], ["SYSTUS"], ["NASTRAN"]], 60 if tier == "quick" else 1500)


def explore(W, task, rng, tier):
    names, w, n = task
    for k in range(n):
        d = deck(rng.choice(names))
        if rng.random() < 0.3:
            d = renamed(d, rng)
        opts = list(rng.choice(OPTS[w]) if rng.random() < 0.5 else [])
        if w == "SYSTUS" and rng.random() < 0.3:
            opts += ["--systus.OutputProduct", "topaze"]
        solve = rng.random() < 0.5
        s = scn(ID, "confined", d, w, opts + (["-R"] if solve else []), out=rng.choice(["out", "out", "new/dir", ".", "in", "out.d", "v1.0/r"]),
                layout=rng.choice(["in", "in", "."]), cfg=rng.choice([None, None, "# nothing\n"]))
        s["outdir"] = posixpath.normpath(s["outdir"])
        s["product"] = "topaze" if "topaze" in opts else "systus"
        s["prog"] = FIRST[w]
        if solve:
            s["behs"] = [behaviour(rng, w)]
        st = s["stem"]
        other = ([st.split(".")[0]] * 3 if "." in st else []) + ["out", "v1", st + "2", st + "b", "x" + st, st[:-1] or "q", "other", "SYSTUS_beam", st + "-1", st.upper() + "Z"]
        for t in sorted(set(rng.sample(other, 4))):
            for e in rng.sample(ENDS, 9):
                for dr in rng.sample([s["outdir"], "/w", "/w/in", "/home/vega", "/w/elsewhere", "/tmp"], 2) + [s["outdir"]]:
                    p = posixpath.join(dr, t + e)
                    if p not in s["files"]:
                        s["files"][p] = "%s of another study\n" % e
        for t in ("out", "v1", posixpath.basename(s["outdir"])):
            for e in (".resu", ".mess", ".f06", ".log", ".stdout"):
                p = posixpath.join(posixpath.dirname(s["outdir"]), t + e)
                if p not in s["files"] and t != st:
                    s["files"][p] = "%s of another study\n" % e
        s["runs"] = rng.choice([1, 1, 2])
        s["faults"] = []
        if rng.random() < 0.7:
            ref, _ = W.ref(without_R(s))
            c = [e for e in ref.trace if e[2] in ERR]
            if c:
                e = rng.choice([x for x in c if x[2] == rng.choice(sorted({y[2] for y in c}))] or c)
                k = rng.choice([1, 1, 6, 3, 9, 5])
                at = e[0] if rng.random() < 0.8 or not solve else ref.res.info["ops"] + rng.randrange(40)
                s["faults"] = [[0, k, at, 9 if k in (3, 9, 5) else rng.choice(ERR[e[2]])]]
        yield s


def judge(W, s):
    vd = Verdict()
    ref, data = W.ref(without_R(s))
    W.load(s)
    before = W.v.ls()
    out = s["outdir"]
    n = datasets(s, ref) if s.get("behs") else 0
    own = {p for p in ref.ls if p not in s["files"]}
    copies = {posixpath.basename(p) for p in s["files"] if p.endswith(tuple("/" + a.rsplit("/", 1)[-1] for a in s["argv"] if "." in a and not a.startswith("-")))}
    for i in range(s["runs"]):
        sys = [program(s, s["behs"][0]) for _ in range(n + 1)] if s.get("behs") else []
        o = W.run([root_of(s)], knobs=dict(limits(ref), randseed=i + 1), faults=[tuple(f) for f in s["faults"]], sys=sys)
        if o.res.info["budget"]:
            vd.add("no-termination", "the run did not end after %s" % desc(o))
            return vd
        after = o.ls
        vd.nontrivial = True
        for p, a in sorted(before.items()):
            if a[0] == 2:
                if p not in after:
                    vd.add("dir-removed", "the directory %s was removed" % p)
                continue
            if after.get(p) != a and a[0] == 1 and p in s["files"] and p not in own:
                vd.add("%s:%s" % ("removed" if p not in after else "changed", "input" if "of another study" not in s["files"][p] else posixpath.splitext(p)[1] or "file"),
                       "%s, which is not a file of this conversion, was %s (%s; exit %d)" % (p, "removed" if p not in after else "changed", desc(o), o.exit))
        for p, a in sorted(after.items()):
            if p in before or p in own:
                continue
            b = posixpath.basename(p)
            if a[0] == 2 and (out == p or out.startswith(p + "/")):
                continue
            if not p.startswith(out.rstrip("/") + "/") or not (b.startswith((s["stem"] + ".", s["stem"] + "_")) or any(c in b for c in copies)
                                                               or posixpath.basename(posixpath.dirname(p)) == s["stem"] + "_repe_out"):
                vd.add("stray", "%s was created (%s; exit %d)" % (p, desc(o), o.exit))
    return vd
