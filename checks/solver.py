"""Simulated solvers behind --run-solver: scenarios, their programs, and what vegapp has to say about them."""
import copy
from checks.common import *

OUTS = ["out", "out", "out", ".", ".", ".", "/w/out", "new/dir", "my out", "o'ut", "a.b/c", "out.d", "a&b", "a;b", "$HOME", "x(1)", "-o", 'q"q']
CMDS = [None, None, None, "as_run --nodebug", "/opt/aster/bin/as_run", "  as_run "]
FIRST = {"ASTER": "as_run", "SYSTUS": "systus", "NASTRAN": "nastran"}


def renamed(d, rng):
    """the study under another file name"""
    if d.includes() and any(d.main in x for x in d.includes()):
        return d
    stem, ext = d.main.rsplit(".", 1) if "." in d.main else (d.main, "nas")
    new = rng.choice([stem, stem, stem, "my study", "st;udy", "a&b", "it's", "x_ALL_y", "a.b", "st$udy", "s(1)", stem + "_SC1"])
    if new == stem:
        return d
    d = copy.copy(d)
    files = dict(d.files)
    files[new + "." + ext] = files.pop(d.main)
    d.files, d.main = files, new + "." + ext
    if d.test:
        te = d.test.rsplit(".", 1)[1]
        if new + "." + te != d.main:
            d.files[new + "." + te] = d.files.pop(d.test)
            d.test = new + "." + te
    return d


def study(prop, kind, d, w, rng, opts=(), plain=False):
    out = "out" if plain else rng.choice(OUTS)
    d = d if plain else renamed(d, rng)
    opts = list(opts) + ["-R"]
    cmd = None
    if w == "ASTER" and not plain:
        cmd = rng.choice(CMDS)
        if cmd:
            opts += ["--solver-command", cmd]
    if not plain and rng.random() < 0.15:
        opts += ["--solver-server", rng.choice(["localhost", "127.0.0.1"])]
    av_out = "./-o" if out == "-o" else out
    s = scn(prop, kind, d, w, opts, out=av_out, layout="in")
    if d.main.startswith("-") or any(c in d.main for c in "\"'"):
        pass
    s["prog"] = (cmd or FIRST[w]).split()[0].rsplit("/", 1)[-1]
    s["cmdprog"] = (cmd or FIRST[w]).split()[0]
    import posixpath
    s["outdir"] = posixpath.normpath(posixpath.join("/w", out))
    s["product"] = "topaze" if "topaze" in opts else "systus"
    return s


def text(kind, n=40, pos=0.5):
    """contents of a result file"""
    L = [" OK   DEPL_R         %8d  1.00000E+00  1.00000E+00  0.1%%" % i for i in range(n)]
    if kind == "empty":
        return ""
    if kind == "nook":
        L[min(n - 1, int(pos * n))] = ["NOOK  DEPL_R       1.0000E+00  3.0000E+00 66.7%", "  NODE 12 DX          NOOK  66.7%",
                                       " OK  1.0   NOOK", "NOOK", " " * 300 + "NOOK", "\tNOOK 3 OK"][int(pos * 6e6) % 6]
    if kind == "nook_last":
        return "\n".join(L) + "\nNOOK"
    return "\n".join(L) + "\n"


def listing(kind, n=30, pos=0.5):
    L = ["step %d done" % i for i in range(n)]
    if kind == "error":
        L[int(pos * n) % n] = " *** ERROR 1234: singular matrix"
    if kind == "error_last":
        return "\n".join(L) + "\nFATAL ERROR"
    if kind == "noerror":
        L[int(pos * n) % n] = " END OF JOB: NO ERROR"
    return "\n".join(L) + "\n"


def program(s, b, snap=None):
    """the script of one start of the solver.  b: ret (wait status), res, out, n, pos, missing"""
    st = s["stem"]
    n, pos = b.get("n", 40), b.get("pos", 0.5)
    do = [["N"]]
    if snap:
        do.append(["C", snap])
    if b.get("out"):
        do.append(["O", listing(b["out"], n, pos)])
    miss = b.get("missing", ())
    if b.get("res"):
        if s["writer"] == "ASTER":
            fs = [(".mess", listing("plain")), (".resu", text(b["res"], n, pos)), (".rmed", "\x89HDF" + "x" * 40)]
        elif s["writer"] == "SYSTUS":
            fs = [("_SC1_DATA1.TIT", "t" * 50), ("_SC1_DATA1.fdb", "f" * 50)]
            bad = b.get("bad", 1)
            fs += [("_%d.RESU" % i, text(b["res"] if i == bad or not b["res"].startswith("nook") else "ok", n, pos)) for i in range(1, max(b.get("tests", 1), bad) + 1)]
        else:
            fs = [("_vg.f06", listing("plain")), ("_vg.f04", "x\n"), ("_vg.log", "x\n")]
        for e, t in fs:
            if e not in miss:
                do.append(["W", st + e, t])
    return dict(prog=s["prog"], ret=b.get("ret", 0), advance=b.get("advance", 10 ** 9), do=do)


def classify(raw):
    """documented status for the wait status of a solver that did not end with 0"""
    if raw & 0x7f:
        return 102
    c = raw >> 8
    return 100 if c == 127 else 102 if 129 <= c <= 165 else 103


def expected(s, behs, runs):
    """status vegapp has to end with after a good conversion: behs = behaviours of the starts, in order; runs = number of data sets"""
    w = s["writer"]
    if not s.get("exists", True):
        return {100}
    for i in range(runs):
        b = behs[i % len(behs)]
        raw = b.get("ret", 0)
        if raw:
            c = classify(raw)
            if w == "ASTER" and raw == 4 << 8:
                c = 101
            ok = {c}
            if w == "SYSTUS" and b.get("out") in ("error", "error_last") and s["product"] == "systus":
                ok.add(103)          # the listing also reports an error
            return ok
        if w == "SYSTUS" and b.get("out") in ("error", "error_last"):
            return {103}
    if w == "NASTRAN":
        return {0}
    res = [behs[i % len(behs)] for i in range(runs)]
    if w == "ASTER":
        b = res[0]
        if not b.get("res") or ".resu" in b.get("missing", ()):
            return {104}
        return {105} if b["res"].startswith("nook") else {0}
    if s["product"] == "systus":
        b = res[0]
        if not b.get("res") or {"_SC1_DATA1.TIT", "_SC1_DATA1.fdb"} <= set(b.get("missing", ())):
            return {104}
        if {"_SC1_DATA1.TIT", "_SC1_DATA1.fdb"} & set(b.get("missing", ())):
            return {0, 104} if not (b["res"].startswith("nook") and "_%d.RESU" % b.get("bad", 1) not in b.get("missing", ())) else {104, 105}
    last = [b for b in res if b.get("res") and "_%d.RESU" % b.get("bad", 1) not in b.get("missing", ())]
    if last and last[-1]["res"].startswith("nook"):
        return {105}
    return {0, 105} if any(b["res"].startswith("nook") for b in last) else {0}     # (a later data set overwrote the results)


def behaviour(rng, w, good=False):
    b = dict(ret=0, res="ok", n=rng.choice([1, 3, 40, 40, 400, 3000]), pos=rng.random())
    if w == "SYSTUS":
        b["out"] = rng.choice(["plain", "plain", "noerror", None])
        b["tests"] = rng.choice([1, 1, 2, 3, 12])
        b["bad"] = rng.randrange(1, b["tests"] + 1)
    else:
        b["out"] = rng.choice(["plain", None, "error"])
    if good:
        return b
    r = rng.random()
    if r < 0.4:
        b["ret"] = rng.choice([1, 2, 3, 4, 4, 5, 64, 126, 127, 128, 129, 130, 134, 137, 139, 143, 165, 166, 200, 254, 255, rng.randrange(1, 256)]) << 8
        if rng.random() < 0.3:
            b["res"] = None
    elif r < 0.48:
        b["ret"] = rng.choice([2, 4, 6, 8, 9, 11, 15, 6 | 0x80, 11 | 0x80])
    elif r < 0.6:
        b["res"] = None
    elif r < 0.72:
        b["missing"] = rng.choice({"ASTER": [[".resu"], [".mess"], [".rmed"]], "NASTRAN": [["_vg.f06"]],
                                   "SYSTUS": [["_1.RESU"], ["_%d.RESU" % b.get("bad", 1)], ["_SC1_DATA1.TIT", "_SC1_DATA1.fdb"], ["_SC1_DATA1.fdb"], ["_SC1_DATA1.TIT"]]}[w])
    elif r < 0.9:
        b["res"] = rng.choice(["nook", "nook", "nook_last", "empty"])
    elif w == "SYSTUS":
        b["out"] = rng.choice(["error", "error_last"])
    return b


def datasets(s, ref):
    """how many times the solver has to be started"""
    if s["writer"] == "SYSTUS" and s["product"] == "topaze":
        import re
        pre = re.escape(s["outdir"].rstrip("/") + "/" + s["stem"])
        return len([p for p in ref.ls if p not in s["files"] and re.fullmatch(pre + r"_SC\d+\.DAT", p)])
    return 1


def without_R(s):
    av = [a for a in s["argv"] if a != "-R"]
    return dict(s, argv=av, sys=[])
