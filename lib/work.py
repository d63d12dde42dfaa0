"""Workloads: a study (deck) plus a way of invoking vegapp on it."""
import os
import corpus


def lat(b):
    return b.decode("latin-1") if isinstance(b, bytes) else b


def scn(prop, kind, deck, writer, opts=(), cfg=None, test=True, out="out", layout="in", pre=None, env=None):
    """self-contained scenario (everything a replay needs)"""
    base = "/w/in/" if layout == "in" else "/w/"
    rel = "in/" if layout == "in" else ""
    files = {base + f: lat(b) for f, b in deck.files.items() if test or f != deck.test}
    av = ["vegapp"]
    if out is not None:
        av += ["-o", out]
    if cfg is not None:
        files["/w/vega.cfg"] = cfg
        av += ["-c", "vega.cfg"]
    if test and deck.test:
        av += ["-t", rel + deck.test]
    av += list(opts) + [rel + deck.main, deck.fmt, writer]
    for p, b in (pre or {}).items():
        files[p] = lat(b)
    s = dict(prop=prop, kind=kind, deck=deck.name, stem=os.path.splitext(deck.main)[0], writer=writer, files=files, argv=av,
             outdir="/w/" + (out or "."), test=bool(test and deck.test))
    if env:
        s["env"] = env
    return s


OPTS = {
    "ASTER": [[], ["--strict"], ["-m"], ["--verbosity", "WARN"], ["--convertCompletelyRigidsIntoMPCs", "0"], ["-x", "0.1"],
              ["--solver-version", "13.0"], ["-l"], ["-b"], ["--graph", "--verbosity", "TRACE"]],
    "SYSTUS": [[], ["--systus.RBE2TranslationMode", "lagrangian"], ["--systus.OptionAnalysis", "3D"],
               ["--systus.OptionAnalysis", "shell"], ["--systus.OptionAnalysis", "shell-multi"],
               ["--systus.OutputProduct", "topaze"], ["--systus.OutputMatrix", "file"],
               ["--systus.OutputMatrix", "file", "--systus.SizeMatrix", "6"], ["--systus.DynamicMethod", "modal"],
               ["--systus.DynamicMethod", "direct"], ["--systus.RBEStiffness", "1000.0"], ["--systus.RBECoefficient", "5"],
               ["--systus.Subcase", "auto"], ["--systus.Subcase", "single"], ["--systus.Subcase", "1,2"],
               ["--convertCompletelyRigidsIntoMPCs", "1"], ["--strict"], ["-m"]],
    "NASTRAN": [[], ["--nastran.OutputDialect", "modern"], ["--strict"], ["-m"], ["--nastran.OutputDialect", "modern", "--verbosity", "ERROR"]],
}


def studies():
    return corpus.load()
