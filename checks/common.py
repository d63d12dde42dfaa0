"""Judges shared by several properties."""
import os
from engine import Verdict
from world import root_of, limits, resolve, suffix, sites, DOCUMENTED
from work import scn, OPTS, studies, lat

_ST = None


def all_studies():
    global _ST
    if _ST is None:
        _ST = studies()
    return _ST


def deck(name):
    return next(d for d in all_studies() if d.name == name)


def judge_fault(W, s, what):
    """A fault must never turn into a silent success: exit 0 only with exactly the fault-free outputs."""
    vd = Verdict()
    ref, data = W.ref(s, s.get("knobs"))
    if ref.exit != 0:
        return vd
    fs = [resolve(f, ref) for f in s["faults"]]
    fs = [f for f in fs if f]
    W.load(s)
    o = W.run([root_of(s)], knobs=dict(s.get("knobs") or {}, **limits(ref)), faults=fs)
    vd.nontrivial = bool(o.res.faults)
    bad_in = [p for p in s["files"] if o.ls.get(p) != ref.ls.get(p)]
    if bad_in:
        vd.add("input-changed", "%s was changed by the run" % bad_in[0])
    if o.res.info["budget"] in (1, 2):
        vd.add("no-termination", "the run did not end after %s" % desc(o))
    elif o.exit == 0:
        bad = W.diff(o, ref, data, ignore=set(s["files"]))
        if bad:
            vd.add("silent:" + suffix(bad[0], s), "exit 0 although %s: %s %s what a fault-free run writes" % (
                desc(o), bad[0], "is missing, unlike" if bad[0] not in o.ls else "differs from"))
    return vd


def desc(o):
    return "; ".join("%s failed (%s)" % (w, __import__("vsim").FNAME.get(k, k)) for k, w in o.res.faults[:3]) or "no fault fired"


def slices(k, writers, n):
    """tasks [names of a 1/k slice of the studies, writer, scenarios]"""
    st = all_studies()
    return [[[d.name for d in st[i::k]], w[0], n] for i in range(k) for w in writers]
