"""Environment independence: what a conversion writes depends on its input files and options only."""
from checks.common import *
import corpus

ID = "D01"
RULE = ("one scenario = one study x writer x options run in two simulated environments that differ in heap placement, reuse order and "
        "stale contents, stack residue, directory enumeration order, read/write transfer sizes, clock, random source, console and "
        "environment variables; non-trivial = the run got past reading its input; distinct = distinct event-history hash")
ASSUME = ["HDF5 object timestamps in .med and the date line of .ASC files follow the clock and are not compared when the clock is varied",
          "libmed and libhdf5 run for real"]
BUDGET = {"quick": 240, "thorough": 3000}


def tasks(tier, seed):
    return [[d.name, w, 8 if tier == "quick" else 60] for d in all_studies() for w in ("ASTER", "SYSTUS", "NASTRAN")]


def world_knobs(rng):
    k = {}
    k["heapmode"] = rng.choice([0, 1, 1, 2, 3])
    k["fillmode"] = rng.choice([1, 2, 3, 3, 4])
    k["heapseed"], k["fillseed"], k["stackseed"] = rng.randrange(1 << 20), rng.randrange(1 << 20), rng.randrange(1 << 20)
    k["scribble"] = rng.choice([0, 1])
    k["dirmode"], k["dirseed"] = rng.choice([0, 1, 2]), rng.randrange(1 << 20)
    if rng.random() < 0.3:
        k["chunk"], k["chunkseed"] = rng.choice([7, 100, 1000, 5000]), rng.randrange(1 << 20)
    k["randseed"] = rng.randrange(1 << 20)
    if rng.random() < 0.3:
        k["consolemode"] = 1
    if rng.random() < 0.3:
        k["clock0"] = rng.choice([0, 951782399, 1709164799, 2147483640, 4102444800, rng.randrange(1 << 32)])
        k["tick"] = rng.choice([0, 1, 10 ** 6, 10 ** 9, 86400 * 10 ** 9])
    return k


ENVS = [{"HOME": "/home/vega", "PATH": "/usr/bin:/bin", "LANG": "fr_FR.UTF-8", "LC_ALL": "de_DE.UTF-8", "TZ": "Asia/Tokyo"},
        {"HOME": "/w", "PATH": "/bin"}, {"HOME": "/nonexistent", "LC_NUMERIC": "fr_FR", "OMP_NUM_THREADS": "3", "USER": "root"},
        {"HOME": "/home/vega", "PATH": "/usr/bin:/bin", "COLUMNS": "40", "HDF5_USE_FILE_LOCKING": "FALSE"}]


def explore(W, task, rng, tier):
    name, w, n = task
    d = deck(name)
    for i in range(n):
        s = scn(ID, "env", corpus.variant(d, rng) if rng.random() < 0.5 else d, w, rng.choice(OPTS[w]) if i else [], out=rng.choice(["out", "out", "a/b", "."]))
        s["knobs"] = world_knobs(rng)
        if rng.random() < 0.3:
            s["env2"] = rng.choice(ENVS)
        yield s


def judge(W, s):
    vd = Verdict()
    ref, data = W.ref(s)
    if ref.exit == 8:
        return vd
    W.load(s)
    r = root_of(s)
    if s.get("env2"):
        r = dict(r, env=s["env2"])
    o = W.run([r], knobs=dict(s["knobs"], **limits(ref, chunked="chunk" in s["knobs"])))
    vd.nontrivial = o.res.info["ops"] > 10
    W.st["probes"]["ref_exit_%d" % ref.exit] += 1
    if o.exit != ref.exit:
        vd.add("exit:%s->%s" % (ref.exit, o.exit), "exit status %s instead of %s in another environment (%s)" % (o.exit, ref.exit, kn(s)))
        return vd
    if o.exit in (0, 10):
        bad = W.diff(o, ref, data, mask_date="clock0" in s["knobs"] or bool(s.get("env2")))
        if bad:
            vd.add("env:" + suffix(bad[0], s), "%s depends on the environment (%s)" % (bad[0], kn(s)))
    else:
        # a failed run still fails the same way and leaves the same set of files
        bad = [p for p in sorted(set(o.ls) ^ set(ref.ls))]
        if bad:
            vd.add("env-set:" + suffix(bad[0], s), "after exit %d, %s exists or not depending on the environment (%s)" % (o.exit, bad[0], kn(s)))
    return vd


def kn(s):
    return ", ".join("%s=%s" % kv for kv in sorted(s["knobs"].items())) + (", other environment variables" if s.get("env2") else "")
