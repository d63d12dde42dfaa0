"""Exit status contract of the parent process."""
from checks.common import *
from world import DEF_ENV

ID = "C02"
RULE = ("one scenario = one command line (valid or wrong in one documented way) run as parent and child under a seeded schedule with "
        "faults at fork, wait, mkdir or a crash of the child at a chosen operation; the status is compared with a model: the status the "
        "conversion itself returns when called directly, 8 after a crash, 9 when there is no child; non-trivial = a fault fired, the "
        "schedule preempted a process, or a documented error situation was set up; distinct = distinct event-history hash")
ASSUME = ["the conversion called directly in one process (VegaCommandLine::process) is the reference for the status of a run without crash",
          "a signal sent to the parent itself is not covered"]
BUDGET = {"quick": 240, "thorough": 3000}
DECK = """SOL 101
CEND
SUBCASE 1
  SPC = 1
  LOAD = 2
BEGIN BULK
GRID,1,,0.,0.,0.
GRID,2,,1.,0.,0.
CROD,1,1,1,2
PROD,1,1,1.0
MAT1,1,2.+11,,0.3
SPC1,1,123456,1
FORCE,2,2,,1.,1.,0.,0.
ENDDATA
"""
STRICT = {
    # name -> (edit of DECK, writers, status documented for --strict)
    "unknownkeyword": (("PROD,1", "FOOBAR,1,2\nPROD,1"), ("ASTER", "SYSTUS", "NASTRAN"), 6),
    "badnumber": (("GRID,2,,1.", "GRID,2,,x1"), ("ASTER", "SYSTUS", "NASTRAN"), 6),
    "unknownanalysis": (("SOL 101", "SOL 777"), ("ASTER", "SYSTUS", "NASTRAN"), 6),
    "invalid": (("LOAD = 2", "LOAD = 3"), ("NASTRAN",), 5),
    "incomplete": (("CROD,1,1", "CROD,1,77"), ("SYSTUS",), 10)}
AFTER = ("open", "close", "read", "write", "stat", "fstat", "mkdir", "unlink", "rename", "system")   # seams that implement kill_after
SIGNALS = [9, 9, 15, 15, 1, 2, 3, 6, 8, 10, 12, 13, 14, 24, 25, 31]
SITUATIONS = {
    # name -> status documented in VegaCommandLine.h
    "noinput": 2, "missinginput": 2, "missingtest": 2, "badoption": 4, "badvalue": 4, "badformat": 4, "badout": 4,
    "nooutdir_ro": 3, "nooutdir_file": 3, "nooutdir_fault": 3, "help": 0, "version": 0}


def tasks(tier, seed):
    return [[d.name, w, 10 if tier == "quick" else 120] for d in all_studies() for w in ("ASTER", "SYSTUS", "NASTRAN")]


def sched(rng):
    return {"sched": rng.choice([0, 50, 300, 900]), "schedseed": rng.randrange(1 << 20), "sigchld": int(rng.random() < 0.2)}


def waitfaults(rng):
    return [["op", "wait", rng.choice([0, 0, 1]), 1, 4] for _ in range(rng.choice([0, 0, 1, 2]))]


def explore(W, task, rng, tier):
    name, w, n = task
    d = deck(name)
    for i in range(n):
        s = scn(ID, "status", d, w, rng.choice(OPTS[w]) if i % 3 else [], test=rng.random() < 0.7)
        s["knobs"] = sched(rng)
        s["faults"] = []
        r = rng.random()
        if r < 0.3:
            s["mode"] = "crash"
            kind = rng.choice([3, 3, 3, 5, 10, 9])
            s["faults"] = [["frac", rng.randrange(10000), kind, rng.choice(SIGNALS) if kind in (3, 9) else 0]]
        elif r < 0.4:
            s["mode"] = "fork"
            s["faults"] = [["op", "fork", 0, 1, rng.choice([11, 12])]]
        elif r < 0.47:
            s["mode"] = "lostchild"
            s["faults"] = [["op", "wait", 0, rng.choice([1, 6]), 10]]
        elif r < 0.7:
            s["mode"] = "plain"
            s["wait_eintr"] = rng.choice([0, 1, 2, 5])
        elif r < 0.76:
            k = rng.choice(sorted(STRICT))
            (a, b), ws, _ = STRICT[k]
            s = dict(s, mode=k, files={"/w/in/study.nas": DECK.replace(a, b)}, writer=rng.choice(ws), stem="study", test=False, wait_eintr=rng.choice([0, 0, 1]))
            s["argv"] = ["vegapp", "-o", "out", "--strict", "in/study.nas", "NASTRAN", s["writer"]]
        elif r < 0.8:
            s["mode"] = "diskfull"
            s["files"] = {"/w/in/study.nas": DECK}
            s["argv"] = ["vegapp", "-o", "out"] + rng.choice([[], ["--strict"], ["-m"]]) + ["in/study.nas", "NASTRAN", w]
            s["faults"] = [["text", rng.randrange(100), 15, rng.choice([28, 122, 5])]]
        else:
            k = rng.choice(sorted(SITUATIONS))
            s["mode"] = k
            s["wait_eintr"] = rng.choice([0, 0, 1])
            av, st = s["argv"], s["stem"]
            m = av.index(next(a for a in av if a.startswith("in/") and a.endswith(d.main)))
            if k == "noinput":
                s["argv"] = av[:m]
            elif k == "missinginput":
                s["argv"] = av[:m] + ["in/absent_" + d.main] + av[m + 1:]
            elif k == "missingtest":
                s["argv"] = ["vegapp", "-t", "in/absent.f06"] + [a for a in av[1:] if not (a.endswith((".f06", ".csv")) or a == "-t")]
            elif k == "badoption":
                s["argv"] = ["vegapp", "--no-such-option"] + av[1:]
            elif k == "badvalue":
                s["argv"] = ["vegapp"] + rng.choice([["--systus.OutputProduct", "nope"], ["--tolerance", "abc"], ["--nastran.OutputDialect", "x"],
                                                      ["--systus.SizeMatrix", "1"], ["--systus.OptionAnalysis", "5D"], ["--systus.Subcase", "a,b"],
                                                      ["--systus.RBE2TranslationMode", "zz"], ["--systus.DynamicMethod", "q"]]) + strip(av[1:])
            elif k == "badformat":
                s["argv"] = quiet(av[:m + 1]) + ["NOSUCH"] + av[m + 2:]
            elif k == "badout":
                s["argv"] = av[:m + 2] + ["NOSUCH"]
            elif k == "help":
                s["argv"] = ["vegapp", "--help"] + rng.choice([[], av[m:]])
            elif k == "version":
                s["argv"] = ["vegapp", "--version"]
            elif k == "nooutdir_ro":
                s["dirs"] = ["/w/ro"]
                s["modes"] = {"/w/ro": 0o555}
                s["argv"] = outdir(av, rng.choice(["ro/new", "ro/a/b"]))
            elif k == "nooutdir_file":
                s["files"]["/w/plain"] = "x"
                s["argv"] = outdir(av, "plain/new")
            elif k == "nooutdir_fault":
                s["argv"] = outdir(av, "fresh/dir")
                s["faults"] = [["op", "mkdir", 0, 1, rng.choice([13, 28, 30, 5, 40, 31, 122])]]
        yield s


def quiet(av):
    """without --verbosity DEBUG|TRACE, which asks for errors to be rethrown for a debugger (status 8)"""
    o, i = [], 0
    while i < len(av):
        if av[i] == "--verbosity":
            i += 2
            continue
        o += [av[i]] if av[i] not in ("-d", "--debug") else []
        i += 1
    return o


def strip(av):
    """drop --systus/--nastran options so that only the wrong one is there"""
    o, i = [], 0
    while i < len(av):
        if av[i].startswith(("--systus.", "--nastran.", "-x")):
            i += 2
            continue
        o.append(av[i])
        i += 1
    return o


def outdir(av, d):
    i = av.index("-o")
    return av[:i + 1] + [d] + av[i + 2:]


def judge(W, s):
    vd = Verdict()
    mode = s["mode"]
    ref, data = W.ref(dict(s, faults=[]))
    W.st["probes"]["mode_" + mode] += 1
    faults = []
    for f in s["faults"]:
        if f[0] == "op":
            ix = [e[0] for e in ref.trace if e[2] == f[1]]
            if ix:
                faults.append((0, f[3], ix[min(f[2], len(ix) - 1)], f[4]))
        elif f[0] == "text":      # every write from one to a text output on fails
            ix = [e[0] for e in ref.trace if e[2] == "write" and e[8].startswith("/w/out/") and e[8].endswith((".comm", ".export", ".DAT", ".ASC", "_vg.nas"))]
            if ix:
                faults.append((0, f[2], ix[f[1] * len(ix) // 100], f[3]))
        elif f[0] == "frac":
            ix = [e[0] for e in ref.trace if e[2] not in ("fork", "wait") and (f[2] != 9 or e[2] in AFTER)]
            if ix:
                faults.append((0, f[2], ix[f[1] * len(ix) // 10000], f[3]))
    k = dict(s["knobs"], **limits(ref))
    if s["faults"]:
        k["sched"] = 0          # so that the operation belongs to the process meant
    if s.get("wait_eintr"):
        w = [e[0] for e in ref.trace if e[2] == "wait"]
        # the parent waits right after fork under the default schedule, at an unknown operation otherwise
        faults += [(0, 1, w[0] + i, 4) for i in range(s["wait_eintr"])] if w else []
        k["sched"] = 0
    W.load(s)
    o = W.run([root_of(s)], knobs=k, faults=faults)
    fired = o.res.faults
    what = desc(o)
    # --- the model
    if mode == "fork":
        vd.nontrivial = bool(fired)
        if fired and o.exit != 9:
            vd.add("fork", "exit %s instead of 9 when no child process can be created" % o.exit)
        if fired and set(o.ls) - set(ref.ls) - set(s["files"]):
            vd.add("fork-files", "files written although there was no conversion process")
        return vd
    if mode == "crash":
        vd.nontrivial = bool(fired)
        if fired and o.exit != 8:
            vd.add("crash", "exit %s instead of 8 after the conversion process crashed at %s" % (o.exit, what))
        return vd
    if mode == "diskfull":
        vd.nontrivial = bool(fired)
        if fired and o.exit != 7:
            vd.add("diskfull:%s" % o.exit, "exit %s instead of 7 although writing failed: %s" % (o.exit, what))
        return vd
    if mode == "lostchild":
        vd.nontrivial = bool(fired)
        if fired and o.exit == 0:
            vd.add("lostchild", "exit 0 although the status of the conversion could not be obtained")
        return vd
    # direct call of the conversion, without parent
    d, _ = W.ref(dict(s, faults=[], seq=[s["argv"]], argv=None), key="direct") if mode == "plain" else (None, None)
    if mode == "plain":
        if not d.res.seq:
            want = d.exit if d.exit >= 0 else 8      # the conversion ended the process itself, or crashed
        else:
            want = d.res.seq[0][0]
            if want >= 1000:
                want = 8                             # an exception left the conversion
    else:
        want = SITUATIONS[mode] if mode in SITUATIONS else STRICT[mode][2]
    vd.nontrivial = bool(fired) or o.res.info["preempts"] > 0 or mode != "plain"
    if mode == "nooutdir_fault" and not fired:
        return vd
    if o.exit != want:
        vd.add("%s:%s" % (mode, o.exit), "exit %s instead of %s (%s; %s)" % (o.exit, want, mode, what))
    elif want in (2, 3, 4, 0) and mode != "plain":
        new = [p for p in o.ls if p not in s["files"] and o.ls[p][0] == 1]
        if new:
            vd.add(mode + "-files", "exit %s, but %s was written" % (o.exit, new[0]))
    elif mode == "plain" and want in (0, 10):
        bad = W.diff(o, ref, data)
        if bad:
            vd.add("plain:" + suffix(bad[0], s), "%s depends on the schedule of the two processes or on interrupted waits" % bad[0])
    return vd
