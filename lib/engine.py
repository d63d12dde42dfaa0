"""Runs one property's check: tasks over a pool of simulated worlds, gating, minimising, replay files, evidence."""
import collections, importlib, json, multiprocessing as mp, os, random, re, sys, time, traceback, hashlib
import build
from vsim import SimError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def rng_for(*key):
    return random.Random(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], "big"))


class Verdict:
    """outcome of judging one scenario"""

    def __init__(self):
        self.viol = []          # [(class, detail)]
        self.nontrivial = False
        self.skip = None

    def add(self, cls, detail):
        self.viol.append((cls, detail))


# ---------------------------------------------------------------- worker side
_W = None
_P = None


def _init(pid):
    global _W, _P
    from world import World
    _P = importlib.import_module("checks." + pid)
    _W = World()


def _task(arg):
    idx, task, seed, tier = arg
    W, P = _W, _P
    rng = rng_for(seed, P.ID, idx)
    from world import World
    st0 = W.st
    W.st = {k: (type(v)() if not isinstance(v, int) else 0) for k, v in st0.items()}
    viols, n, nontriv, inconc, sample = [], 0, 0, [], None
    seen = set()
    nviol = 0
    t0 = time.time()
    try:
        for scn in P.explore(W, task, rng, tier):
            n += 1
            try:
                vd = P.judge(W, scn)
            except SimError as e:
                inconc.append(str(e)[:300])
                W.start()
                continue
            if vd.nontrivial:
                nontriv += 1
                if sample is None:
                    sample = brief(scn)
            for cls, det in vd.viol:
                if cls not in seen and len(seen) < 6:
                    seen.add(cls)
                    viols.append((cls, det, scn))
            nviol += bool(vd.viol)
            if nviol and time.time() - t0 > 20:
                break                                             # enough seen here
    except SimError as e:
        inconc.append(str(e)[:300])
        W.start()
    except Exception:
        return dict(idx=idx, error=traceback.format_exc())
    out = dict(idx=idx, n=n, nontriv=nontriv, viols=viols, inconc=inconc, sample=sample, st=W.st, dt=time.time() - t0)
    W.st = st0
    return out


def _cov(_):
    time.sleep(0.3)
    _W.harvest()
    return (os.getpid(), bytes(_W.cov))


def brief(scn):
    b = {k: v for k, v in scn.items() if k not in ("files",)}
    b["files"] = {p: len(t) for p, t in scn.get("files", {}).items()}
    return b


# ---------------------------------------------------------------- known findings
def known():
    """[(property, regex)] of open findings; 'fixed:' lines suppress nothing"""
    res = []
    try:
        with open(KNOWN) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
                if m:
                    res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return res


# ---------------------------------------------------------------- minimiser
def minimise(W, P, scn, cls, budget=160, wall=60):
    t0 = time.time()
    left = [budget]

    def bad(c):
        if left[0] <= 0 or time.time() - t0 > wall:
            return False
        left[0] -= 1
        try:
            return any(k == cls for k, _ in P.judge(W, c).viol)
        except SimError:
            W.start()
            return False

    cur = json.loads(json.dumps(scn))

    def attempt(c):
        nonlocal cur
        if bad(c):
            cur = c
            return True
        return False

    for key in ("faults", "faults2", "mut", "sys", "seq"):
        i = 0
        while i < len(cur.get(key) or []) and len(cur[key]) > 1:
            c = json.loads(json.dumps(cur))
            del c[key][i]
            if not attempt(c):
                i += 1
    for k in sorted(cur.get("knobs") or {}):
        c = json.loads(json.dumps(cur))
        del c["knobs"][k]
        attempt(c)
    for p in sorted(cur["files"]):
        if p.endswith((".cfg",)):
            continue
        lines = cur["files"][p].split("\n")
        size = max(1, len(lines) // 2)
        while size >= 1 and left[0] > 0:
            i = 0
            changed = False
            while i < len(lines):
                c = json.loads(json.dumps(cur))
                nl = lines[:i] + lines[i + size:]
                c["files"][p] = "\n".join(nl)
                if attempt(c):
                    lines = nl
                    changed = True
                else:
                    i += size
                if left[0] <= 0:
                    break
            if size == 1:
                break
            size = max(1, size // 2)
    return cur


# ---------------------------------------------------------------- main
def run(pid, tier, seed, budget=None, workers=None, quiet=False):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    try:
        build.build()
    except build.BuildError as e:
        print("check %s: the build failed\n%s" % (pid, e))
        return 3
    tb = time.time() - t0
    P = importlib.import_module("checks." + pid)
    tasks = list(P.tasks(tier, seed))
    workers = workers or min(8, os.cpu_count() or 4)
    budget = budget or (P.BUDGET if hasattr(P, "BUDGET") else {"quick": 300, "thorough": 2400})[tier]
    agg = dict(n=0, nontriv=0, viols=[], inconc=[], samples=[], done=0)
    st = None
    errors = []
    kn = [k for k in known() if k[0] == pid]
    unlisted = lambda vs: any(not any(x[1].fullmatch("%s@%s" % (c, s.get("deck", ""))) for x in kn) for c, _, s in vs)
    with mp.Pool(workers, initializer=_init, initargs=(pid,)) as pool:
        pending = collections.deque()
        it = iter(enumerate(tasks))
        stopped = False
        while True:
            while len(pending) < workers * 3 and not stopped:
                if time.time() - t0 > (min(budget, 100) if tier == "quick" and unlisted(agg["viols"]) else budget):
                    stopped = True
                    break
                try:
                    i, t = next(it)
                except StopIteration:
                    stopped = True
                    break
                pending.append(pool.apply_async(_task, ((i, t, seed, tier),)))
            if not pending:
                break
            r = pending.popleft().get()
            if "error" in r:
                errors.append(r["error"])
                continue
            agg["done"] += 1
            agg["n"] += r["n"]
            agg["nontriv"] += r["nontriv"]
            agg["viols"] += r["viols"]
            agg["inconc"] += r["inconc"]
            if r["sample"] and len(agg["samples"]) < 4:
                agg["samples"].append(r["sample"])
            if st is None:
                st = r["st"]
            else:
                for k, v in r["st"].items():
                    if isinstance(v, set):
                        st[k] |= v
                    else:
                        st[k] += v
            if r["dt"] > 60 and not quiet:
                print("note: task %d took %.0f s" % (r["idx"], r["dt"]))
        cov = bytearray(1 << 18)
        got = {}
        for p, c in pool.map(_cov, range(workers * 2), chunksize=1):
            got[p] = c
        acc = 0
        for c in got.values():
            acc |= int.from_bytes(c, "little")
        edges = sum(acc.to_bytes(1 << 18, "little"))
    if errors:
        print("check %s: internal error\n%s" % (pid, errors[0]))
        return 3
    st = st or {}
    wall = time.time() - t0
    # ---- violations
    rc = 0
    hits = set()
    real = []
    for cls, det, scn in agg["viols"]:
        k = next((j for j, x in enumerate(kn) if x[1].fullmatch("%s@%s" % (cls, scn.get("deck", "")))), None)
        if k is not None:
            hits.add(k)
        else:
            real.append((cls, det, scn))
    for j, x in enumerate(kn):
        print("KNOWN-FINDING: property=%s %s" % (pid, x[2]))
    reported = []
    if real:
        from world import World
        W = World()
        bycls = collections.OrderedDict()
        for v in real:
            bycls.setdefault(v[0], []).append(v)
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        unstable = 0
        for cls, vs in list(bycls.items())[:4]:
            cls, det, scn = vs[0]
            ok = gate(W, P, scn, cls)
            if not ok:
                unstable += 1
                print("check %s: '%s' on %s did not reproduce in a fresh world; not reported" % (pid, cls, scn.get("deck")))
                continue
            m = minimise(W, P, scn, cls)
            if not gate(W, P, m, cls):
                m = scn
            det = next(d for c, d in P.judge(W, m).viol if c == cls)
            path = os.path.join(VERIF, "out", "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9]+", "_", cls)[:60].strip("_")))
            with open(path, "w") as f:
                json.dump(dict(property=pid, cls=cls, detail=det, seed=seed, scenario=m), f, indent=1)
            print("  %s: %s [%s; %d such scenario(s)]" % (cls, det, m.get("deck"), len(vs)))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            reported.append(cls)
        W.v.close()
        rc = 1 if reported else 3
    # ---- inconclusive
    if agg["inconc"]:
        print("check %s: %d scenario(s) could not be simulated, e.g. %s" % (pid, len(agg["inconc"]), agg["inconc"][0]))
        if rc == 0 and len(agg["inconc"]) > max(5, agg["n"] // 5):
            rc = 3
    if rc == 0 and agg["nontriv"] == 0:
        print("check %s: nothing was explored" % pid)
        rc = 3
    # ---- evidence
    runs = st.get("runs", 0)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(P, "LEVEL", "exploration"), wall_s=round(time.time() - t0, 2),
              violations=len(reported), assumptions=P.ASSUME,
              coverage=dict(
                  evaluations=agg["n"], distinct_nontrivial=len(st.get("hashes", ())), rule=P.RULE, samples=agg["samples"],
                  nontrivial_scenarios=agg["nontriv"], simulated_runs=runs, runs_per_hour=int(runs / max(0.1, wall - tb) * 3600),
                  seeds_per_hour=int(agg["n"] / max(0.1, wall - tb) * 3600),
                  tasks=len(tasks), tasks_done=agg["done"], simulated_seconds=round(st.get("simns", 0) / 1e9, 3),
                  seam_operations=st.get("ops", 0), branch_steps=st.get("steps", 0), distinct_event_histories=len(st.get("hashes", ())),
                  distinct_control_flow_edges=edges, faults_configured=st.get("configured", 0),
                  faults_fired=dict(sorted(st.get("fired", {}).items())), preemptions=st.get("preempts", 0),
                  solver_calls=st.get("sys", 0), exit_statuses={str(k): v for k, v in sorted(st.get("exits", {}).items())},
                  probes=dict(sorted(st.get("probes", {}).items())), inconclusive=len(agg["inconc"]),
                  known_findings_hit=len(hits),
                  real_components=["all of vega (Abstract, Aster, Systus, Nastran, Optistruct, ResultReaders, Commandline incl. main)",
                                   "boost", "libmed", "libhdf5", "libstdc++"],
                  stub_components=["kernel files/directories/descriptors", "fork/wait and process table", "clock", "random numbers",
                                   "heap", "external solver process (scripted)"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not quiet:
        print("check %s %s seed=%d: %d scenarios, %d runs, %d distinct histories, %d edges, %s, %.1f s (build %.1f s)" % (
            pid, tier, seed, agg["n"], runs, len(st.get("hashes", ())), edges, "violations: " + ", ".join(reported) if reported else "no violation",
            time.time() - t0, tb))
    return rc


def gate(W, P, scn, cls):
    """the same scenario, twice in fresh worlds: same violation and same event histories"""
    seen = []
    for _ in range(2):
        W.fresh()
        W.st["hashes"] = set()
        try:
            vd = P.judge(W, scn)
        except SimError:
            return False
        seen.append((any(c == cls for c, _ in vd.viol), frozenset(W.st["hashes"])))
    return seen[0] == seen[1] and seen[0][0]


def replay(path):
    with open(path) as f:
        r = json.load(f)
    build.build()
    sys.path.insert(0, VERIF)
    P = importlib.import_module("checks." + r["property"])
    from world import World
    W = World()
    vd = P.judge(W, r["scenario"])
    for cls, det in vd.viol:
        print("%s: %s" % (cls, det))
    same = any(c == r["cls"] for c, _ in vd.viol)
    print("seed %s; event histories %s" % (r["seed"], sorted(W.st["hashes"])))
    if same:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1 if same else 0
