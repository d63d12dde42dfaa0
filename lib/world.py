"""One worker's simulated world: runs scenarios, caches fault-free reference runs, compares outcomes."""
import collections, hashlib, json, os, subprocess
from vsim import Vsim, SimError, FNAME
import build

OUTDIR = "/w/out"
DEF_ENV = {"HOME": "/home/vega", "PATH": "/usr/bin:/bin"}
DOCUMENTED = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 100, 101, 102, 103, 104, 105}


class H5:
    def __init__(self, exe):
        self.exe, self.p = exe, None

    def canon(self, data, skeleton=False):
        try:
            if self.p is None:
                self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                          stderr=subprocess.DEVNULL, env={})
            self.p.stdin.write(b"%d%s\n" % (len(data), b"s" if skeleton else b"") + data)
            self.p.stdin.flush()
            n = int(self.p.stdout.readline())
            return self.p.stdout.read(n)
        except (OSError, ValueError):
            self.p = None
            return b"UNREADABLE"


class Out:
    """What one run left behind: exit codes, file system, counters."""
    __slots__ = ("res", "ls", "exits", "trace", "asites")

    def __init__(self, res, ls, trace=None):
        self.res, self.ls, self.trace = res, ls, trace
        self.exits = [res.exit(i) for i in range(len(res.roots))]

    @property
    def exit(self):
        return self.exits[0]


class World:
    def __init__(self):
        self.exe = os.path.join(build.BUILD, "vsim")
        self.h5 = H5(os.path.join(build.BUILD, "h5canon"))
        self.v = None
        self.loaded = None
        self.refs = collections.OrderedDict()
        self.st = {"runs": 0, "ops": 0, "steps": 0, "simns": 0, "fired": collections.Counter(), "hashes": set(),
                   "exits": collections.Counter(), "refs": 0, "sys": 0, "preempts": 0, "configured": 0, "probes": collections.Counter()}
        self.cov = bytearray(1 << 18)
        self.start()

    def start(self):
        if self.v:
            self.v.close()
        self.v = Vsim(self.exe)
        self.loaded = None

    def fresh(self):
        """discard the server process and every cached reference"""
        self.harvest()
        self.refs.clear()
        self.start()

    def harvest(self):
        try:
            c = self.v.gcov()
            a = int.from_bytes(self.cov, "little") | int.from_bytes(c, "little")
            self.cov = bytearray(a.to_bytes(1 << 18, "little"))
        except Exception:
            pass

    # ---- file system ----
    def load(self, scn):
        key = hashlib.sha256(json.dumps([scn.get("files"), scn.get("dirs"), scn.get("modes")], sort_keys=True).encode()).hexdigest()
        if self.loaded == key:
            self.v.restore(0)
            return
        v = self.v
        v.reset()
        v.mkdir("/w")
        v.mkdir("/home/vega")
        for d in scn.get("dirs", []):
            v.mkdir(d)
        for p, b in scn["files"].items():
            v.put(p, b)
        for p, m in scn.get("modes", {}).items():
            v.chmod(p, m)
        v.snap(0)
        self.loaded = key

    # ---- runs ----
    def run(self, roots, knobs=None, faults=(), sys=(), trace=False, keep_fs=True):
        k = dict(knobs or {})
        if trace:
            k["trace"] = 1
        try:
            r = self.v.run(roots, knobs=k, faults=[tuple(f) for f in faults], sys=sys)
        except SimError:
            self.start()
            raise
        st = self.st
        st["runs"] += 1
        st["ops"] += r.info["ops"]
        st["steps"] += r.info["steps"]
        st["simns"] += max(0, r.info["simns"])
        st["hashes"].add(r.info["hash"])
        st["preempts"] += r.info["preempts"]
        st["sys"] += r.info["sys"]
        st["configured"] += len(faults)
        for kind, what in r.faults:
            st["fired"][FNAME.get(kind, str(kind)) + ":" + what.split(" ")[0]] += 1
        for i in range(len(r.roots)):
            st["exits"][r.exit(i)] += 1
        t = self.v.trace() if trace else None
        return Out(r, self.v.ls() if keep_fs else None, t)

    def ref(self, scn, knobs=None, roots=None, key=""):
        """fault-free run of the scenario in the canonical environment; cached, with the bytes of its output files"""
        roots = roots or [root_of(scn)]
        kk = hashlib.sha256(json.dumps([scn.get("files"), scn.get("dirs"), scn.get("modes"), roots, knobs, key],
                                       sort_keys=True, default=repr).encode()).hexdigest()
        if kk in self.refs:
            self.refs.move_to_end(kk)
            return self.refs[kk]
        self.load(scn)
        o = self.run(roots, knobs=knobs, sys=scn.get("sys", ()), trace=True)
        o.asites = self.v.asites()
        self.st["refs"] += 1
        inputs = set(scn["files"])
        data = {p: self.v.get(p) for p, x in o.ls.items() if x[0] == 1 and p not in inputs}
        self.refs[kk] = (o, data)
        while len(self.refs) > 24:
            self.refs.popitem(last=False)
        return self.refs[kk]

    # ---- comparison ----
    def same_file(self, path, a, b, mask_date=False):
        if a == b:
            return True
        if a is None or b is None:
            return False
        if path.endswith(".med"):
            return self.h5.canon(a) == self.h5.canon(b)
        if mask_date:
            import re
            return re.sub(rb"\d{4}-\d\d-\d\d", b"DATE", a) == re.sub(rb"\d{4}-\d\d-\d\d", b"DATE", b)
        return False

    def skeleton(self, path, data):
        """what a file says apart from the integers in it: sorted lines, every integer masked, reals kept"""
        import re
        if data is None:
            return None
        if path.endswith(".med"):
            return sorted(re.sub(rb"-?\d+", b"#", l) if b" class=1" not in l else l for l in self.h5.canon(data, True).split(b"\n"))
        if path.endswith(".nas"):
            data = re.sub(rb"\+[0-9]+\s*$", b"#", data, flags=re.M)   # continuation marks
        t = re.sub(rb"((?<![A-Za-z0-9_.])[-+]?[0-9]+\.[0-9]*(?:[eEdD]?[-+][0-9]+)?(?![A-Za-z]))|[-+]?[0-9]+", lambda m: m.group(1) or b"#", data)
        return sorted(b" ".join(l.split()) for l in t.split(b"\n"))

    def diff(self, out, ref, refdata, only=None, ignore=(), mask_date=False, modes=True):
        """paths whose presence, type, permission or content differ between the current state and the reference"""
        bad = []
        for p in sorted(set(out.ls) | set(ref.ls)):
            if only is not None and not only(p):
                continue
            if p in ignore:
                continue
            a, b = out.ls.get(p), ref.ls.get(p)
            if a == b:
                continue
            if a is None or b is None or a[0] != b[0] or (modes and a[1] != b[1]):
                bad.append(p)
                continue
            if a[0] == 1:
                rb = refdata.get(p)
                if rb is None:
                    bad.append(p)
                elif not self.same_file(p, self.v.get(p), rb, mask_date):
                    bad.append(p)
        return bad


def root_of(scn):
    if scn.get("seq"):
        return dict(seq=scn["seq"], cwd=scn.get("cwd", "/w"), env=scn.get("env") or DEF_ENV)
    return dict(argv=scn["argv"], cwd=scn.get("cwd", "/w"), env=scn.get("env") or DEF_ENV)


def suffix(path, scn=None):
    """class of an output file, without the study's own name"""
    b = os.path.basename(path)
    st = (scn or {}).get("stem")
    if st and b.startswith(st):
        return "$" + b[len(st):]
    return b if not st else "other"


def limits(ref, mult=20, chunked=False):
    return {"steplimit": ref.res.info["steps"] * mult + 20000000, "oplimit": 20000000 if chunked else ref.res.info["ops"] * 10 + 5000}


def sites(ref):
    """{(op, path): [global op indices]} of a traced run"""
    s = collections.OrderedDict()
    for e in ref.trace:
        s.setdefault((e[2], e[8]), []).append(e[0])
    return s


def resolve(fault, ref):
    """fault spec [ctr, kind, at, arg] or ["site", op, path, nth, kind, arg] -> simulator fault"""
    if fault[0] != "site":
        return tuple(fault)
    _, op, path, nth, kind, arg = fault
    idx = sites(ref).get((op, path))
    if not idx:
        return None
    n = nth if nth >= 0 else len(idx) + nth
    return (0, kind, idx[max(0, min(n, len(idx) - 1))], arg)
