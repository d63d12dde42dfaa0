"""Client for the vsim server (one simulated world per server process)."""
import os, subprocess

F_ERR, F_SHORT, F_KILL, F_TORN, F_SEGV, F_STICKY, F_CLOCK, F_LOSTCLOSE, F_KILLAFTER, F_ABORT, F_PARTERR, \
    F_OOM, F_OOMSTICKY, F_RESPACE, F_STICKYALL, F_STOPREAD, F_CUT = range(1, 18)
FNAME = {1: "errno", 2: "short", 3: "kill", 4: "torn_write_kill", 5: "segv", 6: "sticky_errno", 7: "clock_jump",
         8: "lost_writeback_at_close", 9: "kill_after", 10: "abort", 11: "partial_then_errno", 12: "alloc_fail",
         13: "alloc_fail_sticky", 14: "disk_full", 15: "sticky_errno_all_files", 17: "bad_sector"}


class SimError(Exception):
    """The simulator itself could not run the scenario: never a verdict."""


class Result:
    __slots__ = ("info", "seq", "ops", "faults", "procs", "roots", "unsup", "sh")

    def exit(self, i=0):
        code, sig, _, _ = self.roots[i]
        return code if not sig else -sig

    def err(self, i=0):
        return self.roots[i][3]

    def out(self, i=0):
        return self.roots[i][2]


class Vsim:
    def __init__(self, exe):
        env = {"PATH": "/usr/bin:/bin"}
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        self.w, self.r = self.p.stdin, self.p.stdout
        self.buf = []

    def close(self):
        try:
            self.w.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()

    def _s(self, data):
        self.buf.append(data if isinstance(data, bytes) else data.encode("latin-1"))

    def _flush(self):
        self.w.write(b"".join(self.buf))
        self.buf = []
        self.w.flush()

    def _line(self):
        l = self.r.readline()
        if not l:
            raise SimError("vsim server died")
        return l.decode("latin-1").rstrip("\n")

    def reset(self):
        self._s("RESET\n")

    def put(self, path, data, mode=0o644):
        if isinstance(data, str):
            data = data.encode("latin-1")
        self._s("PUT %o %d %s\n" % (mode, len(data), path))
        self._s(data)

    def mkdir(self, path, mode=0o755):
        self._s("DIR %o %s\n" % (mode, path))

    def chmod(self, path, mode):
        self._s("CHMOD %o %s\n" % (mode, path))

    def rm(self, path):
        self._s("RM %s\n" % path)

    def truncate(self, path, size):
        self._s("TRUNC %d %s\n" % (size, path))

    def snap(self, i):
        self._s("SNAP %d\n" % i)

    def restore(self, i):
        self._s("REST %d\n" % i)

    def run(self, roots, knobs=None, faults=(), sys=()):
        """roots: list of dict(argv=[..] | seq=[[..],..], cwd=, env={}).
        sys: the programs the simulated shell finds: dict(prog, ret=wait status, advance=ns, keep=may run again, do=[steps])."""
        self._s("KNOBS\n")
        for k, v in (knobs or {}).items():
            self._s("K %s %d\n" % (k, v))
        for ctr, kind, at, arg in faults:
            self._s("FAULT %d %d %d %d\n" % (ctr, kind, at, arg))
        for a in sys:
            eff = ["X %s\n" % a["prog"]]
            for e in a.get("do", ()):
                if e[0] == "W":
                    eff.append("W %o %d %s\n%s" % (e[3] if len(e) > 3 else 0o644, len(e[2]), e[1], e[2]))
                elif e[0] == "O":
                    eff.append("O %d\n%s" % (len(e[1]), e[1]))
                else:
                    eff.append(" ".join(e) + "\n")
            eff = "".join(eff).encode("latin-1")
            self._s("SYS %d %d %d %d\n" % (a.get("ret", 0), a.get("keep", 0), a.get("advance", 0), len(eff)))
            self._s(eff)
        for r in roots:
            seq = r.get("seq")
            self._s("ROOT %d %s\n" % ((2 if r.get("shared") else 1) if seq else 0, r.get("cwd", "/w")))
            env = r.get("env")
            if env is None:
                env = {"HOME": "/home/vega", "PATH": "/usr/bin:/bin"}
            for k, v in env.items():
                self._s("ENV %s=%s\n" % (k, v))
            for av in (seq or [r["argv"]]):
                self._s("ARGV %d\n" % len(av))
                for a in av:
                    assert "\n" not in a
                    self._s(a + "\n")
        self._s("RUN\n")
        self._flush()
        res = Result()
        res.seq, res.faults, res.procs, res.roots, res.ops, res.unsup, res.sh = [], [], [], [], {}, "", []
        while True:
            l = self._line()
            if l == ".":
                break
            t = l.split(" ")
            if t[0] == "R":
                head, _, why = l.partition(" why=")
                res.unsup = why
                res.info = {}
                for kv in head.split(" ")[2:]:
                    k, v = kv.split("=", 1)
                    res.info[k] = v if k == "hash" else int(v)
            elif t[0] == "Q":
                res.seq.append((int(t[1]), int(t[2]), int(t[3])))
            elif t[0] == "O":
                res.ops = {kv.split("=")[0]: int(kv.split("=")[1]) for kv in t[1:]}
            elif t[0] == "F":
                if int(t[2]):
                    res.faults.append((int(t[3]), " ".join(t[4:])))
            elif t[0] == "Y":        # (process, wait status, last argument is a file, working directory, argv) of a started program
                h, *av = l[2:].split("\t")
                h = h.split(" ", 3)
                res.sh.append((int(h[0]), int(h[1]), int(h[2]), h[3], av))
            elif t[0] == "P":
                res.procs.append((int(t[1]), int(t[2]), int(t[3])))
            elif t[0] == "S":
                n1, n2 = int(t[3]), int(t[4])
                d = self.r.read(n1 + n2 + 1)
                res.roots.append((int(t[1]), int(t[2]), d[:n1], d[n1:n1 + n2]))
            else:
                raise SimError("protocol: " + l[:200])
        if res.info["unsup"]:
            raise SimError("unsupported by the simulator: " + res.unsup)
        if res.info["budget"] == 9:
            raise SimError("wall-clock backstop hit")
        return res

    def ls(self):
        """{path: (type, mode, size, hash)}"""
        self._s("LIST\n")
        self._flush()
        out = {}
        while True:
            l = self._line()
            if l == ".":
                return out
            p, t, m, s, h = l.split("\t")
            out[p] = (int(t), int(m, 8), int(s), h)

    def get(self, path):
        self._s("GET %s\n" % path)
        self._flush()
        n = int(self._line())
        if n < 0:
            return None
        return self.r.read(n)

    def trace(self):
        self._s("TRACE\n")
        self._flush()
        n = int(self._line())
        d = self.r.read(n).decode("latin-1")
        ev = []
        for l in d.splitlines():
            t = l.split(" ", 9)
            ev.append((int(t[0]), int(t[1]), t[2], int(t[3]), int(t[4]), int(t[5]), int(t[6]), int(t[7]), t[9], t[8]))
        return ev

    def asites(self):
        """[(place, counter, count, first, last, sample)] of the allocations of a traced run"""
        self._s("ASITES\n")
        self._flush()
        r = []
        for _ in range(int(self._line())):
            t = self._line().split(" ")
            r.append((t[0], int(t[1]), int(t[2]), int(t[3]), int(t[4]), int(t[5])))
        return r

    def cov(self):
        self._s("COV\n")
        self._flush()
        return self.r.read(1 << 18)

    def gcov(self):
        """edges covered since this server started"""
        self._s("GCOV\n")
        self._flush()
        return self.r.read(1 << 18)
