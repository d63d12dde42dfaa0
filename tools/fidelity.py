"""Cross-check of the simulator itself: every corpus deck x writer run by the real vegapp binary (in a scratch
directory) and by vsim must give the same exit code and the same output bytes (dates aside)."""
import sys, os, re, subprocess, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import corpus
from vsim import Vsim
from multiprocessing import Pool
REAL = "/repo/_build/bin/vegapp"
ds = corpus.load()


def norm(b):
    return re.sub(rb"\d{4}-\d\d-\d\d", b"DATE", b)


def job(i):
    d = ds[i]
    bad = []
    v = Vsim(os.path.join(corpus.VERIF, "build/vsim"))
    for w in corpus.WRITERS:
        v.reset(); v.mkdir("/w"); v.mkdir("/home/vega")
        tmp = tempfile.mkdtemp(prefix="vfid")
        for f, b in d.files.items():
            v.put("/w/in/" + f, b)
            p = os.path.join(tmp, "in", f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(b)
        av = ["-o", "out"] + (["-t", "in/" + d.test] if d.test else []) + ["in/" + d.main, d.fmt, w]
        r = v.run([dict(argv=["vegapp"] + av)])
        rr = subprocess.run([REAL] + av, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={"HOME": tmp})
        if r.exit() != rr.returncode:
            bad.append((d.name, w, "exit", r.exit(), rr.returncode))
        sim = {p[len("/w/out/"):]: v.get(p) for p, x in v.ls().items() if p.startswith("/w/out/") and x[0] == 1}
        real = {}
        for root, _, fs in os.walk(tmp + "/out"):
            for f in fs:
                real[os.path.relpath(os.path.join(root, f), tmp + "/out")] = open(os.path.join(root, f), "rb").read()
        if set(sim) != set(real):
            bad.append((d.name, w, "files", sorted(set(sim) ^ set(real))))
        if not r.exit():
            for f in sorted(set(sim) & set(real)):
                if norm(sim[f]) != norm(real[f]):
                    a, b = norm(sim[f]), norm(real[f])
                    k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                    bad.append((d.name, w, "content", f, len(a), len(b), k, a[k-20:k+60], b[k-20:k+60]))
        shutil.rmtree(tmp)
    v.close()
    return bad


if __name__ == "__main__":
    n = 0
    with Pool(8) as p:
        for bad in p.imap(job, range(len(ds))):
            n += len(bad)
            for b in bad:
                print(*b)
    print("decks", len(ds), "mismatches", n)
