"""mk(id, prop, edits, demo, needs, breaks): writes seeded/<id>/ from edits [(file, old, new)] against /repo's HEAD."""
import difflib, json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DECK = """SOL 101
CEND
SUBCASE 1
  SPC = 1
  LOAD = 2
BEGIN BULK
GRID,1,,0.,0.,0.
GRID,2,,1.,0.,0.
CROD,1,1,1,2
PROD,1,1,1.0
MAT1,1,2.+11,,0.3
SPC1,1,123456,1
FORCE,2,2,,1.,1.,0.,0.
ENDDATA
"""
F = [("a.nas", DECK)]
HEAD = """#!/bin/bash
# exit 0: the property holds; nonzero: broken. Everything happens in a scratch directory.
set -u
D=$(cd "$(dirname "$0")" && pwd)
V=$PWD/_build/bin/vegapp
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export HOME=$T
gcc -shared -fPIC -w -o "$T/shim.so" "$D/shim.c" -ldl || exit 99
shim() { local f=$1; shift; VSHIM="$f" LD_PRELOAD=$T/shim.so "$@"; }
cd "$T" || exit 99
"""


def src(f):
    return subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, check=True).stdout.decode("latin-1")


def mk(id, prop, edits, demo, needs, breaks, files=()):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    new = {}
    for f, a, b in edits:
        t = new.get(f) or src(f)
        if t.count(a) != 1:
            raise SystemExit("%s: %d matches in %s for %r" % (id, t.count(a), f, a[:60]))
        new[f] = t.replace(a, b)
    p = ""
    for f, t in new.items():
        for l in difflib.unified_diff(src(f).splitlines(True), t.splitlines(True), "a/" + f, "b/" + f):
            p += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    open(os.path.join(d, "patch.diff"), "w", encoding="latin-1").write(p)
    open(os.path.join(d, "demo.sh"), "w").write(HEAD + demo.strip("\n") + "\n")
    shutil.copy(os.path.join(V, "tools/demo/shim.c"), d)
    for name, text in files:
        open(os.path.join(d, name), "w").write(text)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(id)
