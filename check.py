#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] | check.py replay FILE | check.py setup"""
import argparse, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine, build

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    if a.id == "setup":
        try:
            build.build()
        except build.BuildError as e:
            print(e)
            sys.exit(3)
        sys.exit(0)
    if a.id == "replay":
        sys.exit(engine.replay(a.file))
    sys.exit(engine.run(a.id, a.tier, a.seed, a.budget, a.workers))
