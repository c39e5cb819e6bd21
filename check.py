#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--n CASES] | check.py --replay FILE | check.py --setup"""
import argparse, importlib, json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core, engine, registry


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        core.build()
        return 0
    if a.replay:
        with open(a.replay) as f:
            pid = json.load(f)["property"]
        return engine.replay(registry.get(pid), a.replay)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    return engine.run_check(registry.get(a.property), a.tier, a.seed, a.jobs, a.n, a.cap)


if __name__ == "__main__":
    sys.exit(main())
