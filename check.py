#!/usr/bin/env python3-vt
"""check.py ID [--only REGEX] [-v] : decides one property on /repo's working tree"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--only")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from irv import run
    m = importlib.import_module(f"irv.checks.{a.id.lower()}")
    return run.main(a.id, m.jobs(a.tier), level=m.LEVEL, technique=m.TECHNIQUE, assumptions=m.ASSUMPTIONS,
                    trusted=getattr(m, "TRUSTED", ()), tier=a.tier, only=a.only, verbose=a.v, budget=a.budget)


sys.exit(main())
