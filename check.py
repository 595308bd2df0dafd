#!/usr/bin/env python3-vt
"""Usage: python3-vt check.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module("checks." + a.property.lower())
    if a.replay:
        return core.run_replay(mod, a.tier, a.seed, a.replay)
    return core.run_check(mod, a.tier, a.seed, 480 if a.tier == "quick" else 3600)


if __name__ == "__main__":
    sys.exit(main())
