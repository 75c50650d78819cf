#!/opt/venv/bin/python
"""
usage: run.py PROPERTY [--tier quick|thorough] [--only part[,part]]
       run.py --replay PATH

Exit codes: 0 held, 1 violation, 2/3 no verdict.
"""

import argparse
import os
import pathlib
import sys

VERIF = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True

from vlib import harness  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    args = ap.parse_args()
    if args.replay:
        return harness.replay(args.replay)
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = args.only.split(",") if args.only else None
    return harness.drive(f"checks.{args.prop.lower()}", tier, seed, only)


if __name__ == "__main__":
    sys.exit(main())
