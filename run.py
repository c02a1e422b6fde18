#!/usr/bin/env python3
"""Run one check:  python run.py C01 [--tier quick|thorough] [--seed N]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

from pgmon import core  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("property")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
a = ap.parse_args()
sys.stdout.flush()
sys.exit(core.run(a.property, a.tier, a.seed))
