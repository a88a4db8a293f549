#!/usr/bin/env python3
"""run_check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True
from r4v import driver, checks  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("pid")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--replay")
a = ap.parse_args()
sys.exit(driver.main(a.pid, checks.CHECKS[a.pid], a.tier, a.seed, a.replay))
