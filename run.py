#!/usr/bin/env python3-vt
"""run.py <property> [--tier quick|thorough] [--replay FILE] [--part NAME]... [--scale X]"""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
from vlib import harness
a = argparse.ArgumentParser()
a.add_argument("property")
a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a.add_argument("--replay")
a.add_argument("--part", action="append")
a.add_argument("--scale", type=float, default=1.0)
o = a.parse_args()
sys.exit(harness.main(o.property, o.tier if o.tier in ("quick", "thorough") else "quick", o.replay, o.part, o.scale))
