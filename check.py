#!/usr/bin/env python3
"""check.py --prop Pnn [--tier quick|thorough] [--seed N] [--replay FILE] [-v]"""
import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from kv import core
from kv.props import PROPS

a = argparse.ArgumentParser()
a.add_argument("--prop", required=True)
a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
a.add_argument("--replay")
a.add_argument("-v", action="store_true")
a = a.parse_args()
p = PROPS[a.prop]()
sys.exit(core.replay(p, a.replay) if a.replay else core.run_check(p, a.tier, a.seed, a.v))
