#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX] [-v]"""
import argparse
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine.drive import run_property  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--only')
ap.add_argument('-v', action='store_true')
ap.add_argument('-j', type=int)
a = ap.parse_args()
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
sys.exit(run_property(a.prop, a.tier, seed, a.only, a.v, a.j))
