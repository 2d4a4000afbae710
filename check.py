#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]
   check.py --selftest     checks the reference model against itself (used as setup_cmd)"""
import argparse
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and not os.environ.get('GPV_REEXEC'):
    os.environ['GPV_REEXEC'] = '1'
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
ap = argparse.ArgumentParser()
ap.add_argument('prop', nargs='?')
ap.add_argument('--selftest', action='store_true')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
ap.add_argument('--replay')
a = ap.parse_args()
if a.selftest:
    from gpv.selftest import main
    sys.exit(main())
from gpv.core import orchestrate
sys.exit(orchestrate(a.prop, a.tier, a.seed, a.replay))
