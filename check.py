#!/usr/bin/env python3-vt
"""check.py --property C11 [--tier quick|thorough]: decides one property against /repo's current tree."""
import argparse
import os
import sys

ap = argparse.ArgumentParser()
ap.add_argument('--property', required=True)
ap.add_argument('--tier', choices=['quick', 'thorough'])
A = ap.parse_args()
if A.tier:
    os.environ['VERIF_TIER'] = A.tier
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vt import runner, specs   # noqa: E402

sys.exit(runner.main(A.property, specs.SPECS[A.property]))
