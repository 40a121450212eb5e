#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--case I] | --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ficusmon import env

env.reexec_if_needed(os.path.abspath(__file__))

import argparse
import json


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--case', type=int, default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--selfcheck', action='store_true')
    a = ap.parse_args()
    if a.selfcheck:
        env.setup_path()
        import python.ficus.legacy.log.event_log
        print('environment ok')
        return 0
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.prop, a.tier, a.seed, a.case = r['property'], r['tier'], r['seed'], r['index']
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    from ficusmon.core import run_property
    return run_property(a.prop.upper(), a.tier, a.seed, a.case)


if __name__ == '__main__':
    sys.exit(main())
