#!/usr/bin/env python3
"""Run one property's check:  run.py C04 --tier quick|thorough
Re-run one recorded violation: run.py --replay FILE"""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    a = ap.parse_args()
    import catalog
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        catalog.load_module(r['property'])
        try:
            msg = engine.ORACLES[r['oracle']](*engine.dec(r['args']))
        except Exception as e:
            msg = f'{type(e).__name__}: {e} @ {engine.where(e)}'
        print(msg or 'holds')
        return 1 if msg else 0
    run = engine.Run(a.prop, a.tier, a.seed)
    catalog.start(run)
    return run.finish()


if __name__ == '__main__':
    sys.exit(main())
