#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay VARIANT:INDEX]"""
import argparse, importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, build


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    mod = importlib.import_module('checks.' + a.id.lower())
    check = mod.Check('thorough' if a.tier == 'thorough' else 'quick', a.seed)
    only = None
    if a.replay:
        v, i = a.replay.rsplit(':', 1)
        only = (v, int(i))
    try:
        sys.exit(core.run(check, only))
    except (core.HarnessError, core.Inconclusive, build.BuildError) as e:
        sys.stderr.write('%s: %s: %s\n' % (a.id, type(e).__name__, str(e)[-4000:]))
        print('%s: no verdict' % a.id)
        sys.exit(3)


if __name__ == '__main__':
    main()
