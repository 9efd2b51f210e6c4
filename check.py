#!/usr/bin/env python3
"""Runs the check of one property: check.py --property C01."""
import argparse
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'props'))
sys.setrecursionlimit(20000)
import common  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    mod = importlib.import_module(a.property.lower())
    rep = common.Report(a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick')
    try:
        expl = mod.run(rep)
    except common.Missing as e:
        rep.violation('anchor: %s' % e, 'the code no longer has what the property is anchored in: %s' % e)
        expl = mod.__doc__ or ''
    except common.absint.Limit as e:
        # What was explored holds; the evidence says that it was not everything.
        print('incomplete: %s' % e)
        rep.note(exhaustive=False, incomplete=[str(e)])
        expl = mod.__doc__ or ''
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    sys.exit(rep.finish(' '.join(expl.split())))


if __name__ == '__main__':
    main()
