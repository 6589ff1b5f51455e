#!/usr/bin/python3
"""Driver:  check.py <property> [--tier quick|thorough]"""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    from engine import lib
    from checks import REGISTRY
    ctx = lib.Ctx(prop, tier)
    try:
        known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    except FileNotFoundError:
        known = []
    try:
        REGISTRY[prop](ctx)
    except Exception as e:          # Unsupported, AnchorMissing, RecursionError or a defect of the analysis: no answer
        listed = {(k.get('property'), k.get('key')) for k in known if k.get('status') == 'known'}
        ctx.gather()
        if any((prop, v['key']) not in listed for v in ctx.viol):
            return ctx.finish(known)
        print('ANALYSIS-ERROR property=%s %s: %s' % (prop, type(e).__name__, e))
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
        return 2
    return ctx.finish(known)


if __name__ == '__main__':
    sys.exit(main())
