#!/usr/bin/env python3-vt
"""check.py PROPERTY quick|thorough: decides one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = vlib.Ctx(prop, tier, seed)
    m = importlib.import_module('c' + prop[1:])
    try:
        extra = m.run(ctx)
        return vlib.finish(ctx, m.LEVEL, extra)
    except vlib.CheckError as e:
        print('CHECK ERROR %s: %s' % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4


if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    sys.exit(r)
