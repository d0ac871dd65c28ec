#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decide one property
   check.py --replay FILE              re-execute a reported violation (exit 1: it reproduces)
   check.py --build                    only build"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from driver import core


def main(a):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        if a and a[0] == '--build':
            print(core.build())
            return 0
        if a and a[0] == '--replay':
            ok, text = core.replay_file(a[1])
            print(text)
            return 1 if ok else 0
        if len(a) != 1:
            print(__doc__)
            return 2
        return core.check(a[0], tier, seed)
    except core.CheckError as e:
        print('ERROR: %s' % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv[1:]))
