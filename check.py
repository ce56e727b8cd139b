#!/usr/bin/env python3
"""check.py ID [ID ...]: decide properties of /repo's current source."""
import os
import sys
import time
import traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vlib'))
sys.setrecursionlimit(10000)


def main():
    import common
    import registry
    tier = os.environ.get('VERIF_TIER', 'quick')
    args = sys.argv[1:]
    if '--thorough' in args:
        args.remove('--thorough')
        tier = 'thorough'
    rc = 0
    for pid in args or sorted(registry.CHECKS):
        ck = common.Check(pid, tier)
        try:
            registry.CHECKS[pid](ck)
            ck.assumptions += registry.ASSUMPTIONS.get('*', []) + registry.ASSUMPTIONS.get(pid, [])
            r = common.finish(ck, explanation=registry.EXPLANATION)
        except common.AnalysisBroken as x:
            print('%s: no verdict: %s' % (pid, x))
            r = 2
        except Exception:
            traceback.print_exc()
            print('%s: no verdict: internal error' % pid)
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == '__main__':
    sys.exit(main())
