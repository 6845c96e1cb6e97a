"""Decide one property: python3-vt check.py PROPERTY [quick|thorough]

Exit 0: every obligation discharged (or, where one could not be decided, the
bounded stand-in found nothing; such functions are listed as bounded in the
evidence).  Exit 1 with VIOLATION lines otherwise."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO]



def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from checks import common
    mod = importlib.import_module(common.module_of(prop))
    try:
        r = mod.check(prop, tier, seed)
    except Exception:
        # the machinery itself failed: nothing is claimed, nothing is reported
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        r = common.Result(prop)
        r.note('machinery failure: ' + tb[-600:])
        sys.exit(common.finish(r, tier, seed, t0, error=True))
    sys.exit(common.finish(r, tier, seed, t0))


if __name__ == '__main__':
    main()
