#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decides one property on the code in /repo."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

AREAS = ['a_card', 'a_file', 'a_table', 'a_data', 'a_time', 'a_sky', 'a_frame', 'a_vec', 'a_par']


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for a in AREAS:
        m = importlib.import_module(a)
        if pid in m.CHECKS:
            ctx = vf.Ctx(pid, tier, seed)
            return vf.finish(ctx, 'model_checking', m.CHECKS[pid])
    print('no such check: ' + pid)
    return 2


if __name__ == '__main__':
    sys.exit(main())
