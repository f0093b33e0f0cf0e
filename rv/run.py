"""python -m rv.run C01 [--tier quick|thorough] [--seed n] [--replay file] [-v]"""
import argparse
import importlib
import os
import sys

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--only', nargs='*')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, core.REPO)
    mod = importlib.import_module('rv.checks.' + a.check.lower())
    sys.exit(core.main(a.check, mod, a.tier, a.seed, a.jobs, a.replay, a.v, a.only))


if __name__ == '__main__':
    main()
