"""Usage: check ID [--thorough] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import engine                                                # noqa: E402
from plan import PLAN                                        # noqa: E402


def main():
    args = sys.argv[1:]
    pid = args[0]
    if '--replay' in args:
        return engine.replay(pid, args[args.index('--replay') + 1])
    tier = 'thorough' if '--thorough' in args else \
        os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return engine.Check(pid, PLAN[pid], tier, seed).run()


if __name__ == '__main__':
    sys.exit(main())
