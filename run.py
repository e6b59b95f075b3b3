#!/opt/venv/bin/python
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('OMP_NUM_THREADS', '1')
from vlib import runner  # noqa: E402


def main():
    cmd = sys.argv[1]
    if cmd == 'replay':
        return runner.replay_main(sys.argv[2])
    if cmd == 'check':
        prop = sys.argv[2]
        tier = os.environ.get('VERIF_TIER', 'quick')
        only = None
        verbose = False
        for a in sys.argv[3:]:
            if a in ('quick', 'thorough'):
                tier = a
            elif a == '-v':
                verbose = True
            else:
                only = a
        return runner.check_main(prop, tier, only, verbose=verbose)
    return 2


sys.exit(main())
