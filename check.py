#!/usr/bin/env python3-vt
"""usage: check.py C01 [quick|thorough]   |   check.py --replay FILE"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    from vf import core
    if sys.argv[1] == '--replay':
        return core.replay(sys.argv[2])
    if sys.argv[1] == '--selftest':
        return core.selftest()
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return core.run_property(pid, tier, seed)


if __name__ == '__main__':
    sys.exit(main())
