#!/usr/bin/env python3
"""check.py <property id> [--thorough] [-v] [--only NAME]: decide one property on /repo's current tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from nsa import driver, specs


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    verbose = '-v' in sys.argv
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1]
        a.remove(only)
    if a == ['setup']:
        driver.ensure_irdump()
        driver.ensure_effects()
        return 0
    st = 0
    for pid in a:
        r = driver.check(pid, specs.SPECS[pid], 'thorough' if '--thorough' in sys.argv else 'quick',
                         int(os.environ.get('VERIF_SEED', '1') or 1), verbose, only)
        st = st or r
    return st


if __name__ == '__main__':
    try:
        sys.exit(main())
    except driver.Broken as e:
        print('ANALYSIS-ERROR', e)
        sys.exit(2)
