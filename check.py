#!/usr/bin/env python3-vt
"""check.py PROPERTY [--replay FILE]; tier from VERIF_TIER"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import runner
sys.path.insert(0, runner.ROOT)
import props

if __name__ == '__main__':
    p = sys.argv[1]
    units, extra = props.PROPS[p]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        sys.exit(runner.replay(p, units, sys.argv[3]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    sys.exit(runner.Run(p, units, tier, extra).run())
