#!/usr/bin/env python3
"""check.py <PROPERTY> [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)"""
import importlib, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from wv import build, core


def main():
    t0 = time.time()
    pid = sys.argv[1]
    seed = os.environ.get('VERIF_SEED', '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    mod = importlib.import_module('wv.props.' + pid.lower())
    prop = mod.PROP
    try:
        paths = build.build(prop.configs)
    except build.BuildError as e:
        sys.stderr.write('BUILD ERROR: %s\n' % e)
        return 2
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return core.replay(prop, paths, sys.argv[3])
    return core.run_check(prop, paths, seed, tier, t0)


if __name__ == '__main__':
    sys.exit(main())
