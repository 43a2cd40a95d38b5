#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]"""
import importlib, os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), d) for d in ('lib', 'checks')]
sys.dont_write_bytecode = True
import vlib
if __name__ == '__main__':
    prop = sys.argv[1]
    m = importlib.import_module(prop.lower())
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(vlib.run_check(prop, m.run, m.LEVEL, tier))
