#!/usr/bin/env python3-vt
import os, sys
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from pyvc.lib import main
if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(sys.argv[1], tier, sys.argv[3] if len(sys.argv) > 3 else None))
