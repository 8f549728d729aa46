#!/usr/bin/env python3
"""run.py check ID: decide one property on /repo's working tree.

Exit 0: it held on everything explored.  Exit 1, with a line
"VIOLATION property=ID replay=PATH": it is broken.  Exit 2: the check failed.
"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
sys.dont_write_bytecode = True
import engine, checks

if __name__ == '__main__':
    if len(sys.argv) < 3 or sys.argv[1] != 'check':
        print(__doc__)
        sys.exit(2)
    sys.exit(engine.main(sys.argv[2], checks.CHECKS[sys.argv[2]]))
