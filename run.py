#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property for /repo's current tree."""
import glob
import importlib
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':      # the same order of exploration in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'vsa'), os.path.join(HERE, 'checks')]
import report

for f in sorted(glob.glob(os.path.join(HERE, 'checks', 'c_*.py'))):
    importlib.import_module(os.path.basename(f)[:-3])

if __name__ == '__main__':
    if sys.argv[1:] == ['--list']:
        print(' '.join(sorted(report.REGISTRY)))
        sys.exit(0)
    sys.exit(report.main(sys.argv[1:]))
