#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.txt: the 'fixed:' lines from tools/fixes.py; lines that start with KNOWN: are kept."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from fixes import FIXES
path = os.path.join(here, '..', 'KNOWN_FINDINGS.txt')
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
h = dict(reversed(l.split(' ', 1)) for l in log)
keep = [l for l in open(path).read().splitlines() if l.startswith('KNOWN:')]
out = ['fixed: property=%s %s %s' % (p, h['fix: ' + s], w) for s, ps, w in FIXES for p in ps.split()]
open(path, 'w').write('\n'.join(keep + sorted(out)) + '\n')
