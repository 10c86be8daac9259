#!/usr/bin/env python3
"""Checks that what the checks need is installed; nothing has to be built."""
import shutil, subprocess, os, sys
for t in ('clang++-18', 'g++'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
py = '/opt/veriftools/pyvenv/bin/python3'
subprocess.run([py if os.path.exists(py) else 'python3-vt', '-c', 'import z3'], check=True)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(V + '/evidence', exist_ok=True)
print('ok')
