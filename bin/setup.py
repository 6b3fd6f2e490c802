#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs from /repo itself."""
import os, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
os.makedirs(vf.EVID, exist_ok=True)
for c in (['clang++', '--version'], ['java', '-version']): subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
print('ready')
