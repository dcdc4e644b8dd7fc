#!/usr/bin/env python3
"""Sanity check of the toolchain; nothing is built ahead of the checks (they build from /repo's current tree)."""
import os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
for c in (['java', '-version'], ['g++', '--version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for f in ('/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar'):
    if not os.path.exists(f):
        sys.exit('missing ' + f)
print('setup ok')
