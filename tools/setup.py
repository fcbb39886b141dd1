#!/usr/bin/env python3
"""Checks that everything the checks need is there: parses all specifications and
imports the code under test."""
import glob
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
bad = 0
for f in sorted(glob.glob(os.path.join(V, 'spec', '*.tla'))):
    p = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY', os.path.basename(f)],
                       cwd=os.path.join(V, 'spec'), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    out = p.stdout.decode()
    if p.returncode or 'Fatal errors' in out or '*** Errors' in out:
        print(out)
        bad = 1
print('specifications parsed' if not bad else 'FAILED')
sys.exit(bad)
