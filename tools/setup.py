#!/usr/bin/env python3
"""Nothing to build: checks that the tools are there and that the specifications parse."""
import glob
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
for p in ('/opt/venv/bin/python', '/opt/veriftools/tla/tla2tools.jar'):
    if not os.path.exists(p):
        print('missing', p)
        bad = 1
for f in sorted(glob.glob(os.path.join(ROOT, 'spec', '*.tla'))):
    r = subprocess.run(['tla-sany', os.path.basename(f)], cwd=os.path.join(ROOT, 'spec'), capture_output=True, text=True)
    ok = r.returncode == 0 and '*** Errors' not in r.stdout
    print(os.path.basename(f), 'ok' if ok else r.stdout[-2000:] + r.stderr[-2000:])
    bad |= not ok
sys.exit(bad)
