#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]   (tier and seed from VERIF_TIER / VERIF_SEED)"""
import os
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))      # another tree only while planting bugs
if os.environ.get('VERIF_CHILD') != '1':
    scratch = tempfile.mkdtemp(prefix='verif_')
    env = dict(os.environ, VERIF_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', BROWSER='true',
               PYTHONPATH=REPO, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TMPDIR=scratch)
    import subprocess
    args = [os.path.abspath(a) if os.path.exists(a) else a for a in sys.argv[1:]]
    try:
        sys.exit(subprocess.call([PY, os.path.join(ROOT, 'check.py')] + args, cwd=scratch, env=env))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

sys.path.insert(0, os.path.join(ROOT, 'harness'))
import logging
import warnings

warnings.filterwarnings('ignore')
import flixOpt  # noqa

logging.disable(logging.CRITICAL)
assert os.path.realpath(flixOpt.__file__).startswith(os.environ['PYTHONPATH'] + '/'), flixOpt.__file__
import runner

a = sys.argv[1:]
sys.exit(runner.main(a[0], os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')), a[2] if len(a) > 2 and a[1] == '--replay' else None))
