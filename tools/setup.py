#!/usr/bin/env python3
"""Makes sure that what the checks need is there."""
import os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build
missing = [t for t in ('gcc', 'clang') if not shutil.which(t)]
if missing:
    sys.exit('missing: %s' % missing)
os.makedirs(os.path.join(build.VERIF, 'evidence'), exist_ok=True)
d = tempfile.mkdtemp(prefix='passgen-verif-')
try:
    exe = build.build(d, 'san', {'drv': ([os.path.join(build.VERIF, 'drv/drv.c')], [])})['drv']
    r = subprocess.run([exe], input='sip 0 8 %s -\n' % ('00' * 16), capture_output=True, text=True)
    print('driver works' if r.returncode == 0 else r.stderr)
    sys.exit(r.returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
