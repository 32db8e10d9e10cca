#!/usr/bin/env python3
"""Nothing to install: checks build their harnesses from /repo's working tree themselves. Verifies that the tools are there."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
ok = shutil.which('java') and shutil.which(vlib.CXX) and all(os.path.exists(p) for p in vlib.TLC_JAR.split(':'))
for d in (vlib.BUILD, vlib.OUT, os.path.join(vlib.ROOT, 'evidence')):
    os.makedirs(d, exist_ok=True)
print('tools present' if ok else 'java, TLC or the compiler is missing')
sys.exit(0 if ok else 1)
