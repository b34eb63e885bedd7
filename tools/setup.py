#!/usr/bin/env python3
"""Nothing to build: the checks are interpreted.  Verifies that the tools they use are present."""
import shutil
import subprocess
import sys
need = ['clang++', 'g++', 'opt-18', '/opt/veriftools/pyvenv/bin/python3']
alt = {'opt-18': ['/usr/lib/llvm-18/bin/opt', 'opt'], 'clang++': ['clang++-18']}
bad = [n for n in need if not any(shutil.which(x) for x in [n] + alt.get(n, []))]
if not any(shutil.which(x) for x in ('clang-query', 'clang-query-18', '/usr/lib/llvm-18/bin/clang-query')):
    bad.append('clang-query')
r = subprocess.run(['/opt/veriftools/pyvenv/bin/python3', '-c', 'import mpmath, sympy'])
if r.returncode:
    bad.append('mpmath')
print('missing: %s' % bad if bad else 'tools present')
sys.exit(1 if bad else 0)
