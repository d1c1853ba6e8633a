#!/usr/bin/env python3
"""Nothing to build: checks that the tools the checks use are there and that the harness compiles"""
import ast, glob, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for path in glob.glob(V + '/harness/**/*.py', recursive=True) + [V + '/run_check.py']:
    with open(path) as fd:
        ast.parse(fd.read(), path)
py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
subprocess.check_call([py, '-c', 'import sys; assert sys.version_info >= (3, 12); sys.monitoring'])
if not shutil.which('valgrind'):
    sys.exit('valgrind not found')
os.makedirs(V + '/evidence', exist_ok=True)
print('ready')
