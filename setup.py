#!/usr/bin/env python3
"""setup_cmd: nothing is kept between runs; make sure that the executor compiles and the tools are there."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp(prefix='lsx-setup-')
try:
    r = subprocess.run(['g++', '-std=c++17', '-O1', '-w', '-o', os.path.join(d, 'lsx'), os.path.join(V, 'engine', 'lsx.cpp'), '-lz3'])
    r2 = subprocess.run(['cargo', '--version'])
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    sys.exit(1 if r.returncode or r2.returncode else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
