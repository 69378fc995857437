#!/usr/bin/env python3
"""Nothing to install: checks that the tools are there and that the specifications parse."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

for m in sorted(f[:-4] for f in os.listdir(vf.SPEC) if f.endswith('.tla')):
    p = subprocess.run(['java', '-cp', vf.CP, 'tla2sany.SANY', m + '.tla'], cwd=vf.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout)
        sys.exit(1)
    print('parsed', m)
subprocess.run(['g++', '--version'], check=True, stdout=subprocess.DEVNULL)
