#!/usr/bin/env python3
"""setup_cmd: everything is interpreted; check that the tools are there and the specifications parse."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('java', 'gcc', 'make'):
    if not shutil.which(t):
        sys.exit('%s is missing' % t)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('ok')
