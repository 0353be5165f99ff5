#!/usr/bin/env python3
"""Checks the toolchain the checks need; everything else is built by each check from /repo's working tree."""
import subprocess, sys
for c in (['g++', '--version'], ['/usr/bin/python3', '-c', 'import numpy, scipy']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
print('ok')
