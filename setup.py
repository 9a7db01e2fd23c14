#!/usr/bin/env python3
"""Builds the compiler driver the checks use and dumps the analysed crate once (the checks redo what has changed)."""
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import dump                                                   # noqa: E402
try:
    for probe in dump.PROBES:
        print(dump.dump_tolerant(probe)[0])
except subprocess.CalledProcessError as e:
    sys.stderr.write((e.stderr or "")[-4000:])
    sys.exit(1)
