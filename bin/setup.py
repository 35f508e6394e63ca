#!/usr/bin/env python3
"""Builds the simulator in all variants."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib  # noqa: E402

try:
    for v in ["checked", "release", "nostd"]:
        print(v, simlib.build(v))
except simlib.BuildError as e:
    simlib.die(str(e))
