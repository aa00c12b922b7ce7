#!/usr/bin/env python3
"""Builds every check binary once (the checks rebuild what they need)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
build.build(sorted(build.BINARIES))
print('built', len(build.BINARIES), 'binaries')
