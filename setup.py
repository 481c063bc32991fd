#!/usr/bin/env python3
"""Prebuilds the two build trees (checks also build whatever is missing or stale)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build
try:
    build.ensure("asan", ["aqsis_util", "aqsis_math", "aqsis_riutil"])
except build.BuildError as e:
    print(e); sys.exit(1)
