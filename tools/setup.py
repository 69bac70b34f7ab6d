#!/usr/bin/env python3
"""Builds the instrumented variants once, so that the checks start from a warm cache."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build  # noqa: E402
for v in ("san-compact", "opt-compact", "san-fatty", "opt-fatty", "san-hygienic", "opt-hygienic", "clo-compact", "clo-fatty", "gos-compact", "gos-fatty", "mem-compact", "mem-fatty", "mem-hygienic"):
    print(build.build(v))
