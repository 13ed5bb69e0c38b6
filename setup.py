#!/usr/bin/env python3
"""Builds the engine and the standard library builds (optional warm-up: every check builds what it needs itself)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vlib'))
import build
build.prebuild([('fo', False)])
