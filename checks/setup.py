#!/usr/bin/env python3
"""Builds the instrumentation pass and the runtime (each check also does it when they are missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import build
build.plugin()
build.runtime()
