#!/usr/bin/env python3
"""setup_cmd: builds the symbolic executor (checks rebuild it when it is missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print(build.engine())
