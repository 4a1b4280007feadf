#!/usr/bin/env python3
"""Builds the harness and parses the specifications once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import run
try:
    run.build()
except run.ToolError as e:
    print("ERROR:", e)
    sys.exit(2)
print("ok")
