#!/usr/bin/env python3
"""Builds every harness once, so that the checks start from a warm object cache."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "checks.json")) as f:
    checks = json.load(f)
bad = 0
for prop in sorted(checks):
    r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop, "--build-only"])
    print(prop, "built" if r.returncode == 0 else "NOT BUILT", flush=True)
    bad |= r.returncode
sys.exit(1 if bad else 0)
