#!/usr/bin/env python3
"""Checks that the tools the checks need are there."""
import json
import os
import shutil
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [tool for tool in ("g++", "timeout") if not shutil.which(tool)]
with open(os.path.join(VERIF, "MANIFEST.json")) as f:
    json.load(f)
for folder in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(VERIF, folder), exist_ok=True)
if missing:
    print("missing tools: %s" % missing)
    sys.exit(1)
print("ready")
