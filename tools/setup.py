#!/usr/bin/env python3
"""Nothing to build: checks import the Python sources from /repo.  Verifies the tools."""
import os
import subprocess
import sys
for f in ("/opt/venv/bin/python", "/opt/veriftools/tla/tla2tools.jar",
          "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(f):
        sys.exit("missing " + f)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
sys.exit(subprocess.call(["java", "-version"]))
