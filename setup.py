#!/usr/bin/env python3
"""setup_cmd: build the harness and check that the specification parses."""
import subprocess, sys
import check
try:
    check.build()
except check.ToolError as e:
    print(e)
    sys.exit(1)
sys.exit(subprocess.run(["java", "-version"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode)
