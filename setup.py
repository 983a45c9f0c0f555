#!/usr/bin/env python3
"""Build the monitors once (the checks rebuild what changed)."""
import subprocess, sys
import check
bad = 0
for n in ("default", "avx"):
    if not check.BUILDS[n].build():
        print(check.BUILDS[n].error[-3000:], file=sys.stderr)
        bad = 1
sys.exit(bad)
