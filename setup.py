#!/usr/bin/env python3
"""Checks that the tools are there. Nothing has to be built ahead: every check builds what it needs."""
import subprocess, sys
for cmd in (["cargo", "kani", "--version"], ["cargo", "+stable-x86_64-unknown-linux-gnu", "--version"]):
    r = subprocess.run(cmd, capture_output=True, text=True)
    print(" ".join(cmd), "->", r.stdout.strip() or r.stderr.strip())
    if r.returncode:
        sys.exit(1)
