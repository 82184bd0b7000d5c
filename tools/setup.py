#!/usr/bin/env python3
"""Setup: checks that the toolchain is there and that the harnesses build against /repo (also warms the build cache)."""
import os, shutil, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import run as R
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    env = R.go_env()
    R.make_modfile(d)
    seen = set()
    for pid, c in R.CHECKS.items():
        for u in c["units"]:
            if u["pkg"] in seen:
                continue
            seen.add(u["pkg"])
            R.build(d, u, env)
    print("setup ok:", len(seen), "packages")
finally:
    shutil.rmtree(d, ignore_errors=True)
