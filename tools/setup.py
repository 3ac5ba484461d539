#!/usr/bin/env python3
"""Checks that the harness builds offline from the committed files."""
import os, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import check
tmp = tempfile.mkdtemp(prefix="gseverif-")
try:
    check.build(tmp, check.go_env(tmp), False)
    check.build(tmp, check.go_env(tmp), False, True)
    print("harness builds")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
