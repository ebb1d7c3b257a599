#!/usr/bin/env python3
"""Checks that what the checks need is there, by building the verifier once."""
import tempfile, shutil, check
tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    check.build_gocv(tmp)
finally:
    shutil.rmtree(tmp)
print("the verifier builds")
