#!/usr/bin/env python3
"""Checks that the tools the checks need are there (nothing is installed or kept)."""
import os, shutil, sys
bad = [t for t in ("gcc", "g++", "java") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    bad.append("tla2tools.jar")
print("missing: %s" % bad if bad else "setup ok")
sys.exit(1 if bad else 0)
