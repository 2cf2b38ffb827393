#!/usr/bin/env python3
"""Checks that the tools the checks need are there."""
import glob, os, shutil, subprocess, sys
env = dict(os.environ, CARGO_NET_OFFLINE="true")
ok = bool(glob.glob(os.path.expanduser("~/.kani/kani-*/bin/cbmc"))) and shutil.which("cargo") is not None
ok = ok and subprocess.run(["cargo", "kani", "--version"], env=env).returncode == 0
sys.exit(0 if ok else 1)
