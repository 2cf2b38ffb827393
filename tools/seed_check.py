#!/usr/bin/env python3
"""Runs the check of planted bugs against /repo with each applied, then undoes it: seed_check.py ID... (development tool)."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:]:
    d = os.path.join(HERE, "seeded", i)
    pid = json.load(open(d + "/meta.json"))["property"]
    assert subprocess.run(["git", "status", "--porcelain", "-uno"], cwd="/repo", capture_output=True, text=True).stdout == ""
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd="/repo", check=True)
    t = time.time()
    try:
        p = subprocess.run([sys.executable, "bin/check.py", pid], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/repo", check=True)
    hit = p.returncode == 1 and "VIOLATION property=" + pid in p.stdout
    print(i, pid, "CAUGHT" if hit else "MISSED (exit %d)" % p.returncode, "%.0f s" % (time.time() - t), flush=True)
    print("   ", "\n    ".join([l for l in p.stdout.splitlines() if l.startswith(("FAILED", "ERROR", "not rep"))][:3]))
