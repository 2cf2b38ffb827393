#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo: seed_try.py ID... (development tool, run by no check)."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seed/repo"
if not os.path.isdir(R):
    os.makedirs("/tmp/seed", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", R], check=True)
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=R + "/target")
denv = dict(os.environ)
def sh(cmd, e=env):
    p = subprocess.run(cmd, cwd=R, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
sh(["git", "fetch", "-q", "/repo", "HEAD"]); sh(["git", "checkout", "-qf", "FETCH_HEAD"])
for i in sys.argv[1:]:
    d = os.path.join(HERE, "seeded", i)
    sh(["git", "checkout", "-q", "--", "."])
    rc0, out0 = sh(["bash", d + "/demo.sh"], denv)
    rc, out = sh(["git", "apply", d + "/patch.diff"])
    if rc:
        print(i, "patch does not apply", out); continue
    rc, out = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"])
    passed = sum(int(l.split(" passed")[0].split()[-1]) for l in out.splitlines() if l.startswith("test result"))
    rc1, out1 = sh(["bash", d + "/demo.sh"], denv)
    sh(["git", "checkout", "-q", "--", "."])
    good = rc0 == 0 and rc == 0 and passed == 26 and rc1 != 0
    print(i, "OK" if good else "BAD", "demo clean %d, tests rc %d passed %d, demo patched %d" % (rc0, rc, passed, rc1), flush=True)
    if rc0: print(out0[-1500:])
    if rc: print(out[-1500:])
    print("   ", " / ".join(l for l in out1.splitlines() if "panicked" in l or "left" in l or "assert" in l or "error" in l)[:300])
