#!/usr/bin/env python3
"""Writes a planted bug from an edit: seed_new.py ID PROPERTY FILE < json {old,new,needs,breaks,demo,schemas} (development tool)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seed/repo"
DEMO = '''#!/bin/bash
# Builds a small program against this working tree and runs its assertions.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'find "$T" -depth -delete' EXIT
mkdir "$T/src"
cp "$D"/*.json5 "$T/" 2>/dev/null
cp "$D/main.rs.txt" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/"
{
    printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nbp3d-proto = { path = "%s/runtime" }\\nbytesutil = "*"\\n' "$R"
    if [ -f "$D/build.rs.txt" ]; then
        cp "$D/build.rs.txt" "$T/build.rs"
        printf '[build-dependencies]\\nbp3d-protoc = { path = "%s/compiler" }\\n' "$R"
    fi
} > "$T/Cargo.toml"
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" timeout 250 cargo run --offline -q
'''
def make(id, prop, edits, needs, breaks, main, build=None, schemas={}):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    subprocess.run(["git", "fetch", "-q", "/repo", "HEAD"], cwd=R, check=True)
    subprocess.run(["git", "checkout", "-qf", "FETCH_HEAD"], cwd=R, check=True)
    for f, old, new in edits:
        p = os.path.join(R, f)
        s = open(p).read()
        assert s.count(old) >= 1, (id, f, old)
        open(p, "w").write(s.replace(old, new, 1))
    diff = subprocess.run(["git", "diff"], cwd=R, capture_output=True, text=True, check=True).stdout
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=R, check=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs.txt", "w").write(main)
    if schemas:
        loads = "".join("loader.load(\"./%s\")?; " % n for n in schemas if not n.startswith("import_"))
        b = "fn main() {\n"
        b += "    bp3d_protoc::generate_rust(|loader| { %sOk(()) }, |p| p.set_reads_messages(true).set_writes_messages(true));\n}\n" % loads
        open(d + "/build.rs.txt", "w").write(build or b)
        for n, t in schemas.items():
            open(os.path.join(d, n), "w").write(t)
    elif build:
        open(d + "/build.rs.txt", "w").write(build)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
