#!/usr/bin/env python3
"""Rewrites MANIFEST.json from config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from config import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
json.dump({
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "hooks": {
        "guard": "cfg(kani) / cfg(bp3d_verif)",
        "enable": "cargo kani sets cfg(kani); the native replay builds with RUSTFLAGS=\"--cfg bp3d_verif\"",
        "source_commits": ["189c76ec1a59ac43c777020848245f949a4217a1"]
    },
    "checks": [{
        "property": i,
        "quick_cmd": "python3 bin/check.py " + i,
        "thorough_cmd": "python3 bin/check.py %s thorough" % i,
        "technique": "bounded symbolic execution of the compiled code (Kani/CBMC, SAT)" + PROPS[i].get("technique", ""),
        "level": "other",
        "level_note": "Bounded: " + PROPS[i]["bounds"] + ". Trusts Kani's encoding of MIR, CBMC and the SAT solver; every reported violation is "
                      "replayed against a native build first."
    } for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built yet")} for i in ids if i not in PROPS],
    "notes": "Known findings are in known_findings.json, the design in DESIGN.md."
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
