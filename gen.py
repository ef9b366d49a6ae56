#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, subprocess
from props import PROPS, NA, META
with open("properties.jsonl", "w") as f:
    for k in sorted(META):
        f.write(json.dumps(META[k]) + "\n")
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines()
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "cfg(jxl_verif)",
              "enable": "RUSTFLAGS='--cfg jxl_verif' JXL_VERIF_DIR=<dir with rt.rs, error.rs and hooks/*.rs> (check.py does this)",
              "source_commits": [l.split()[0] for l in log if " verif:" in l]},
    "checks": [{
        "property": k,
        "quick_cmd": f"python3 check.py {k}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {k}",
        "technique": PROPS[k].get("technique") or "bounded symbolic execution of the real code (Kani/CBMC), SAT verdict over all values in the bounds",
        "level": "other",
        "level_note": "Bounded: holds for every value within these bounds: " + PROPS[k]["bounds"] + " Outside: " +
                      PROPS[k]["outside"] + " Assumes: " + "; ".join(PROPS[k]["assumptions"]) + ".",
    } for k in sorted(PROPS)],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
}
json.dump(man, open("MANIFEST.json", "w"), indent=1)
