#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/native cargo build --release --offline --manifest-path native/Cargo.toml",
     "hooks": {"guard": "none: the checks need no hooks in /repo", "enable": "nothing to enable", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    c = checks.CHECKS.get(i)
    if c is None:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "not claimed yet: its check is still being built")})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
