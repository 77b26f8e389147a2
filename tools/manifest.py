#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("The TLA+ specification (spec/AOB.tla, spec/Props.tla) is model checked exhaustively with TLC in small bounds, and every recorded "
        "execution of the real program is judged by it with TLC; outside the explored histories the binding is by sampling. Trusted: TLC, the "
        "projection of account bytes to the specification's state (harness/src/rt.rs), the miniature runtime's rollback of failed instructions.")
NA = {}
EXTRA = {}
checks = []
na = []
for row in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(row)["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    if pid == "P20" and not os.path.exists(os.path.join(V, "harness-wasm/Cargo.toml")):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    checks.append({"property": pid, "quick_cmd": "python3 tools/check.py %s quick" % pid,
                   "thorough_cmd": "python3 tools/check.py %s thorough" % pid,
                   "technique": "TLA+ specification checked with TLC; trace validation and replay against the real code",
                   "level": "model_checking", "level_note": EXTRA.get(pid, NOTE)})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the drivers use the crate's public API (feature utils) only."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
