#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and tools/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
import registry

def main():
    claimed, rest, checks = [], [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            assert len(q["title"]) <= 80, q["title"]
            assert q["statement"].count(". ") <= 2, q["id"]
            fh.write(json.dumps(q) + "\n")
            if p["id"] not in registry.PROPS:
                rest.append({"property": p["id"], "reason": "check not built yet"})
                continue
            checks.append({
                "property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
                "level_note": (p["note"] or "No violation was observed on the executed cases; nothing is claimed about cases which were not executed.") +
                " Assumes: " + "; ".join(registry.PROPS[p["id"]]["assumptions"]) + ".",
            })
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": rest,
         "notes": "No hooks in /repo: the harness packages are placed into kache's module by a build overlay and observe exported API, connections and the runtime."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")

main()
