#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props_text.py and props.py."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props_text import T
from props import PROPS

NOTE = ("Held on the executions counted in the evidence file, nothing beyond them. Trusts the oracle in "
        "/verif/harness, the heap monitor and the sanitizers.")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for k in sorted(T):
        f.write(json.dumps(T[k], ensure_ascii=False) + "\n")

checks = []
for k in sorted(T):
    p = PROPS.get(k)
    if not p or not p.get("runs"):
        continue
    checks.append({
        "property": k,
        "quick_cmd": "python3 check.py %s --tier quick" % k,
        "thorough_cmd": "python3 check.py %s --tier thorough" % k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p.get("note", NOTE),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "CRE_TEST", "enable": "-DCRE_TEST (upstream's own test guard; nothing was added to it in /repo)",
              "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": "The check is not built yet."}
                       for k in sorted(T) if not PROPS.get(k, {}).get("runs")],
    "notes": "All checks are runtime monitoring: see DESIGN.md. VERIF_REPO selects another source tree (default /repo).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(T), "properties,", len(checks), "checks")
