#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
checks = []
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"env VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": s.get("technique", "runtime monitoring: online reference-model monitor plus ASan/UBSan over seeded simulation of the real daemon")
            + ("; memcheck on a part of the cases" if s.get("memcheck") else ""),
            "level": s.get("level", "exploration"),
            "level_note": s.get("note", "Holds on every execution explored (seeded, reproducible); no exhaustiveness claim. Trusts the model kernel/peers of the harness and the sanitizer runtimes."),
        })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in props.PROPS],
    "notes": "Checks compile /repo's sources themselves (clang, sanitizers) with libc calls redirected to a model kernel by symbol renaming of the object files; no hooks in /repo are needed. known_findings.txt lists repaired defects.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
