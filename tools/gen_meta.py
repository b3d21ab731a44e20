#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the one table below.

Run it after editing the table:  python3 tools/gen_meta.py
"""
import importlib.util
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("table", os.path.join(ROOT, "tools", "table.py"))
table = importlib.util.module_from_spec(spec)
spec.loader.exec_module(table)

props, checks, manifest = [], {}, []
for pid, p in table.PROPERTIES.items():
    assert len(p["title"]) <= 80, pid
    props.append({
        "id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
            "observe_at": p["observe"],
            "hook_needed": None,
        },
    })
    if pid in table.NOT_CLAIMED:
        continue
    kind = p.get("kind", "sim")
    checks[pid] = {"level": "exploration", "rule": p["rule"], "assumptions": table.ASSUMPTIONS[kind] + p.get("assume", [])}
    manifest.append({
        "property": pid,
        "quick_cmd": f"python3 run.py {pid} --tier quick",
        "thorough_cmd": f"python3 run.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": table.NOTE[kind] + (" " + p["note"] if p.get("note") else ""),
    })

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(ROOT, "checks.json"), "w") as f:
    json.dump(checks, f, indent=1, ensure_ascii=False)
    f.write("\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 -c \"from vlib import boot; boot.build_shim()\"",
        "checks": manifest,
        "not_applicable": [{"property": k, "reason": v} for k, v in table.NOT_CLAIMED.items()],
        "notes": table.NOTES,
    }, f, indent=1, ensure_ascii=False)
    f.write("\n")
