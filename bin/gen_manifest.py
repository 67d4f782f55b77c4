#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.py (one list PROPS per file)."""
import json, os, runpy, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(os.listdir(f"{ROOT}/props")):
    if f.endswith(".py"):
        props += runpy.run_path(f"{ROOT}/props/{f}")["PROPS"]
seen = set()
with open(f"{ROOT}/properties.jsonl", "w") as out:
    for p in props:
        assert p["id"] not in seen, p["id"]
        seen.add(p["id"])
        assert len(p["title"]) <= 80, p["title"]
        rec = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]},
        }
        if p.get("observe_at"):
            rec["anchors"]["observe_at"] = p["observe_at"]
        out.write(json.dumps(rec, ensure_ascii=False) + "\n")
checks, na = [], []
for p in props:
    if "not_applicable" in p:
        na.append({"property": p["id"], "reason": p["not_applicable"]})
    else:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 bin/check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {p['id']}",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p.get("level_note", "every execution the workload produced is judged; executions it did not produce are not"),
        })
manifest = {
    "version": 1,
    "setup_cmd": "python3 bin/check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks: the monitors observe public interfaces and the C library boundary only", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "bin/gen_manifest.py writes this file and properties.jsonl from props/*.py. Fixes of genuine defects and known findings: KNOWN_FINDINGS.txt.",
}
with open(f"{ROOT}/MANIFEST.json", "w") as out:
    json.dump(manifest, out, indent=1, ensure_ascii=False)
    out.write("\n")
print(len(checks), "checks,", len(na), "not applicable")

# The table of planted bugs in DESIGN.md, from seeded/*/meta.json.
rows = ["| bug | property (check that catches it) | needs |", "|---|---|---|"]
seeded = f"{ROOT}/seeded"
for b in sorted(os.listdir(seeded)) if os.path.isdir(seeded) else []:
    meta = json.load(open(f"{seeded}/{b}/meta.json"))
    also = meta.get("note")
    rows.append(f"| {b} | {meta['property']} | {meta['needs']}{' — ' + also if also else ''} |")
design = open(f"{ROOT}/DESIGN.md").read()
head, rest = design.split("<!-- bugs -->\n", 1)
tail = rest.split("<!-- /bugs -->", 1)[1]
open(f"{ROOT}/DESIGN.md", "w").write(head + "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->" + tail)
