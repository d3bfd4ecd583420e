#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, level="exploration", note="", observe=None):
    """mech: list of (name, where)"""
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "observe_at": observe or [w for _, w in mech], "hook_needed": None},
                  _level=level, _note=note))


S = "src/hera_pspec/"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_text.py")).read())

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks = []
for p in P:
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick",
                   "thorough_cmd": f"./check {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": "runtime monitoring: oracle over observed executions of the real code under "
                                "randomized, hostile and fault-injected workloads",
                   "level": p["_level"], "level_note": p["_note"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": NOT_APPLICABLE, "notes": NOTES},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
