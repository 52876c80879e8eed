"""Writes properties.jsonl and MANIFEST.json from one table.  python3 tools/registry.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=list(observe), claim=claim, reason=reason))


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
TRUST = (" Bounded exploration: the property is decided on every execution the monitors observed, and on no other. "
         "Trusts numpy, pandas, scipy and the reference model in the check.")
M = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
                 "thorough_cmd": f"bash check.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json",
                 "technique": p["technique"], "level": "exploration",
                 "level_note": p["note"] + TRUST} for p in P if p["claim"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claim"]],
     "notes": "No hooks in /repo: every monitor observes the public API of the code in /repo's working tree. "
              "Exit 3 means inconclusive or a failure of the harness, never a verdict."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(line), s)
    print("valid:", len(P), "properties,", len(M["checks"]), "checks")
except ImportError:
    print("written, not validated")
