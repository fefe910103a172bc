"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, not by any check)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RP = "cli/src/protocol/render/rust/"
TP = "cli/src/protocol/render/typescript/"
RS = RP + "static/protocol."
TS = TP + "static/"
PAR = ["cli/src/protocol/parser.rs", "cli/src/protocol/store.rs", "cli/src/protocol/fields.rs", "cli/src/protocol/enums.rs"]


def p(id, title, statement, over, text, why, files, mech, technique, note, observe=(), thorough=True):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note, observe=list(observe))


PROPS = []
exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in PROPS:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": None}}) + "\n")

checks = []
for x in PROPS:
    if os.path.exists(os.path.join(V, "checks", x["id"].lower() + ".py")):
        checks.append({"property": x["id"], "quick_cmd": f"./run {x['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./run {x['id']}",
                       "technique": x["technique"], "level": "exploration", "level_note": x["note"]})
claimed = {c["property"] for c in checks}
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": x["id"], "reason": "no check yet"} for x in PROPS if x["id"] not in claimed],
     "notes": "No hooks: every check drives the CLI built from /repo's working tree and the code it generates. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(PROPS), "properties,", len(checks), "checks")
