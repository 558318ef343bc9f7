#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, claimed=True):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=" ".join(why.split()),
                  files=files, mech=mech, technique=technique, note=" ".join(note.split()), claimed=claimed))

exec(open(os.path.join(D, "meta_props.py")).read())

NA = []
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
M = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "env VERIF_TIER=thorough ./check.sh " + p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in P if not p["claimed"]],
}
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    f.write(json.dumps(M, indent=1) + "\n")
