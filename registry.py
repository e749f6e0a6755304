#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], state=state or []))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=None, note=None, observe=[], state=[]))
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "registry_data.py")).read())

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
DEEP = {"C06", "C22", "C26", "C30"}  # whose quick run looks at a part of the catalogue
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 -m ticsa.build",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py " + p["id"],
            "thorough_cmd": ("VERIF_TIER=thorough " if p["id"] in DEEP else "") + "python3 check.py " + p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": p["note"],
        } for p in sorted(P, key=lambda p: p["id"]) if p["technique"]],
        "not_applicable": NA,
        "notes": "All checks analyse the MIR that rustc (nightly, through the driver in driver/) produces for /repo's "
                 "working tree; nothing of /repo is executed. There are no hooks in /repo.",
    }, f, indent=1)
    f.write("\n")
import design
design.write(P, NA)
