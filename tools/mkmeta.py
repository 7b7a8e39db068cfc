#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = "libs/std/include/rtbot/std/"
FIN = "libs/finance/include/rtbot/finance/"
CORE = "libs/core/include/rtbot/"

INDUCTIVE = "abstract interpretation: inferred inductive relation between operator state and specified behaviour"
NOTE_IND = ("For every configuration listed in the evidence as established, each entry point was analysed from an arbitrary "
            "related state with an arbitrary message and parameters, so the claim covers every history; configurations "
            "that could not be established fall back to abstract unrolling from the constructor (bounded) and are "
            "listed as such. Trusts the clang 18 front end and the library models; values are real numbers, times "
            "natural numbers without wrap-around.")
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique=INDUCTIVE, note=NOTE_IND, na=None, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "hook_needed": None}}
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["technique"],
                 "level": "other", "level_note": p["note"]} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "All checks are static analyses of the sources under /repo; no code of rtbot is executed. Properties and this "
              "file are generated by tools/mkmeta.py from tools/table.py."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")
