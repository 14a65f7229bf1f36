"""Writes properties.jsonl and MANIFEST.json from the tables below (kept in one place so
that they stay in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, check=None, na=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    assert len(title) <= 80, title
    P.append((d, check, na))


exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, c, n in P:
        f.write(json.dumps(d) + "\n")
M = {"version": 1, "setup_cmd": "python3 sa/build.py", "checks": [], "not_applicable": [],
     "notes": "Static analysis only: every check dumps the monomorphised MIR of /repo's current tree with the "
              "driver in driver/ and decides its property from it; nothing of the crate is executed."}
for d, c, n in P:
    if c:
        M["checks"].append({"property": d["id"], "quick_cmd": "python3 sa/check.py " + d["id"],
                            "thorough_cmd": "python3 sa/check.py " + d["id"],
                            "technique": c[0], "level": "other", "level_note": c[1]})
    else:
        M["not_applicable"].append({"property": d["id"], "reason": n})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(M["checks"]), "checks")
