"""Writes known-findings.jsonl (run by hand; no check writes it)."""
import json, os
out = []


def known(prop, what, keys, versions=None):
    d = {"status": "known", "property": prop, "what": what, "keys": keys}
    if versions:
        d["versions"] = versions
    out.append(d)


def fixed(prop, commit, what):
    out.append({"status": "fixed", "property": prop, "commit": commit, "what": what,
                "line": "fixed: property=%s %s %s" % (prop, commit, what)})


R = lambda a, b: list(range(a, b + 1))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_table.py")).read())
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.jsonl"), "w") as f:
    for d in out:
        f.write(json.dumps(d) + "\n")
