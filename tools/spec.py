#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # properties
NA = []         # (id, reason)


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, level="other", na=None, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
               "why_tests_cant": why, "anchors": a}, technique, note, level, na))


exec(open(os.path.join(V, "tools", "props.py")).read())


def main():
    P.sort(key=lambda p: p[0]["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, *_ in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, tech, note, level, n in P:
        if n:
            na.append({"property": p["id"], "reason": n})
            continue
        if not os.path.exists(os.path.join(V, "rules", p["id"].lower() + ".py")):
            na.append({"property": p["id"], "reason": "not built yet: no check is registered for it at this commit"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": tech, "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
