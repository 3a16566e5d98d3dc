#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then a section per property (tools/props.py, the rules and counts of the evidence
files of the last runs, the planted bugs of seeded/, known_findings.json) and the properties that are not claimed."""
import glob, json, os, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
known = json.load(open(os.path.join(V, "known_findings.json")))
checks = {c["property"]: c for c in man["checks"]}
seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))


def wrap(s, ind="", first=None):
    return textwrap.fill(s, 120, initial_indent=first if first is not None else ind, subsequent_indent=ind, break_long_words=False,
                         break_on_hyphens=False)


out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in props:
    c = checks.get(p["id"])
    if not c:
        continue
    out += ["### %s %s" % (p["id"], p["title"]), "", wrap("Method: " + c["technique"]), "", wrap("Bounds and trust: " + (c["level_note"] or "-")), "",
            wrap("Why the tests cannot settle it: " + p["why_tests_cant"]), ""]
    ev = os.path.join(V, "evidence", p["id"] + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))["coverage"]
        out += ["Obligations on the unchanged tree: %d over %d functions and %d paths." % (e["obligations"], e["functions_analysed"], e["paths_explored"]), ""]
        out += [wrap("%s (%d): %s" % (r, d["obligations"], d["rule"]), "  ", "- ") for r, d in e["rules"].items()] + [""]
    for n, d in seeds.get(p["id"], []):
        out.append(wrap("Planted bug `%s`, caught: %s. Manifests with: %s." % (n, d["what_it_breaks"].rstrip("."), d["needs"].rstrip(".")), "  ", "- "))
    for f in known["findings"]:
        if f["property"] == p["id"]:
            out.append(wrap("Known finding (%s, %s): %s." % (f["rule"], f["instance"], f["what"].rstrip(".")), "  ", "- "))
    for f in known["fixed"]:
        if f.startswith("fixed: property=%s " % p["id"]):
            out.append(wrap("Repaired " + f.split(" ", 2)[2] + ".", "  ", "- "))
    out.append("")
out += ["## Properties that are not claimed", ""]
why = {n["property"]: n["reason"] for n in man["not_applicable"]}
for p in props:
    if p["id"] in why:
        out += [wrap("%s %s: %s" % (p["id"], p["title"], why[p["id"]]), "  ", "- ")]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")
