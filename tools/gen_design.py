"""Writes DESIGN.md: the general text (tools/design_head.md), one section per property from its module, findings, limitations and the table of planted bugs."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
WHY = json.load(open(os.path.join(V, "tools", "design_notes.json")))
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "", "## The properties", ""]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    m = importlib.import_module(f"mc.props.{p['id'].lower()}")
    n = WHY["properties"][p["id"]]
    out += [
        f"### {p['id']} {p['title']}",
        "",
        f"* *Decided by*: {m.TECHNIQUE}.",
        f"* *Oracle*: {n['oracle']}.",
        f"* *Bounds, quick*: {m.BOUNDS['quick']}. *Thorough*: {m.BOUNDS['thorough']}.",
        "* *Assumes*: " + "; ".join(m.ASSUMPTIONS) + ".",
        f"* *Beyond the tests*: {n['why']}.",
        f"* *Cost*: quick about {n['cost']} s on 8 cores.",
        "",
    ]
out += ["## Genuine defects found", "", "All were repaired by one `fix:` commit each in /repo (list in `known_findings.txt`; no finding is left unrepaired):", ""]
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith("fixed:"):
        _, prop, commit, *what = l.split()
        out.append(f"* {prop.split('=')[1]} `{commit}`: {' '.join(what)}")
out += ["", open(os.path.join(V, "tools", "design_tail.md")).read().rstrip(), "", "## Planted bugs and the checks that catch them", ""]
c = json.load(open(os.path.join(V, "tools", "catches.json")))
out += [
    "`seeded/` holds those that also pass the repository's tests; the others were used while building.",
    "", "| bug | property | in seeded/ | caught by | needs, or change |", "|---|---|---|---|---|",
]
for b in c:
    out.append(f"| {b['id']} | {b['property']} | {'yes' if os.path.isdir(os.path.join(V, 'seeded', b['id'])) else 'no'} | {b['caught']} | {b['needs']} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
