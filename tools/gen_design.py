#!/usr/bin/env python3
"""gen_design.py: writes the per-property section and the planted-bug table of DESIGN.md from table.py and seeded/."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from table import TABLE, BOUNDS, OUTSIDE
V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"Bounds: {BOUNDS[i]}. Outside: {OUTSIDE[i]}.\n")
    for e in TABLE[i]:
        t = "" if e["tier"] == "quick" else " (thorough)"
        out.append(f"- `{e['entry']}`{t}: {e['what']}")
    out.append("")
a = "\n".join(out)
catch = json.load(open(os.path.join(HERE, "caught.json"))) if os.path.exists(os.path.join(HERE, "caught.json")) else {}
rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {catch.get(b, 'not run')} |")
b = "\n".join(rows) + "\n"
path = os.path.join(V, "DESIGN.md")
s = open(path).read()
for tag, text in (("properties", a), ("planted", b)):
    x, y = f"<!-- {tag} -->\n", f"<!-- end {tag} -->"
    s = s[: s.index(x) + len(x)] + "\n" + text + "\n" + s[s.index(y):]
open(path, "w").write(s)
