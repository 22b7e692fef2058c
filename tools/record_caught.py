#!/usr/bin/env python3
"""record_caught.py DIR: notes in caught.json which entry caught each planted bug (DIR/<id>.chk are outputs of check.py)."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
P = os.path.join(HERE, "caught.json")
c = json.load(open(P)) if os.path.exists(P) else {}
for f in glob.glob(os.path.join(sys.argv[1], "*.chk")):
    b = os.path.basename(f)[:-4]
    if not os.path.isdir(os.path.join(os.path.dirname(HERE), "seeded", b)):
        continue
    es = []
    for l in open(f, errors="replace"):
        m = re.match(r"VIOLATION property=\S+ replay=\S+ +# (\w+):", l)
        if m and m.group(1) not in es:
            es.append(m.group(1))
    c[b] = ", ".join(f"`{e}`" for e in es) if es else "not caught"
json.dump(c, open(P, "w"), indent=1, sort_keys=True)
