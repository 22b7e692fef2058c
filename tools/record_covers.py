"""Maintenance: run entries once on the unchanged tree and record which cases each one reaches
(tools/covers.json, with the tree they were recorded on); a check that does not reach them there gives no answer."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from table import TABLE
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "covers.json")
cov = json.load(open(p)) if os.path.exists(p) else {}
names = sys.argv[1:]
cov["_tree"] = build.repo_hash()
for es in TABLE.values():
    for e in es:
        n = e["entry"]
        if (names and n not in names) or (not names and n in cov):
            continue
        r = subprocess.run([build.ENGINE, build.IR, n, "--workers", "8", "--deadline", "1500", "--out", "/tmp/rc.json"]
                           + (["--alloc", str(e["alloc"])] if "alloc" in e else []))
        d = json.load(open("/tmp/rc.json"))
        cov[n] = d["covers"]
        json.dump(dict(sorted(cov.items())), open(p, "w"), indent=0)
        print(n, d["covers"], d["wall_s"], flush=True)
json.dump(dict(sorted(cov.items())), open(p, "w"), indent=0)
