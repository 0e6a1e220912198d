#!/usr/bin/env python3
"""mkdesign.py: DESIGN.md from tools/DESIGN.in.md, the claims, the evidence of the last runs and tools/seedresults.txt."""
import json, os, glob, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import replaycfg
exec(open(os.path.join(V, "tools", "claims.py")).read())
short = lambda f: f.replace("krypto431.", "").replace("(*Krypto431).", "").replace("(*Message).", "Message.").replace("(*Key).", "Key.").replace("(*codecState).", "codecState.")
rows = []
for i in sorted(CLAIMS):
    j = json.load(open("%s/evidence/%s.json" % (V, i)))
    c = j["coverage"]
    fs = [short(f["function"]) for f in c["functions_under_contract"]]
    cell = ", ".join(fs) if len(fs) <= 30 else ", ".join(fs[:30]) + " and %d more" % (len(fs) - 30)
    b = "; ".join(", ".join(e[3]) + " (" + e[4] + ")" for e in replaycfg.BOUNDED.get(i, [])) or "none"
    rows.append("| %s | %s: %d obligations | %s | %s |" % (i, cell, c["obligations"], CLAIMS[i], b))
res = {}
p = V + "/tools/seedresults.txt"
if os.path.exists(p):
    for l in open(p):
        f = l.rstrip("\n").split(" | ")
        res[f[0]] = f[1]
seeds = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    seeds.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("\n", " ").replace("|", "/"), res.get(n, "not run since last change")))
nc = "\n".join("**%s**: %s." % (k, v) for k, v in NA.items() if k not in ("C21", "C22"))
s = open(V + "/tools/DESIGN.in.md").read().replace("@TABLE@", "\n".join(rows)).replace("@SEEDS@", "\n".join(seeds)).replace("@NOTCLAIMED@", nc)
open(V + "/DESIGN.md", "w").write(s)
