#!/usr/bin/env python3
"""runseed.py [ID|Cxx ...]: run each planted bug's property check against a scratch copy carrying the bug."""
import os, shutil, subprocess, sys, json, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def one(d):
    sid = os.path.basename(d); prop = json.load(open(d + "/meta.json"))["property"]
    w = "/tmp/runseed_" + sid; v = w + "_v"
    sh("rm -rf %s %s; cp -a /repo %s; mkdir %s; cp -a %s/. %s/; rm -rf %s/seeded %s/.git" % (w, v, w, v, V, v, v, v))
    try:
        r = sh("git checkout -q -- . && git apply %s/patch.diff" % d, cwd=w)
        if r.returncode: return sid, prop, "PATCH DOES NOT APPLY", r.stderr
        e = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1")
        r = sh("./check.sh %s quick" % prop, cwd=v, env=e)
        last = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "FAILING-INPUT", "failed obligation"))]
        return sid, prop, "rc=%d" % r.returncode, "\n    ".join(l[:230] for l in last[:2] + last[-2:])
    finally:
        sh("rm -rf %s %s" % (w, v))
sel = sys.argv[1:]
ds = [d for d in sorted(glob.glob(V + "/seeded/*")) if not sel or os.path.basename(d) in sel or json.load(open(d + "/meta.json"))["property"] in sel]
old = {}
rf = V + "/tools/seedresults.txt"
if os.path.exists(rf):
    old = dict(l.rstrip("\n").split(" | ", 1) for l in open(rf))
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ds):
        print(*r, flush=True)
        m = [l.strip() for l in r[3].splitlines()]
        ob = [l.split(": ", 1)[1] for l in m if l.startswith("failed obligation")]
        if r[2] != "rc=1": t = "MISSED"
        elif ob: t = "proof: " + ob[0].split(" (")[0][:110] + (" + failing input" if any(l.startswith("FAILING-INPUT") for l in m) else "")
        else: t = "bounded stand-in (failing input)"
        old[r[0]] = t.replace("|", "/")
        open(rf, "w").write("".join("%s | %s\n" % kv for kv in sorted(old.items())))
