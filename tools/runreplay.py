#!/usr/bin/env python3
"""runreplay.py PROP [secs] [repo]: run the directed search of one property against a tree."""
import os, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv0 = sys.argv[:]
if len(sys.argv) > 3:
    os.environ["VERIF_REPO"] = sys.argv[3]
spec = importlib.util.spec_from_file_location("check", os.path.join(V, "tools", "check.py"))
src = open(spec.origin).read().replace("\nmain()\n", "\n")
ns = {"__file__": spec.origin, "__name__": "check"}
exec(compile(src, spec.origin, "exec"), ns)
print(ns["replay"](sys.argv[1], ns["goenv"](), int(os.environ.get("VERIF_SEED", "1")), int(sys.argv[2]) if len(sys.argv) > 2 else 10, sys.stdout))
