#!/usr/bin/env python3
"""mkseed.py SPEC.py...: make and confirm planted bugs.  A spec file defines
ID, PROPERTY, EDITS=[(file, old, new)], PKG, DEMO (Go test source with TestDemo), NEEDS, BREAKS."""
import os, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# exit 0: the property held on this input; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$d/demo_test.go" > "$t/ov.json"
export VERIF_DEMO_DIR=$t
go test -vet=off -count=1 -timeout 120s -overlay "$t/ov.json" -run '^TestDemo$' ./%(pkg)s
"""
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def one(spec):
    g = {}
    exec(open(spec).read(), g)
    sid = g["ID"]; d = os.path.join(V, "seeded", sid)
    w = "/tmp/seedwork_" + sid
    shutil.rmtree(w, ignore_errors=True)
    sh("git -C /repo worktree prune; cp -a /repo %s" % w)
    sh("git checkout -q -- .", cwd=w)
    try:
        for f, o, n in g["EDITS"]:
            p = os.path.join(w, f); s = open(p).read()
            if s.count(o) != 1: return sid, "edit matches %d times in %s: %r" % (s.count(o), f, o[:60])
            open(p, "w").write(s.replace(o, n))
        diff = sh("git diff", cwd=w).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH % {"pkg": g["PKG"]}); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(g["DEMO"])
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(". /opt/vp/env.sh; go build ./... && go vet ./... ; go build ./... && go test -vet=off -count=1 $(go list ./... | grep -v crand$)", cwd=w)
        if r.returncode: return sid, "build/test fails with patch:\n" + r.stdout[-1500:] + r.stderr[-1500:]
        r = sh("bash %s/demo.sh" % d, cwd=w)
        if r.returncode == 0: return sid, "demo does not fail with the patch"
        if "[build failed]" in r.stdout: return sid, "demo does not build:\n" + r.stdout + r.stderr
        why = r.stdout[-400:]
        sh("git checkout -q -- .", cwd=w)
        r = sh("bash %s/demo.sh" % d, cwd=w)
        if r.returncode: return sid, "demo fails on the unchanged tree:\n" + r.stdout[-1500:] + r.stderr[-500:]
        return sid, "ok (" + " ".join(why.split())[:160] + ")"
    finally:
        shutil.rmtree(w, ignore_errors=True)
for s in sys.argv[1:]:
    print(*one(s))
