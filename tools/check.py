#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo by contract verification.

Exit 0: every obligation generated from /repo's current source was discharged.
Exit 1: an obligation failed; prints VIOLATION property=<id> replay=<path> (with no-failing-input-found
when the directed search against the real code found no concrete failing input).
Other exits: the check could not run (e.g. /repo does not build)."""
import json, os, re, subprocess, sys, time, glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
import replaycfg


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="0")
    e.setdefault("HOME", "/root")
    for p in ("/opt/veriftools/go1.27.3/bin", "/usr/local/go/bin"):
        if os.path.isdir(p):
            e["PATH"] = p + ":" + e.get("PATH", "")
            break
    e.pop("GOROOT", None)
    e.pop("GOWORK", None)
    return e


def build_govc(env):
    exe = os.path.join(V, "govc", "govc")
    srcs = glob.glob(os.path.join(V, "govc", "*.go")) + [os.path.join(V, "govc", "go.mod")]
    if os.path.exists(exe) and os.path.getmtime(exe) >= max(os.path.getmtime(s) for s in srcs):
        return exe
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(V, "govc"), env=env, capture_output=True, text=True, errors="replace")
    if r.returncode:
        print(r.stdout + r.stderr)
        sys.exit(2)
    os.replace(tmp, exe)
    return exe


def known_findings(prop):
    """entries 'finding: property=Cxx obligation=<function>/<name> input=<...> | text'"""
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) obligation=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def replay(prop, env, seed, secs, logf, only=None):
    """Directed search for a failing input against the real code.  Returns text of the failure or None."""
    cfg = replaycfg.CFG.get(prop) if only is None else only
    if not cfg:
        return None
    found = None
    for pkg, files, run in (c[:3] for c in cfg):
        ov = {"Replace": {}}
        for f in files:
            ov["Replace"][os.path.join(REPO, pkg, "verif_" + os.path.basename(f).replace(".go", "_test.go"))] = os.path.join(V, "replay", f)
        # the repository's own test files are left out of the search binary: they are not needed and may clash
        for t in glob.glob(os.path.join(REPO, pkg, "*_test.go")):
            ov["Replace"][t] = ""
        ovf = os.path.join(V, "evidence", ".overlay_%s_%d.json" % (prop, os.getpid()))
        json.dump(ov, open(ovf, "w"))
        e = dict(env)
        e.update(VERIF_SEED=str(seed), VERIF_REPLAY_SECS=str(secs))
        try:
            r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-overlay", ovf, "-timeout", "%ds" % (secs * 3 + 60), "-run", run, "./" + pkg],
                               cwd=REPO, env=e, capture_output=True, text=True, errors="replace", timeout=secs * 3 + 120)
            o = r.stdout + r.stderr
        except subprocess.TimeoutExpired as ex:
            o = "search timed out\n" + (ex.stdout or b"").decode(errors="replace")
        finally:
            os.remove(ovf)
        logf.write("\n== directed search: %s %s\n%s\n" % (pkg, run, o[-20000:]))
        m = re.search(r"FAILING-INPUT[^\n]*", o)
        if m:
            found = m.group(0)
        elif re.search(r"^panic: ", o, re.M) and "test timed out" not in o:
            found = "FAILING-INPUT panic in directed search: " + re.search(r"^panic: [^\n]*", o, re.M).group(0)
        if found:
            break
    return found


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    env = goenv()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    exe = build_govc(env)
    r = subprocess.run(["go", "build", "./..."], cwd=REPO, env=env, capture_output=True, text=True, errors="replace")
    if r.returncode:
        print("the repository does not build:\n" + r.stdout + r.stderr)
        sys.exit(2)
    outf = os.path.join(V, "evidence", ".govc_%s.json" % prop)
    if os.path.exists(outf):
        os.remove(outf)
    quick, slow = (4, 30) if tier == "quick" else (10, 120)
    cmd = [exe, "check", "-prop", prop, "-repo", REPO, "-specs", os.path.join(V, "contracts"), "-out", outf, "-quick", str(quick), "-slow", str(slow)]
    budget = 560 if tier == "quick" else 3000
    crashed = None
    try:
        p = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace", timeout=budget)
        log = p.stdout + p.stderr
        if not os.path.exists(outf):
            crashed = "the condition generator stopped (exit %d)" % p.returncode
    except subprocess.TimeoutExpired as ex:
        log = ((ex.stdout or b"").decode(errors="replace"))
        crashed = "the obligations were not discharged within %d s" % budget
    print(log[-6000:])
    j = json.load(open(outf, errors="replace")) if not crashed else {"functions": [], "obligations": 0, "discharged": 0, "failures": [
        {"function": "-", "kind": "generator", "obligation": crashed, "status": "unknown", "pos": "", "goal": "", "path": "", "solver_output": log[-3000:]}],
        "lemmas": [], "trusted": [], "assumed": [], "notes": [], "solver_seconds": {}, "discharged_by": {}}
    if not crashed:
        os.remove(outf)
    j["failures"] = j.get("failures") or []
    if not j["failures"] and j["obligations"] == 0:
        j["failures"].append({"function": "-", "kind": "vacuity", "obligation": "no obligations were generated", "status": "unknown", "pos": "", "goal": "", "path": "", "solver_output": ""})
    for k in ("functions", "lemmas", "notes", "trusted", "assumed"):
        j[k] = j.get(k) or []
    kf = known_findings(prop)
    viol, known = [], set()
    for f in j["failures"]:
        name = "%s/%s" % (f["function"], f["obligation"].replace(" ", "_"))
        hit = [k for k in kf if k[0] == name]
        if hit:
            known.add(hit[0])
        else:
            viol.append((name, f))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k[0], k[1]))
    rc = 0
    bounded = []
    if viol:
        rc = 1
        rp = os.path.join(V, "evidence", "replay_%s.txt" % prop)
        with open(rp, "w", errors="replace") as lf:
            lf.write("property %s: failed obligations on the current tree of %s\n" % (prop, REPO))
            for name, f in viol[:60]:
                lf.write("\n-- %s\n   kind %s, status %s, at %s\n   path: %s\n   goal: %s\n   solver: %s\n" % (
                    name, f["kind"], f["status"], f["pos"], f.get("path", ""), f.get("goal", ""), f.get("solver_output", "")[:1500]))
            lf.flush()
            found = replay(prop, env, seed, 40 if tier == "quick" else 120, lf)
            if found:
                lf.write("\n" + found + "\n")
        for name, f in viol[:20]:
            print("failed obligation: %s (%s) %s" % (name, f["kind"], f["pos"]))
        if found:
            print(found)
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if found else " no-failing-input-found"))
    elif getattr(replaycfg, "BOUNDED", {}).get(prop):
        # functions outside the verifier's reach: bounded stand-in, labelled so and never counted as proved
        ents = replaycfg.BOUNDED[prop]
        rp = os.path.join(V, "evidence", "bounded_%s.txt" % prop)
        with open(rp, "w", errors="replace") as lf:
            found = replay(prop, env, seed, 14 if tier == "quick" else 120, lf, ents)
        bounded = [{"functions": e[3], "bound": e[4]} for e in ents]
        if found:
            rc = 1
            print(found)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
    if rc == 0 and tier == "thorough":
        # cross-check of the trusted contracts: the directed search must find nothing on a tree that verifies
        rp = os.path.join(V, "evidence", "crosscheck_%s.txt" % prop)
        with open(rp, "w", errors="replace") as lf:
            found = replay(prop, env, seed, 120, lf)
        if found:
            rc = 1
            print(found)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": j["obligations"], "discharged": j["discharged"],
            "checker_cmd": " ".join(cmd).replace(V + "/", ""),
            "trusted_base": ["govc (this framework's condition generator over go/ssa)", "go/packages + go/ssa lowering of the working tree", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2"] + ["trusted contract: " + t for t in j.get("trusted") or []],
            "functions_under_contract": j["functions"], "lemmas": j.get("lemmas"),
            "discharged_by": j.get("discharged_by"), "solver_seconds": j.get("solver_seconds"),
            "failed": [n for n, _ in viol], "known_findings": [k[0] for k in sorted(known)],
            "bounded_stand_ins_not_proved": bounded,
            "notes": j.get("notes"),
        },
        "assumptions": (j.get("assumed") or []) + [
            "int is mathematical (lengths and counters stay below 2^63); int32, byte and other sized integers wrap",
            "sequential execution: goroutine bodies are not interleaved", "termination is not proved",
            "allocation never fails; stack depth is unbounded"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol) or (1 if rc else 0),
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    sys.exit(rc)


main()
