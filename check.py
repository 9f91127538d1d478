#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property on /repo's current tree:
 1. gover generates and discharges every obligation of the property's contracts;
 2. the property's replay harness runs the real code against an executable
    statement of the property (bounded; it turns a failed obligation into a
    failing input, and stands in for what is outside the contracts' reach).
"""
import json, os, re, subprocess, sys, tempfile, time, shutil, hashlib, signal

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ENV = dict(os.environ, HOME="/root", GOROOT="/opt/veriftools/go1.26.10",
           PATH="/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin",
           GOTOOLCHAIN="local", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE="/root/.cache/go-build", GOPROXY="off", GOWORK="off",
           GOFLAGS="-mod=mod -buildvcs=false")

def build_gover():
    out = os.path.join(V, "bin", "gover")
    src = sorted(os.path.join(V, "gover", f) for f in os.listdir(os.path.join(V, "gover")) if f.endswith((".go", ".mod", ".sum")))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(["go", "build", "-o", out + ".new", "."], cwd=os.path.join(V, "gover"), env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout + r.stderr)
        sys.exit(2)
    os.replace(out + ".new", out)
    open(stamp, "w").write(h)
    return out

LIT = re.compile(r'"(?:\\.|[^"\\\n])*"|`[^`]*`|\'(?:\\.|[^\'\\\n])+\'|//[^\n]*|/\*.*?\*/|\b\d[\w.]*', re.S)

def literals():
    strs, ints = set(), set()
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x not in (".git", "testdata", "test")]
        for f in files:
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            try:
                text = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            except OSError:
                continue
            for m in LIT.findall(text):
                if m.startswith("//") or m.startswith("/*"):
                    continue
                if m[0] == '"':
                    try:
                        s = json.loads(m)
                    except ValueError:
                        s = m[1:-1]
                    if len(s) <= 80:
                        strs.add(s)
                elif m[0] == '`':
                    if len(m) <= 82:
                        strs.add(m[1:-1])
                elif m[0] == "'":
                    s = m[1:-1]
                    s = {"\\n": "\n", "\\r": "\r", "\\t": "\t", "\\\\": "\\", "\\'": "'", "\\x00": "\0", "\\000": "\0"}.get(s, s)
                    strs.add(s)
                else:
                    try:
                        n = int(m.replace("_", ""), 0)
                        if abs(n) < 2**62:
                            ints.add(n)
                    except ValueError:
                        pass
    return strs, ints

def hints_file(tmp, models):
    strs, ints = literals()
    base = {"strs": [], "ints": []}
    p = os.path.join(V, "replay", "base_literals.json")
    if os.path.exists(p):
        base = json.load(open(p))
    novel = [s for s in strs if s not in set(base["strs"])]
    for m in models:
        for s in re.findall(r'"((?:[^"]|"")*)"', m or ""):
            s = re.sub(r'\\u\{([0-9a-f]+)\}', lambda k: chr(int(k.group(1), 16)), s.replace('""', '"'))
            if 0 < len(s) <= 80:
                novel.append(s)
    f = os.path.join(tmp, "hints.json")
    json.dump({"Novel": sorted(set(novel)), "Strs": sorted(strs), "Ints": sorted(ints), "NInts": sorted(i for i in ints if i not in set(base["ints"]))}, open(f, "w"))
    return f

def harness_exists(pid):
    return os.path.exists(os.path.join(V, "replay", pid.lower() + "_test.go"))

def build_harness(pid, tmp):
    """returns (binary, error)"""
    err = ""
    # with access to the decoder's target first, without if that does not build
    for hook in (True, False):
        ov = {"Replace": {}}
        for f in sorted(os.listdir(os.path.join(V, "replay"))):
            if f.endswith("_test.go") and (not re.match(r"c\d\d_test\.go$", f) or f == pid.lower() + "_test.go"):
                ov["Replace"][os.path.join(REPO, "zz_verif", f)] = os.path.join(V, "replay", f)
        if hook:
            ov["Replace"][os.path.join(REPO, "zz_verif", "hook_test.go")] = os.path.join(V, "replay", "export", "hook_test.go")
            ov["Replace"][os.path.join(REPO, "zz_verif_export.go")] = os.path.join(V, "replay", "export", "rdap_export.go")
        of = os.path.join(tmp, "overlay.json")
        json.dump(ov, open(of, "w"))
        binp = os.path.join(tmp, "harness.test")
        r = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", of, "-o", binp, "./zz_verif"], cwd=REPO, env=ENV, capture_output=True, text=True)
        if r.returncode == 0 and os.path.exists(binp):
            return binp, ""
        err = r.stdout + r.stderr
    return None, err

def run_harness(pid, binp, tmp, hints, budget_ms, seed):
    d = tempfile.mkdtemp(prefix="cwd", dir=tmp)
    home = tempfile.mkdtemp(prefix="home", dir=tmp)
    env = dict(ENV, VERIF_BUDGET_MS=str(budget_ms), VERIF_HINTS=hints, VERIF_SEED=str(seed), HOME=home, VERIF_TMP=d)
    try:
        r = subprocess.run([binp, "-test.run", "^TestVerif%s$" % pid, "-test.timeout", "800s"], cwd=d, env=env, capture_output=True, text=True, errors="replace", timeout=820)
        out = r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return {"error": "harness timeout"}
    m = re.search(r"^VERIF-FAIL (.*)$", out, re.M)
    if m:
        return {"fail": json.loads(m.group(1))}
    m = re.search(r"^VERIF-STATS (.*)$", out, re.M)
    if m:
        return {"stats": json.loads(m.group(1))}
    # the process died (fatal error, os.Exit): still a failure of the code if it names a panic
    if "fatal error:" in out or "panic:" in out:
        return {"fail": {"input": "see log", "failure": out[-4000:]}}
    return {"error": out[-4000:]}

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    gover = build_gover()
    tmp = tempfile.mkdtemp(prefix="verif-" + pid + "-")
    try:
        return decide(pid, tier, seed, gover, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(pid, tier, seed, gover, tmp, t0):
    quick = tier == "quick"
    rep_file = os.path.join(tmp, "report.json")
    gcmd = [gover, "-props", pid, "-out", rep_file, "-scratch", os.path.join(tmp, "smt")]
    os.makedirs(os.path.join(tmp, "smt"))
    gcmd += ["-limit", "720s" if quick else "3000s"]
    if not quick:
        gcmd += ["-full-ms", "60000"]
    has_contracts = any(re.search(r"^props?\b.*\b%s\b" % pid, open(os.path.join(V, "specs", f)).read(), re.M) for f in os.listdir(os.path.join(V, "specs")) if f.endswith(".spec"))
    # the prover runs in the background (at low priority) while the harness runs
    g = None
    if has_contracts:
        glog = open(os.path.join(tmp, "gover.log"), "w+")
        g = subprocess.Popen(["nice", "-n", "10"] + gcmd, env=ENV, stdout=glog, stderr=subprocess.STDOUT, start_new_session=True)
    binp, herr = build_harness(pid, tmp) if harness_exists(pid) else (None, "no harness")
    h = {}
    if binp:
        h = run_harness(pid, binp, tmp, hints_file(tmp, []), 4000 if quick else 120000, seed)
    if g:
        # with a failing input at hand the prover only gets a little longer
        for sig, t in ((signal.SIGTERM, 60 if "fail" in h else 600 if quick else 3600), (signal.SIGKILL, 60)):
            try:
                g.wait(t)
                break
            except subprocess.TimeoutExpired:
                if sig == signal.SIGTERM:
                    g.send_signal(sig)
                else:
                    os.killpg(g.pid, sig)
                    g.wait()
    rep = {"Funcs": [], "SolverMs": 0, "SolverN": 0, "Assumptions": []}
    gerr = ""
    if has_contracts:
        if os.path.exists(rep_file):
            rep = json.load(open(rep_file))
        else:
            glog.seek(0)
            gerr = glog.read()[-4000:]
            # does the tree build at all?
            b = subprocess.run(["go", "build", "./..."], cwd=REPO, env=ENV, capture_output=True, text=True)
            if b.returncode != 0:
                sys.stderr.write(b.stderr)
                print("the tree in /repo does not build")
                return 2
    failed, nobs, ndis, backends, trusted, funcs, models = [], 0, 0, {}, set(), [], []
    inv = 0
    for f in rep["Funcs"] or []:
        if f["Status"] == "dropped":  # internal lemma contract not used: its callers were verified with the body inlined
            continue
        if f["Status"] == "missing" and f["Name"].split(".")[-1][:1].islower() and any(g["Status"] == "proved" for g in rep["Funcs"]):
            # an internal function was renamed or merged away: its callers under contract were verified
            # with whatever replaced it inlined; what it alone established is left to the harness
            trusted.add("contract of %s not checked: there is no such function any more" % f["Name"])
            continue
        funcs.append(f["Name"])
        if f["Status"] != "proved":
            bad = [o for o in f.get("Obs") or [] if o["Kind"] != "cover" and o["Result"] != "unsat"]
            failed.append({"function": f["Name"], "status": f["Status"], "error": f.get("Err", ""),
                           "obligations": [{"name": o["Name"], "kind": o["Kind"], "at": o.get("Pos", ""), "solver_result": o["Result"], "by": o["By"], "goal": o.get("GoalS", ""), "model": o.get("Model", "")} for o in bad]})
            models += [o.get("Model", "") for o in bad]
        for o in f.get("Obs") or []:
            if o["Kind"] == "cover":
                continue
            nobs += 1
            if o["Kind"] == "inv":
                inv += 1
            if o["Result"] == "unsat":
                ndis += 1
                backends[o["By"]] = backends.get(o["By"], 0) + 1
        trusted.update(f.get("Trusted") or [])
    if gerr:
        failed.append({"function": "(all)", "status": "gover failed", "error": gerr, "obligations": []})
    if binp and failed and "fail" not in h and "error" not in h:
        hints = hints_file(tmp, models)
        for s in range(0, 3 if quick else 5):
            h2 = run_harness(pid, binp, tmp, hints, 20000 if quick else 120000, seed + 7919 * s)
            if "fail" in h2:
                h = h2
                break
    st = h.get("stats", {})
    cov = {}
    if has_contracts:
        cov.update({"obligations": nobs, "discharged": ndis, "invariant_obligations": inv,
                    "functions_under_contract": funcs, "backends": backends,
                    "solver_ms": rep["SolverMs"], "solver_calls": rep["SolverN"],
                    "checker_cmd": "bin/gover -props %s" % pid,
                    "trusted_base": ["gover (contract language, SSA symbolic execution, VC generation), golang.org/x/tools/go/ssa, Go type checker", "SMT solvers z3-new, cvc5, z3"] + sorted(trusted)})
    if st:
        cov.update({"evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"],
                    "rule": "bounded conformance run of the real code against the property's executable statement (replay/%s_test.go); non-trivial as that harness marks it; a stand-in only, never counted as proved" % pid.lower(),
                    "samples": st["samples"]})
    if not cov:
        cov = {"explanation": "nothing ran: " + herr[-500:]}
    if herr and not binp:
        cov["harness_error"] = herr[-1500:]
    if "error" in h:
        cov["harness_error"] = h["error"][-1500:]
    known = [l.rstrip("\n") for l in open(os.path.join(V, "known-findings.txt"))] if os.path.exists(os.path.join(V, "known-findings.txt")) else []
    for l in known:
        if l.startswith("KNOWN-FINDING: property=%s " % pid):
            print(l)
    violation = bool(failed) or "fail" in h
    lvl = level_of(pid)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
          "assumptions": rep.get("Assumptions") or [], "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if not violation:
        if not has_contracts and not st:
            print("nothing ran:", herr[-2000:], h.get("error", ""))
            return 2
        print("%s: %d/%d obligations discharged over %d functions; %s cases run; %.1f s" % (pid, ndis, nobs, len(funcs), st.get("evaluations", "no"), time.time() - t0))
        return 0
    rp = os.path.join(V, "evidence", pid + ".replay.json")
    json.dump({"property": pid, "failing_input": h.get("fail"), "failed_obligations": failed,
               "how_to_replay": "VERIF_SEED=%d bash run.sh %s %s" % (seed, pid, tier)}, open(rp, "w"), indent=1)
    for f in failed:
        for o in f["obligations"][:6]:
            print("obligation not discharged (%s by %s): %s %s" % (o["solver_result"], o["by"], o["name"], o["at"]))
        if not f["obligations"]:
            print("contract of %s: %s: %s" % (f["function"], f["status"], f["error"][:400]))
    if "fail" in h:
        print("failing input:", h["fail"].get("input", "")[:3000])
        print(h["fail"].get("failure", "")[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    return 1

def level_of(pid):
    try:
        for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "proof"

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        build_gover()
        sys.exit(0)
    if sys.argv[1:] == ["--base-literals"]:
        s, i = literals()
        json.dump({"strs": sorted(s), "ints": sorted(i)}, open(os.path.join(V, "replay", "base_literals.json"), "w"), indent=0)
        sys.exit(0)
    sys.exit(main())
