#!/usr/bin/env python3
"""mkseed.py [id...]: builds seeded/<id>/ from tools/seeds/*.py and confirms
each one in a scratch copy: the patch compiles, the stable tests pass, the demo
passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile, glob
V = "/verif"
seeds = {}
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        seeds[s["id"]] = s
DEMO = '''#!/bin/bash
# runs the demonstration beside this script against the tree in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo="$(pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cat > "$t/o.json" <<J
{"Replace": {"$repo/%(pkg)szz_demo_test.go": "$here/demo_test.go.txt"}}
J
export GOFLAGS="-mod=mod"
TMPDIR="$t" go test -vet=off -count=1 -overlay "$t/o.json" -run 'TestZZDemo' ./%(pkg)s
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, **kw)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("tests"))
for sid in (sys.argv[1:] or seeds):
    s = seeds[sid]
    d = V + "/seeded/" + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    pkg = s.get("pkg", "")
    open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg})
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go.txt", "w").write(s["demo"].lstrip())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        w = tmp + "/repo"
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        sh("git checkout -q -- .", w)
        r = sh("bash %s/demo.sh" % d, w)
        if r.returncode != 0:
            print(sid, "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:], r.stderr[-1500:]); continue
        bad = False
        for f, old, new in s["edits"]:
            p = w + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(sid, "EDIT MATCHES", t.count(old), "TIMES:", old); bad = True; break
            open(p, "w").write(t.replace(old, new))
        if bad: continue
        sh("gofmt -w .", w)
        diff = sh("git diff", w).stdout
        open(d + "/patch.diff", "w").write(diff)
        r = sh(". /opt/vp/env.sh 2>/dev/null; export GOFLAGS=-mod=mod; go build ./... && go vet ./... && go test -count=1 -json ./...", w)
        passed = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "fail" and e.get("Test"): print(sid, "TEST FAILS", e["Test"]); bad = True
        if r.returncode != 0: print(sid, "BUILD/TEST rc", r.returncode, r.stderr[-800:]); bad = True
        if bad: continue
        r = sh("bash %s/demo.sh" % d, w)
        if r.returncode == 0:
            print(sid, "DEMO PASSES WITH THE BUG"); continue
        print(sid, "ok:", [l for l in (r.stdout + r.stderr).splitlines() if "demo_test" in l or "panic" in l][:2])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
