#!/usr/bin/env python3
"""Makes a seeded bug: plant.py SPECFILE.  The spec file defines
id, prop, edits=[(file, old, new)], pkg, demo (body of a Go test file), needs, breaks.
It is kept only when it builds, passes the stable tests, and the demo tells the trees apart."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedrepo"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.25.14/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", HOME="/root")
DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken; cwd is the repository
d=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.25.14/bin ] && export PATH=/opt/veriftools/go1.25.14/bin:$PATH
export HOME=${HOME:-/root} GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d)
trap 'find "$t" -mindepth 1 -delete; rmdir "$t"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/@PKG@/zzdemo_test.go" "$d/demo_test.go" > "$t/overlay.json"
TMPDIR=$t timeout 250 go test @FLAGS@ -overlay "$t/overlay.json" -vet=off -count=1 -run 'TestZZDemo' ./@PKG@
'''
def sh(c, cwd=S, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=ENV, **k)
def main(f):
    g = {}
    exec(open(f).read(), g)
    rc = 0
    for b in g["bugs"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
        rc |= one(b)
    return rc
def one(b):
    id = b["id"]
    sh("rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo", cwd="/tmp"); sh("git checkout -q -- . && git clean -fdq")
    d = f"{V}/seeded/{id}"; tmp = f"/tmp/plant/{id}"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    for fn, old, new in b["edits"]:
        p = f"{S}/{fn}"; s = open(p).read()
        if s.count(old) != 1: print(id, "EDIT matches", s.count(old), "times:", old[:60]); return 1
        open(p, "w").write(s.replace(old, new))
    open(f"{tmp}/patch.diff", "w").write(sh("git diff").stdout)
    pkg = b.get("pkg", "")
    open(f"{tmp}/demo.sh", "w").write(DEMO.replace("@PKG@", pkg or ".").replace("@FLAGS@", b.get("flags", ""))); os.chmod(f"{tmp}/demo.sh", 0o755)
    open(f"{tmp}/demo_test.go", "w").write(b["demo"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{tmp}/meta.json", "w"), indent=1)
    r = sh("go vet . ./plurals ./cli/xgotext/parser 2>&1; go build ./... ")
    if r.returncode: print(id, "BUILD", r.stdout[-500:], r.stderr[-800:]); return 1
    r = sh(f"{tmp}/demo.sh")
    if r.returncode == 0: print(id, "DEMO passes with the patch"); return 1
    if "[build failed]" in r.stdout or "panic: test timed out" in r.stdout: print(id, "DEMO build failed", r.stdout[-1500:], r.stderr[-800:]); return 1
    how = (r.stdout + r.stderr).strip().splitlines()
    sh("git stash -q")
    r = sh(f"{tmp}/demo.sh")
    if r.returncode: print(id, "DEMO fails without the patch", r.stdout[-1500:], r.stderr[-500:]); return 1
    sh("git stash pop -q")
    r = sh("go test -json ./... > /tmp/seedtest.json 2>/dev/null; true")
    st = {}
    for l in open("/tmp/seedtest.json"):
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Test") and e["Action"] in ("pass", "fail", "skip"): st[e["Package"] + "/" + e["Test"]] = e["Action"]
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base if isinstance(base, list) else base.get("stable") or base.get("tests") or base.get("passed")
    bad = []
    for n in names:
        k = [x for x in st if x == n or x.endswith(n)]
        if not k or all(st[x] != "pass" for x in k): bad.append(n)
    if bad: print(id, "TESTS fail:", bad[:4], "..." if len(bad) > 4 else ""); return 1
    shutil.rmtree(d, ignore_errors=True); os.makedirs(f"{V}/seeded", exist_ok=True); shutil.copytree(tmp, d)
    print(id, "OK", [l for l in how if "zzdemo" in l or "panic" in l or "RACE" in l or "timed" in l][:1])
    return 0
sys.exit(main(sys.argv[1]))
