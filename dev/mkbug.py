#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and writes them to /verif/seeded.
usage: mkbug.py FILE [id...]   FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, pkg, test) or dict(..., sh=script)]"""
import concurrent.futures, sys, os, subprocess, json, shutil
SCR = "/tmp/bugrepo"
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="0")
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
sh("rm -rf /tmp/bugrepo && cp -a /repo /tmp/bugrepo")
props = [p["id"] for p in json.load(open("/verif/props.json"))]
DEMO = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false"
rm -rf /tmp/verif_demo_%(id)s
mkdir -p /tmp/verif_demo_%(id)s
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$repo" "$here" >/tmp/verif_demo_%(id)s/ov.json
DEMO_DIR=/tmp/verif_demo_%(id)s go test -count=1 -vet=off -overlay /tmp/verif_demo_%(id)s/ov.json -run 'TestDemo%(tn)s$' ./%(pkg)s
rc=$?
rm -rf /tmp/verif_demo_%(id)s
exit $rc
'''
SHD = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false"
D=/tmp/verif_demo_%(id)s
rm -rf /tmp/verif_demo_%(id)s
mkdir -p $D
%(sh)s
rc=$?
rm -rf /tmp/verif_demo_%(id)s
exit $rc
'''
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    sh("git checkout -q -- . && git clean -fdq", cwd=SCR)
    ok = True
    for f, o, n in b["edits"]:
        p = os.path.join(SCR, f); s = open(p).read()
        if s.count(o) != 1: print(b["id"], "EDIT matches", s.count(o), repr(o)[:80]); ok = False; break
        open(p, "w").write(s.replace(o, n))
    if not ok: continue
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff", cwd=SCR).stdout
    if not diff.strip(): print(b["id"], "EMPTY"); continue
    open(d + "/patch.diff", "w").write(diff)
    if "test" in b:
        tn = b["id"].replace("-", "_")
        open(d + "/demo_test.go", "w").write(b["test"].replace("TestDemo(", "TestDemo%s(" % tn))
        open(d + "/demo.sh", "w").write(DEMO % dict(id=b["id"], pkg=b.get("pkg", "."), tn=tn))
    else:
        open(d + "/demo.sh", "w").write(SHD % dict(id=b["id"], sh=b["sh"].strip()))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r = sh("go vet $(go list ./... | grep -v coin2html) && go test $(go list ./... | grep -v coin2html) 2>&1 | grep -v 'no test files'; mkdir -p cmd/coin2html/js/dist; touch cmd/coin2html/js/dist/body.html cmd/coin2html/js/dist/head.html; go vet ./cmd/coin2html 2>&1 | grep -v pattern", cwd=SCR)
    tests = "FAIL" not in r.stdout and "vet:" not in r.stdout
    rf = sh("rm -rf /tmp/bugfx && mkdir -p /tmp/bugfx/root && go build -o /tmp/bugfx/coin ./cmd/coin && cp -a tests examples /tmp/bugfx/root/ && python3 /opt/vp/fixtures.py /tmp/bugfx/coin /tmp/bugfx/root 2>/dev/null | grep ^FAIL", cwd=SCR)
    if rf.stdout.strip(): tests = False; r.stdout += rf.stdout
    r1 = sh("sh %s/demo.sh" % d, cwd=SCR)
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        rcs = list(ex.map(lambda p: sh("VERIF_REPO=/tmp/bugrepo /verif/check %s quick" % p).returncode, props))
    hit = [p for p, rc in zip(props, rcs) if rc]
    sh("git checkout -q -- .", cwd=SCR)
    r0 = sh("sh %s/demo.sh" % d, cwd=SCR)
    good = tests and r1.returncode != 0 and r0.returncode == 0
    print("%-12s %s tests=%s demo(bug)=%d demo(ok)=%d caught_by=%s" % (b["id"], ("OK " if good else "BAD") + ("" if b["prop"] in hit else " MISSED"), tests, r1.returncode, r0.returncode, hit), flush=True)
    if not good:
        print("   ", r.stdout[-600:] if not tests else "", r1.stdout[-500:] if r1.returncode == 0 else "", r0.stdout[-900:] if r0.returncode else "")
        shutil.rmtree(d)
