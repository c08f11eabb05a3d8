#!/usr/bin/env python3
"""Quick look at candidate bugs: which properties' obligations flag them.
usage: quick.py FILE [id...]   FILE defines BUGS = [(id, prop, [(file, old, new)...])]  (env CV: tool binary)"""
import sys, os, subprocess, json, fnmatch
SCR = "/tmp/quickrepo"
CV = os.environ.get("CV", "/tmp/cv")
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="0", SPEC="/verif/spec", VERIF_REPO=SCR)
def sh(c, **k): return subprocess.run(c, shell=True, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, **k)
obl = [l.strip() for l in open("/verif/spec/OBLIGATIONS") if l.strip()]
props = json.load(open("/verif/props.json"))
def of(o):
    if o.startswith("rule:"): return [p["id"] for p in props if o[5:] in p["rules"]]
    return [p["id"] for p in props if any(o == t or fnmatch.fnmatchcase(o, t) for t in p["obligations"])]
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
sh("rm -rf /tmp/quickrepo && cp -a /repo /tmp/quickrepo")
for id, prop, edits in ns["BUGS"]:
    if only and id not in only: continue
    sh("git checkout -q -- .", cwd=SCR)
    bad = False
    for f, o, n in edits:
        p = os.path.join(SCR, f); s = open(p).read()
        if s.count(o) != 1: print(id, "EDIT matches", s.count(o), repr(o)[:80]); bad = True; break
        open(p, "w").write(s.replace(o, n))
    if bad: continue
    r = sh("go test . ./cmd/coin ./cmd/csv2coin ./cmd/ofx2coin ./gnucash ./cmd/gc2coin ./cmd/gen2coin 2>&1 | grep -v '^ok\\|no test files' | head -5; go vet . ./cmd/coin ./cmd/csv2coin ./gnucash ./cmd/gen2coin ./cmd/gc2coin ./cmd/ofx2coin 2>&1 | head -3", cwd=SCR)
    t = "" if not r.stdout.strip() else "TESTFAIL " + r.stdout.strip().replace("\n", " ")[:150]
    a = [l.split()[1].rstrip(":") for l in sh(CV + " all").stdout.splitlines() if l.startswith("ALARM")]
    hit = sorted({q for o in a for q in of(o)})
    print("%-14s %s %s %s %s %s" % (id, prop, "ok    " if prop in hit else "MISSED", sorted(set(a)), hit, t), flush=True)
