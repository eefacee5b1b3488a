#!/usr/bin/env python3
"""newseed.py <id> <property> <pkg> : reads from a spec file (python) the edits and the demo test.
usage: newseed.py spec.py   where spec.py defines ID, PROP, PKG, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO (go test source)
Creates seeded/ID after validating: builds, stable tests pass, demo passes without and fails with the change."""
import os, sys, json, subprocess, shutil
V = "/verif"; W = "/tmp/seedw"
ns = {}
exec(open(sys.argv[1]).read(), ns)
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
def sh(c, **k): return subprocess.run(c, shell=True, env=ENV, capture_output=True, text=True, **k)
def one(s):
    d = V + "/seeded/" + s["ID"]
    shutil.rmtree(W, ignore_errors=True)
    sh("cp -a /repo " + W); sh("git checkout -q -- . && git clean -fdq", cwd=W)
    for f, old, new in s["EDITS"]:
        t = open(W + "/" + f).read()
        if t.count(old) != 1: print(s["ID"], "EDIT not unique", f, t.count(old), repr(old[:60])); return
        open(W + "/" + f, "w").write(t.replace(old, new))
    diff = sh("git diff", cwd=W).stdout
    if not diff: print("no diff"); return
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go.txt", "w").write(s["DEMO"])
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# run in the repository root; fails when the property is broken
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod PATH=$PATH:/usr/local/bin:/opt/veriftools/go1.27.3/bin
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
cp "$d/demo_test.go.txt" "$t/zz_seed_demo_test.go"
echo "{\\"Replace\\":{\\"$PWD/%s/zz_seed_demo_test.go\\":\\"$t/zz_seed_demo_test.go\\"}}" > "$t/o.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run '^TestSeedDemo$' ./%s 2>&1 | tail -40
exit ${PIPESTATUS[0]}
""" % (s["PKG"], s["PKG"]))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files' | grep -E '^(FAIL|---|panic|ok)'", cwd=W)
    tests_ok = "FAIL" not in r.stdout and r.returncode == 0 and "ok" in r.stdout
    withp = sh("bash %s/demo.sh" % d, cwd=W)
    sh("git checkout -q -- .", cwd=W)
    without = sh("bash %s/demo.sh" % d, cwd=W)
    good = tests_ok and withp.returncode != 0 and without.returncode == 0
    print(s["ID"], "GOOD" if good else "BAD", "tests", tests_ok, "with", withp.returncode, "without", without.returncode)
    if not tests_ok: print(r.stdout[-1500:], r.stderr[-1500:])
    if withp.returncode == 0 or "build failed" in withp.stdout: print("WITH:", withp.stdout[-1500:])
    if without.returncode: print("WITHOUT:", without.stdout[-2500:])
    if not good and "--keep" not in sys.argv: shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)
only = [a for a in sys.argv[2:] if not a.startswith("-")]
for s in ns["SEEDS"]:
    if only and s["ID"] not in only: continue
    one(s)
