#!/usr/bin/env python3
"""mkseed.py DIR: reads DIR/seed.json? no: used as a module by hand.
Makes /verif/seeded/<id> from a list of (file, old, new) and a Go demonstration program,
and confirms it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export DEMO_SCRATCH=$t
echo '{"Replace":{"'$PWD'/zz_demo/main.go":"'$d'/main.go"}}' > $t/o.json
go build -o $t/ledger ./cmd/ledger || exit 1
go build -overlay $t/o.json -o $t/demo ./zz_demo || exit 1
export LEDGER=$t/ledger
cd $t && timeout 60 ./demo
'''
def make(sid, prop, edits, main, needs, breaks):
    d = os.path.join("/verif/seeded", sid)
    t = tempfile.mkdtemp(prefix="seed-")
    w = os.path.join(t, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    patch = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.go"), "w").write(main.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    def run(cmd):
        return subprocess.run(cmd, cwd=w, env=ENV, capture_output=True, text=True)
    ok = True
    r = run(["go", "build", "./..."]); ok &= r.returncode == 0
    if r.returncode: print(r.stderr)
    r2 = run(["go", "test", "-vet=off", "-count=1", "./..."]); ok &= r2.returncode == 0
    if r2.returncode: print(r2.stdout[-800:])
    r3 = run(["bash", d + "/demo.sh"]); ok &= r3.returncode != 0
    run(["git", "checkout", "--", "."])
    r4 = run(["bash", d + "/demo.sh"]); ok &= r4.returncode == 0
    print(sid, prop, "OK" if ok else "BAD", "| with:", r3.returncode, (r3.stdout + r3.stderr).strip()[-200:].replace("\n", " / "), "| without:", r4.returncode, (r4.stdout + r4.stderr)[-200:])
    shutil.rmtree(t)
    if not ok:
        shutil.rmtree(d)
    return ok
