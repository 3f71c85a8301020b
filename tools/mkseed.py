#!/usr/bin/env python3
"""mkseed.py < spec: helper that writes seeded/<id>/ from a python dict spec file."""
import sys, os, subprocess, json, shutil, tempfile
def mk(id, prop, edits, needs, breaks, pkg, test):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    for f, a, b in edits:
        p = w + "/repo/" + f
        s = open(p).read()
        assert s.count(a) == 1, (id, f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "diff"], cwd=w + "/repo", capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo_test.go.txt", "w").write(test)
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# Adds demo_test.go.txt to the package through an overlay and runs it.
export HOME=${{HOME:-/root}} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp "$D/demo_test.go.txt" "$T/zz_demo_test.go"
printf '{{"Replace": {{"%s/{pkg}/zz_demo_test.go": "%s/zz_demo_test.go"}}}}' "$PWD" "$T" > "$T/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/o.json" -run 'TestZZDemo' ./{pkg}
''')
