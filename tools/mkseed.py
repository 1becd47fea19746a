#!/usr/bin/env python3
"""mkseed.py SPEC: makes a planted bug under /verif/seeded/<id>/ from a spec file and confirms it in a scratch copy of /repo.

The spec is Python: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], PKG, TEST (a Go test file in package PKG, external or internal)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 200 go test -count=1 -timeout 100s -vet=off -overlay "$tmp/overlay.json" -run '^TestZZDemo' ./%(pkg)s
'''
def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def make(spec):
    g = {}
    exec(open(spec).read(), g)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        out = os.path.join(HERE, "seeded", g["ID"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo_test.go.txt"), "w").write(g["TEST"])
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % dict(pkg=g["PKG"]))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        ok = True
        r = run(out + "/demo.sh", repo)
        if r.returncode != 0: ok = False; print("DEMO FAILS UNPATCHED", r.stdout[-1500:])
        for path, old, new in g["EDITS"]:
            p = os.path.join(repo, path)
            s = open(p).read()
            if s.count(old) != 1: raise SystemExit(f"{path}: {s.count(old)} matches of {old!r}")
            open(p, "w").write(s.replace(old, new))
        base = subprocess.run(["git", "-C", repo, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(base)
        # lines must be those of the original repository
        for line in blame(repo, g["EDITS"]): ok = False; print("NOT ORIGINAL:", line)
        r = run("go build ./... ", repo)
        if r.returncode != 0: ok = False; print("BUILD", r.stdout[-1500:])
        r = run("go test -json ./... ", repo)
        failed = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "fail" and e.get("Test"): failed.add((e["Package"].split("go-hbci")[-1] + "/" + e["Test"]))
        b = json.load(open("/opt/vp/BASELINE.json"))
        names = json.dumps(b)
        bad = [f for f in failed if f.split("/")[-1] in names]
        if bad: ok = False; print("TESTS FAIL", bad)
        r = run(out + "/demo.sh", repo)
        if r.returncode == 0: ok = False; print("DEMO PASSES PATCHED")
        elif "build failed" in r.stdout or "setup failed" in r.stdout: ok = False; print("DEMO BUILD", r.stdout[-1500:])
        print(g["ID"], "confirmed" if ok else "BAD")
        if ok and "--nocheck" not in sys.argv:
            r = run(f"{HERE}/bin/vsym -repo {repo} -noevidence check {g['PROPERTY']}", HERE)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("   ", "CAUGHT" if v and r.returncode == 1 else "MISSED rc=%d" % r.returncode, v[:1], [l for l in r.stdout.splitlines() if "total" in l][-1:])
            if not v: print(r.stdout[-800:])
    finally:
        shutil.rmtree(tmp)
def blame(repo, edits):
    out = []
    base = subprocess.run(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout
    for path, old, new in edits:
        o = subprocess.run(["git", "-C", repo, "show", "516a2db:" + path], stdout=subprocess.PIPE, text=True).stdout
        olds = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
        for l in olds:
            if l not in o: out.append(path + ": " + l)
    return out
for s in sys.argv[1:]:
    if not s.startswith("--"): make(s)
