#!/usr/bin/env python3
"""seedtool.py make SPEC.py | confirm ID... | try ID... : planted bugs.

make: SPEC.py defines seeds = [dict(id, prop, edits=[(file, old, new)], pkg, demo, needs, breaks)].
confirm: applies a patch to /repo, builds, runs the stable tests and the demo, undoes it.
try: applies it and runs the property's check.
"""
import json, os, re, subprocess, sys
R = "/repo"
S = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeded")
DEMO = r'''#!/bin/bash
# exit 0 when the property holds on the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local PATH=/usr/local/go/bin:$PATH
cat > "$o" <<J
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$d/demo_test.go.txt"}}
J
go test -tags=ne -vet=off -count=1 -timeout 120s -overlay "$o" -run '^TestZZDemo$' ./%(pkg)s
rc=$?
rm -f "$o"
exit $rc
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, cwd=R, capture_output=True, text=True, **k)
def clean():
    sh("git checkout -- .")
def make(f):
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["seeds"]:
        clean()
        ok = True
        for fn, old, new in s["edits"]:
            p = os.path.join(R, fn)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times in", fn); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            clean(); continue
        d = os.path.join(S, s["id"]); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff").stdout)
        clean()
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(pkg=s.get("pkg", ".")))
        open(os.path.join(d, "demo_test.go.txt"), "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
        confirm(s["id"])
def demo(i):
    return subprocess.run(["bash", os.path.join(S, i, "demo.sh")], cwd=R, capture_output=True, text=True, timeout=300)
def confirm(i):
    clean()
    a = demo(i)
    if sh("git apply " + os.path.join(S, i, "patch.diff")).returncode:
        print(i, "PATCH DOES NOT APPLY"); return
    try:
        b = sh("bash /opt/vp/build.sh")
        sh("bash /opt/vp/test.sh /tmp/seed-test.json")
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        fail = st - set(json.load(open("/tmp/seed-test.json"))["passed"])
        c = demo(i)
    finally:
        clean()
    good = a.returncode == 0 and b.returncode == 0 and not fail and c.returncode != 0
    print(i, "OK" if good else "NOT GOOD", "demo clean rc", a.returncode, "build", b.returncode, "stable lost", fail, "demo patched rc", c.returncode)
    if not good:
        print((a.stdout + a.stderr)[-1500:] if a.returncode else "", b.stderr[-800:], (c.stdout + c.stderr)[-500:])
def trial(i):
    p = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    clean(); sh("git apply " + os.path.join(S, i, "patch.diff"))
    try:
        c = subprocess.run(["python3", os.path.join(os.path.dirname(S), "check.py"), p, "quick"], capture_output=True, text=True)
    finally:
        clean()
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    f = [l for l in c.stdout.splitlines() if l.startswith("FAIL")]
    inp = [l for l in c.stdout.splitlines() if l.startswith("failing input")]
    print(i, p, "rc", c.returncode, v, "|", "; ".join(x[:110] for x in f[:3]), "|", inp[:1] and inp[0][:160], flush=True)
cmd, *a = sys.argv[1:]
if cmd == "make":
    make(a[0])
else:
    for i in a or sorted(os.listdir(S)):
        confirm(i) if cmd == "confirm" else trial(i)
