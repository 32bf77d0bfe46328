#!/usr/bin/env python3
"""Authoring helper for planted bugs: confirms build, suite and demo in the sandbox and writes /verif/seeded/<id>/. Never used by a check."""
import os, re, subprocess, sys, json, shutil
REPO = "/repo"
DEMO_SH = r'''#!/bin/bash
# exit 0 when the property holds, nonzero otherwise; run in the repository root after the build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -include cstdint -include stdexcept -include array -O0 -g -w -fno-access-control -march=x86-64-v2 -maes -DENABLE_MEMORY_LOCK %(flags)s -Isrc -Isrc/include -Isrc/include/sse/crypto "$here/demo.cpp" %(srcs)s -o "$t/demo" -L_build -lsse_crypto -lsodium -Wl,-rpath,"$PWD/_build" || exit 3
cd "$t" && timeout 250 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def suite():
    r = sh("bash /opt/vp/test.sh /tmp/plant.json")
    try:
        d = json.load(open("/tmp/plant.json"))
        return len(d["passed"]), d["failed"]
    except Exception:
        return -1, r.stdout[-2000:] + r.stderr[-2000:]
def plant(bid, prop, edits, demo, needs, breaks, flags="", srcs="", checks=True):
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    d = "/verif/seeded/" + bid
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO_SH % dict(flags=flags, srcs=srcs))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    sh("bash /opt/vp/build.sh")
    r0 = sh("bash %s/demo.sh" % d, cwd=REPO)
    if r0.returncode != 0:
        print(bid, "DEMO FAILS ON CLEAN TREE", r0.returncode, r0.stdout[-200:], r0.stderr[:400]); return False
    ok = False
    try:
        for f, old, new in edits:
            p = REPO + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        n, failed = suite()
        r1 = sh("bash %s/demo.sh" % d, cwd=REPO)
        print(bid, prop, "suite passed", n, "failed", failed, "demo", r1.returncode, (r1.stdout + r1.stderr)[-200:].strip())
        ok = n == 76 and not failed and r1.returncode not in (0, 3)
        if ok and checks:
            r = sh("python3 /verif/run.py %s" % prop, cwd="/verif")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("   check:", "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, v[:1], r.stdout.strip().splitlines()[-1:])
    finally:
        sh("git -C /repo checkout -- .")
    if not ok: print("   NOT VALID")
    return ok
