#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'needs' 'breaks' < demo.cpp : stores the current diff of /repo as seeded/ID and reverts it, then tests it."""
import json, os, subprocess, sys
V = "/verif"
DEMO = '''#!/bin/bash
# exit 0 when the library behaves, nonzero otherwise
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$d"' EXIT
g++ -std=c++14 -O1 -DLEARNLOG_USE_BUNDLED_FMT -DLEARNLOG_USE_TLS -I. -Iinclude %s "$here/demo.cpp" -o "$d/demo" _build/liblearnlog.a _build/sinks/liblearnlog_sinks.a _build/base/liblearnlog_base.a _build/liblearnlog.a _build/sinks/liblearnlog_sinks.a _build/base/liblearnlog_base.a -pthread
cd "$d"
timeout 60 ./demo
'''
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def test(i):
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json")); prop = meta["property"]
    assert not sh("git -C /repo status --short --untracked-files=no").stdout.strip(), "repo dirty"
    res = {}
    sh("bash /opt/vp/build.sh"); r = sh("cd /repo && bash %s/demo.sh" % d); res["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-2000:])
    r = sh("git -C /repo apply %s/patch.diff" % d); assert r.returncode == 0, r.stdout
    try:
        r = sh("bash /opt/vp/build.sh"); res["build"] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
        sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        o = json.load(open("/tmp/seed-out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base["stable"])
        res["tests_missing"] = sorted(want - set(o["passed"]))[:5]
        r = sh("cd /repo && bash %s/demo.sh" % d); res["demo_bug"] = r.returncode
        if "--nocheck" not in sys.argv:
            r = sh("cd %s && python3 check.py %s --tier quick" % (V, prop)); res["check"] = r.returncode; res["out"] = "\n".join(l for l in r.stdout.split("\n") if "VIOLATION" in l or l.startswith("  case") or "note" in l)[:900]
    finally:
        print(sh("git -C /repo checkout -- . ").stdout)
        sh("bash /opt/vp/build.sh")
    ok = res["demo_clean"] == 0 and res["build"] == 0 and not res["tests_missing"] and res["demo_bug"] != 0
    print(i, "VALID" if ok else "INVALID", "CAUGHT" if res.get("check") == 1 and ("property=" + prop) in res["out"] else "MISSED", {k: v for k, v in res.items() if k != "out"})
    print(res.get("out", ""))
if sys.argv[1] == "test":
    for i in sys.argv[2:]:
        if not i.startswith("--"): test(i)
else:
    i, prop, flags, needs, breaks = sys.argv[1:6]
    d = V + "/seeded/" + i; os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout
    if diff.strip(): open(d + "/patch.diff", "w").write(diff)
    sh("git -C /repo checkout -- .")
    demo = sys.stdin.read()
    if demo.strip(): open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % flags); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    test(i)
