#!/usr/bin/env python3
"""Author's tool: writes /verif/seeded/<id>/ from tools/seeds/<id>.py-style entries and validates each in /repo (build, stable tests,
demo on both trees, check).  Not used by any check."""
import os, sys, json, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
V = "/verif/seeded"; R = "/repo"
DEMO = """#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken (cwd: the repository)
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w -DNDEBUG -DUSE_LIBFFTW -DUSE_LIBSNDFILE -DUSE_LIBSAMPLERATE -include cstdint -Iinclude -Ibindings/c/include "$d/demo.cpp" %s -o "$t/demo" %s || exit 3
cd "$t" && ./demo
"""
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def make(s):
    d = os.path.join(V, s["id"]); os.makedirs(d, exist_ok=True)
    f = os.path.join(R, s["file"]); t = open(f).read()
    assert t.count(s["old"]) == s.get("count", 1), (s["id"], t.count(s["old"]))
    open(f, "w").write(t.replace(s["old"], s["new"]))
    if "file2" in s:
        f2 = os.path.join(R, s["file2"]); t2 = open(f2).read(); assert t2.count(s["old2"]) == 1, s["id"]
        open(f2, "w").write(t2.replace(s["old2"], s["new2"]))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
    sh("git -C /repo checkout -- .")
    open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (s.get("src", ""), s.get("libs", ""))); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d
def validate(s, tests=True):
    d = make(s); r = {}
    r["demo0"] = sh("cd /repo && bash %s/demo.sh" % d).returncode
    a = sh("git -C /repo apply %s/patch.diff" % d); assert a.returncode == 0, a.stderr
    try:
        r["demo1"] = sh("cd /repo && bash %s/demo.sh" % d).returncode
        if tests:
            r["build"] = sh("bash /opt/vp/build.sh").returncode
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seed_out.json"))
            miss = sorted(set(b["stable"]) - set(o["passed"])); r["tests_failed"] = len(miss); r["miss"] = miss[:3]
        c = sh("cd /verif && python3-vt check.py %s" % s["prop"])
        r["check"] = c.returncode; r["viol"] = [l[:150] for l in c.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("ERROR")]
    finally: sh("git -C /repo checkout -- .")
    ok = r["demo0"] == 0 and r["demo1"] != 0 and r.get("build", 0) == 0 and r.get("tests_failed", 0) == 0
    print(s["id"], "VALID" if ok else "INVALID", "CAUGHT" if r["check"] == 1 else "MISSED", r, flush=True)
    if not ok: shutil.rmtree(d)
    return ok, r
if __name__ == "__main__":
    want = sys.argv[1:]
    for s in SEEDS:
        if not want or s["id"] in want or s["prop"] in want: validate(s)
    sh("bash /opt/vp/build.sh")
