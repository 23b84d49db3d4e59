#!/usr/bin/env python3
"""apply each behaviour-preserving rewrite to a scratch copy of /repo and run the checks it concerns; they must stay quiet"""
import os, sys, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors import REFS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/reftest-%d" % os.getpid()
want = set(sys.argv[1:]); bad = []
os.makedirs(W)
subprocess.run("git -C /repo archive HEAD | tar x -C " + W, shell=True, check=True)
for id_, props, eds in REFS:
    if want and id_ not in want and not (set(props.split(",")) & want): continue
    save = {}
    ok = True
    for f, o, n in eds:
        p = os.path.join(W, f); s = open(p).read(); save.setdefault(p, s)
        if o not in s: print(id_, "DOES NOT APPLY", f); ok = False; break
        open(p, "w").write(s.replace(o, n, 1))
    if ok:
        for pr in props.split(","):
            if want and pr in {x[1] for x in REFS} | {"A01"} and want & {q for r in REFS for q in r[1].split(",")} and pr not in want and id_ not in want: continue
            r = subprocess.run(["python3-vt", os.path.join(ROOT, "check.py"), pr], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W))
            print(id_, pr, "quiet" if r.returncode == 0 else "ALARM rc=%d" % r.returncode, flush=True)
            if r.returncode: bad.append(id_); print("\n".join(l[:300] for l in (r.stdout + r.stderr).splitlines()[:8]))
    for p, s in save.items(): open(p, "w").write(s)
shutil.rmtree(W)
print("alarms:", bad)
