#!/usr/bin/env python3-vt
"""check.py PROPERTY [--only CONTRACT] : verify every contract of a property against /repo's current sources."""
import sys, os
sys.setrecursionlimit(60000)
import threading
threading.stack_size(512 * 1024 * 1024)
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, ROOT)
import json, time, subprocess, tempfile, shutil, importlib, multiprocessing, hashlib, re
REPO = os.environ.get("VERIF_REPO", "/repo")

BASE = ["-std=c++14", "-ffp-contract=off", "-include", "cstdint", "-I" + REPO + "/include", "-I" + REPO, "-I" + REPO + "/bindings/c/include", "-I" + ROOT + "/harness", "-DNDEBUG", "-w"]
DEF = ["-DUSE_LIBFFTW", "-DUSE_LIBSNDFILE", "-DUSE_LIBSAMPLERATE"]
NOBUILTIN = ["-fno-builtin-" + f for f in "log log10 log2 log1p exp exp2 exp10 expm1 pow sin cos tan atan atan2 asin acos sinh cosh tanh asinh acosh atanh sqrt cbrt".split()]

# functions kept as calls: their contract (vcg/models.py) is used at the call instead of their body
NOINLINE = [(r'_ZN4edsp4meta(?:7expects|7ensures|6ensure)EbRKN6nonstd7sv_lite\w+', "noinline nounwind memory(inaccessiblemem: readwrite, argmem: read)"),
            (r'_ZN4edsp4core6logger(?:C[12]ENS1_6levelsE|D[12]Ev|ls\w+)', "noinline nounwind memory(inaccessiblemem: readwrite, argmem: readwrite)"),
            (r'_ZN4edsp6string5[lr]trimI\w+', "noinline"), (r'_ZSt(?:11nth_element|4sort)I\w+', "noinline")]

class BuildError(Exception): pass
def sh(cmd, what):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError("%s failed:\n%s" % (what, p.stderr[:1500]))
    return p.stdout

def unit_path(u): return u.replace("REPO/", REPO + "/").replace("H/", ROOT + "/harness/")
def compile_ir(unit, out, extra=()):
    src = unit_path(unit)
    sh(["clang++-18", "-x", "c++"] + BASE + DEF + NOBUILTIN + list(extra) + ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-S", "-emit-llvm", src, "-o", out + ".0"], "compiling " + src)
    txt = open(out + ".0").read()
    for pat, attrs in NOINLINE:
        txt = re.sub(r'(?m)^(define [^\n]*@%s\([^\n]*\)(?: unnamed_addr| local_unnamed_addr)?) ' % pat, lambda m: m.group(1) + " " + attrs + " ", txt)
    open(out + ".0", "w").write(txt)
    sh(["opt-18", "-S", "-passes=default<O1>", "--inline-threshold=100000", out + ".0", "-o", out], "optimising " + src)
def compile_native(unit, out, libs=()):
    src = unit_path(unit)
    sh(["g++", "-x", "c++"] + BASE + DEF + ["-O1", "-g0", "-fPIC", "-shared", src, "-o", out, "-Wl,-z,now"] + list(libs), "native build of " + src)

def worker(args):
    prop, idx, irfile, timeout, deadline = args
    res = {}
    def body():
        from vcg import contract as CT
        from vcg.irparse import parse_module
        load_contracts(prop)
        cd = CT.REGISTRY[prop][idx]
        try:
            mod = parse_module(open(irfile).read())
            res.update(CT.run_contract(cd, mod, timeout, deadline))
        except Exception as e:
            import traceback
            res.update({"contract": cd.name, "fn": cd.fn, "unit": cd.unit, "obl": [], "failed": [], "error": traceback.format_exc()[-2000:], "kinds": {}, "assumed": [], "called": [], "paths": 0, "stats": {}, "time": 0, "notes": [], "bounded": None})
    t = threading.Thread(target=body); t.start(); t.join()
    return idx, res

_loaded = set()
def load_contracts(prop):
    if prop in _loaded: return
    _loaded.add(prop)
    importlib.import_module("contracts." + prop)

def searcher(args):
    prop, idx, irfile, so, models, seed, budget, consts = args
    res = []
    def body():
        from vcg import contract as CT, native
        from vcg.irparse import parse_module
        load_contracts(prop)
        cd = CT.REGISTRY[prop][idx]
        try: res.append(native.search(cd, parse_module(open(irfile).read()), so, models, seed, budget, consts))
        except Exception as e:
            import traceback; sys.stderr.write(traceback.format_exc()); res.append(None)
    t = threading.Thread(target=body); t.start(); t.join()
    return idx, res[0] if res else None

def mine_consts(irtext):
    out = set()
    for m in re.finditer(r'(?<![\w.])(-?\d+\.\d+e[+-]\d+|0x[0-9A-F]{16})', irtext):
        s = m.group(1)
        try:
            import struct
            v = struct.unpack(">d", bytes.fromhex(s[2:]))[0] if s.startswith("0x") else float(s)
        except Exception: continue
        if v == v and abs(v) < 1e9: out.add(v)
    ints = set(int(m.group(1)) for m in re.finditer(r'icmp \w+ i(?:32|64) %[^,]+, (\d{1,5})\b', irtext))
    ints |= {k // 8 for k in ints}
    return sorted(out)[:200] + [("int", k) for k in sorted(ints) if 2 < k <= 5000][:60]

def known(prop):
    p = os.path.join(ROOT, "known_findings.jsonl"); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "open": out.append(d)
    return out

def main():
    prop = sys.argv[1]
    only = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--only" else None
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from vcg import contract as CT
    try:
        from contracts import LEVELS
    except ImportError: LEVELS = {}
    load_contracts(prop)
    defs = CT.REGISTRY.get(prop, [])
    tmp = tempfile.mkdtemp(prefix="vcg-%s-" % prop)
    try:
        rc = run(prop, only, tier, seed, t0, defs, tmp, CT)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return rc

def run(prop, only, tier, seed, t0, defs, tmp, CT):
    timeout = 8.0 if tier == "quick" else 30.0
    deadline = t0 + (560 if tier == "quick" else 3000)
    sel_ = [i for i, d in enumerate(defs) if only is None or d.name == only]
    units = sorted(set(defs[i].unit for i in sel_))
    ir = {}; bad = {}
    with multiprocessing.pool.ThreadPool(8) as tp:
        def comp(u):
            out = os.path.join(tmp, hashlib.md5(u.encode()).hexdigest() + ".ll")
            try: compile_ir(u, out); return u, out, None
            except BuildError as e: return u, None, str(e)
        for u, out, err in tp.map(comp, units):
            if err and u.startswith("REPO/"):
                print("ERROR: the sources do not compile\n" + err[-1500:]); return 2
            if err: bad[u] = err
            ir[u] = out
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        results = dict(pool.map(worker, [(prop, i, ir[defs[i].unit], timeout, deadline) for i in sel_ if defs[i].unit not in bad], chunksize=1))
    for i in sel_:
        if defs[i].unit in bad: results[i] = CT.failed_result(defs[i], 'the functions under contract no longer compile as the contract uses them', bad[defs[i].unit])

    errs = [(i, r["error"]) for i, r in results.items() if r["error"]]
    for n, (i, e) in enumerate(errs): print("ERROR: contract %s: %s" % (defs[i].name, e if n < 2 else e.strip().splitlines()[0]))
    nobl = sum(len(r["obl"]) for r in results.values())
    ndis = sum(1 for r in results.values() for o in r["obl"] if o[2])
    failed = [(i, r) for i, r in sorted(results.items()) if r["failed"]]
    kf = known(prop)
    viol = 0; code = 0
    replay_dir = os.path.join(ROOT, "replay")
    if failed:
        os.makedirs(replay_dir, exist_ok=True)
        so = {}
        for u in sorted(set(defs[i].unit for i, _ in failed) - set(bad)):
            out = os.path.join(tmp, hashlib.md5(u.encode()).hexdigest() + ".so")
            try:
                compile_native(u, out, getattr(CT, "NATIVE_LIBS", {}).get(u, []) or ["-lfftw3", "-lsndfile", "-lsamplerate"] if os.path.exists("/usr/include/fftw3.h") else []); so[u] = out
            except BuildError as e:
                print("NOTE: native build for replay failed: " + str(e)[-400:])
        budget = min(60.0, max(10.0, (780 - (time.time() - t0)) / max(1, (len(failed) + 7) // 8)))
        jobs = [(prop, i, ir[defs[i].unit], so[defs[i].unit], [f.get("model") for f in r["failed"]], seed, budget, mine_consts(open(ir[defs[i].unit]).read())) for i, r in failed if defs[i].unit in so]
        found = {}
        if jobs:
            with ctx.Pool(8, maxtasksperchild=1) as pool: found = dict(pool.map(searcher, jobs, chunksize=1))
        for i, r in failed:
            d = defs[i]
            inp = found.get(i)
            matched = [k for k in kf if k.get("contract") == d.name and all(any(s in f["label"] for s in k.get("obligations", [])) for f in r["failed"])]
            if matched:
                print("KNOWN-FINDING: property=%s %s" % (prop, matched[0]["what"])); continue
            viol += 1; code = 1
            path = os.path.join(replay_dir, "%s-%s.json" % (prop, re.sub(r'\W+', "_", d.name)))
            json.dump({"property": prop, "contract": d.name, "function": d.fn, "unit": d.unit, "failing_input": inp,
                       "failed_obligations": r["failed"], "seed": seed}, open(path, "w"), indent=1, default=str)
            for f in r["failed"][:4]: print("  failed obligation [%s] %s: %s  -- %s" % (d.name, f["kind"], f["label"][:200], f["detail"][:200].replace("\n", " ")))
            if inp: print("  failing input on the real code: %s" % json.dumps(inp, default=str)[:600])
            print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if inp else " no-failing-input-found"))
    for k in kf:
        if k.get("always"): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if errs and code == 0: code = 2
    # evidence
    kinds, back, tsol = {}, {}, 0.0
    assumed, called = set(), set()
    for r in results.values():
        for k, v in r["kinds"].items(): kinds[k] = kinds.get(k, 0) + v
        for o in r["obl"]:
            if o[2]: back[o[3]] = back.get(o[3], 0) + 1
        assumed |= set(r["assumed"]); called |= set(r["called"])
        for k, v in r.get("stats", {}).items(): tsol += v[1]
    level = "proof"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2), "violations": viol,
          "coverage": {"obligations": nobl, "discharged": ndis,
                       "checker_cmd": "cd /verif && python3-vt check.py %s" % prop,
                       "trusted_base": ["vcg (verification-condition generator in /verif/vcg) and its term normaliser", "clang-18/opt-18 -O1 translation of the C++ sources to LLVM IR", "z3 and cvc5"],
                       "functions_under_contract": [{"contract": r["contract"], "function": r["fn"], "unit": r["unit"], "obligations": len(r["obl"]), "discharged": sum(1 for o in r["obl"] if o[2]), "paths": r["paths"], "loops_summarised": r.get("loops", 0), "seconds": round(r["time"], 2), **({"bounded": r["bounded"]} if r.get("bounded") else {})} for _, r in sorted(results.items())],
                       "obligations_by_kind": kinds, "discharged_by_backend": back, "solver_seconds": round(tsol, 2),
                       "bounded_contracts": sum(1 for r in results.values() if r.get("bounded")),
                       "samples": [r["obl"][len(r["obl"]) // 2][:2] for _, r in sorted(results.items()) if r["obl"]][:12]},
          "assumptions": sorted(assumed) + ["machine doubles are treated as mathematical reals (no rounding, no overflow to infinity, no NaN)",
                                            "floating literals within 2 ulp of a simple closed form (multiples of pi, ln 10, small rationals, square roots) mean that closed form",
                                            "libm functions are the mathematical functions (exp/log/trig identities used by the normaliser)"] + sorted(set(n for r in results.values() for n in r.get("notes", [])))}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if only is None: json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if code == 0: print("OK property=%s contracts=%d obligations=%d discharged=%d in %.1fs" % (prop, len(results), nobl, ndis, time.time() - t0))
    return code

if __name__ == "__main__":
    import multiprocessing.pool
    sys.exit(main())
