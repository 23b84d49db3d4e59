"""Runs the native search on every contract of the unchanged tree: it must never produce a failing input.
usage: oracle_test.py SECONDS [PROPS...]"""
import sys, os, glob, tempfile, multiprocessing.pool, hashlib, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from vcg import contract as CT
budget = float(sys.argv[1]); props = sys.argv[2:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(check.ROOT, "contracts", "[A-Z]*.py")))
tmp = tempfile.mkdtemp(prefix="oracle-")
try:
    for p in props:
        check.load_contracts(p); defs = CT.REGISTRY.get(p, [])
        units = sorted(set(d.unit for d in defs)); ir, so = {}, {}
        def comp(u):
            h = os.path.join(tmp, hashlib.md5(u.encode()).hexdigest())
            if not os.path.exists(h + ".ll"): check.compile_ir(u, h + ".ll")
            if not os.path.exists(h + ".so"): check.compile_native(u, h + ".so", getattr(CT, "NATIVE_LIBS", {}).get(u, []) or ["-lfftw3", "-lsndfile", "-lsamplerate"])
            ir[u], so[u] = h + ".ll", h + ".so"
        with multiprocessing.pool.ThreadPool(8) as tp: tp.map(comp, units)
        jobs = [(p, i, ir[d.unit], so[d.unit], [], int(os.environ.get("VERIF_SEED", "1")), budget, check.mine_consts(open(ir[d.unit]).read())) for i, d in enumerate(defs)]
        with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool: found = dict(pool.map(check.searcher, jobs, chunksize=1))
        bad = [(defs[i].name, f) for i, f in sorted(found.items()) if f]
        print(p, len(defs), "contracts:", "quiet" if not bad else "")
        for n, f in bad: print("   ", n, str(f)[:900])
        sys.stdout.flush()
finally: shutil.rmtree(tmp, ignore_errors=True)
