"""Contract language: preconditions, postconditions and frames on functions of /repo (compiled to LLVM IR on every
run), and the driver that generates and discharges their obligations."""
import time, traceback
from .term import *
from . import term as TM
from .solve import *
from . import solve as SOLVE
from .symex import *
from .irparse import *

REGISTRY = {}       # property -> list of ContractDef

class ContractDef:
    def __init__(self, prop, unit, fn, build, name=None, bounded=None):
        self.prop, self.unit, self.fn, self.build, self.name, self.bounded = prop, unit, fn, build, name or fn, bounded

def contract(prop, unit, fn, name=None, bounded=None):
    def d(b):
        REGISTRY.setdefault(prop, []).append(ContractDef(prop, unit, fn, b, name, bounded))
        return b
    return d

class Arr:
    """an array parameter: initial contents readable as a(i) (or a.re(i), a.im(i) for complex arrays)"""
    def __init__(self, name, n, kind, ety):
        self.name, self.n, self.kind, self.ety = name, n, kind, ety
    def __call__(self, i, f=0): return sel(self.cell(f), coerce(i), "R" if self.ety in "RC" else "I")
    def cell(self, f=0): return self.name if self.ety != "C" else "%s.%d" % (self.name, f)
    def re(self, i): return self(i, 0)
    def im(self, i): return self(i, 8)
    @property
    def ty(self): return {"R": DBL, "C": DBL, "I": int_ty(32), "B": int_ty(8), "L": int_ty(64), "F": FLT}[self.ety]
    @property
    def S(self): return {"R": 8, "C": 16, "I": 4, "B": 1, "L": 8, "F": 4}[self.ety]

class Post:
    """final state of one path (symbolic)"""
    numeric = False
    def __init__(self, sx, st, ret): self.sx, self.st, self.retv = sx, st, ret
    @property
    def ret(self): return self.retv
    def field(self, k):
        v = self.retv
        return v.v[k] if isinstance(v, Agg) else v
    def get(self, a, i, f=0):
        i = coerce(i)
        o = self.st.objs[a.name]
        c = self.st.mem.get((a.name, f))
        if c is None: return a(i, f)
        return self.sx.coerce_load(self.sx.read(self.st, c, i, a.ty), a.ty)
    def re(self, a, i): return self.get(a, i, 0)
    def im(self, a, i): return self.get(a, i, 8)
    def retptr(self, a):
        """returned pointer as an element index into a"""
        v = self.retv
        if not isinstance(v, Ptr) or v.o != a.name: return None
        return scale(v.off, F(1, a.S))

class NumPost:
    numeric = True
    def __init__(self, fields=None): self.fields = fields
    @property
    def ret(self): return var("ret!0", self.fields[0])
    def field(self, k): return var("ret!%d" % k, self.fields[k])
    def get(self, a, i, f=0): return sel(a.cell(f) + "'", coerce(i), "R" if a.ety in "RC" else "I")
    def re(self, a, i): return self.get(a, i, 0)
    def im(self, a, i): return self.get(a, i, 8)
    def retptr(self, a): return var("ret!0", "I")

class C:
    def __init__(self, mod, fn, prover=None):
        self.m, self.fn = mod, fn
        self.sx = Exec(mod, prover); self.st = State()
        self.args, self.nargs = [], []        # symbolic arguments and their native description
        self.req, self.reqall = [], []
        self.ens = []
        self.vars = {}; self.arrs = {}
        self.pools = {}; self.gens = []; self.derived = []
        self.may_throw = False; self.notes = []
        self.sizes = None; self.haves = []
        self.retref = None
        self.globals = {}; self.unless = {}; self.using = {}; self.drop = ()
    # ---- parameters
    def size(self, name, lo=0, hi=2**31 - 1): return self.int(name, lo, hi)
    def int(self, name, lo, hi):
        v = var(name, "I"); self.vars[name] = (lo, hi)
        self.requires(le(I(lo), v)); self.requires(le(v, I(hi)))
        return v
    def real(self, name, pool=None):
        v = var(name, "R"); self.vars[name] = None
        if pool: self.pools[name] = pool
        return v
    def bool(self, name):
        v = var(name, "B"); self.vars[name] = "B"
        return v
    def _arr(self, name, n, kind, ety):
        a = Arr(name, coerce(n), kind, ety)
        fields = {0: DBL, 8: DBL} if ety == "C" else {}
        self.sx.newobj(self.st, name, S=a.S, n=a.n, writable=kind != "in", fields=fields)
        if ety == "B": SOLVE.RANGES[name] = (-128, 127)
        for f in (fields or {0: 0}): self.st.mem[(name, f)] = Base(a.cell(f), "R" if ety in "RC" else "I")
        self.arrs[name] = a
        return a
    def input(self, name, n, ety="R"): return self._arr(name, n, "in", ety)
    def output(self, name, n, ety="R"): return self._arr(name, n, "out", ety)
    def inout(self, name, n, ety="R"): return self._arr(name, n, "inout", ety)
    def call(self, *args):
        for a in args:
            if isinstance(a, Arr): self.args.append(Ptr(a.name, I(0))); self.nargs.append(a)
            elif isinstance(a, T) or isinstance(a, (int, float)):
                t = coerce(a); self.args.append(t); self.nargs.append(t)
            elif a is None: self.args.append(NULL); self.nargs.append(None)
            else: raise Exception("argument")
    # ---- clauses
    def requires(self, t):
        if t is not TRUE: self.req.append(t)
        self.st.assume(t)
    def requires_all(self, lo, hi, f, hints=()):
        v = fresh("q", "I")
        b = coerce(f(v))
        self.reqall.append((v, coerce(lo), coerce(hi), b))
        self.st.facts.append(Fact(v, coerce(lo), coerce(hi), b, hints, "requires"))
    def have(self, label, t):
        """intermediate assertion on the initial state: proved from the precondition, then available everywhere"""
        self.haves.append(Obl("assert", label, t, list(self.st.pc), list(self.st.facts)))
        self.st.assume(t)
    def sum_at_least(self, n, f, idxs):
        """the sum of non-negative terms is at least any one of them: non-negativity is an obligation, the rest is the rule"""
        n = coerce(n); v = fresh("i", "I")
        self.haves.append(Obl("assert", "terms of the sum are non-negative", le(ZERO, coerce(f(v))), list(self.st.pc) + [le(I(0), v), lt(v, n)], list(self.st.facts)))
        S = Sum(0, n, f)
        for k in idxs: self.st.assume(implies(and_(le(I(0), k), lt(k, n)), le(coerce(f(k)), S)))
    def lemma(self, t): self.st.assume(t); self.notes.append("lemma assumed: " + show(t, 200))
    def ensures(self, label, f, using=()): self.ens.append(("one", label, None, None, f)); self.using[label] = using
    def ensures_all(self, label, lo, hi, f, using=()):
        """using: intermediate assertions, each proved first and then available to the next and to the clause"""
        self.ens.append(("all", label, coerce(lo), coerce(hi), f)); self.using[label] = using
    def ensures_exists(self, label, lo, hi, f, unless=None):
        self.ens.append(("ex", label, coerce(lo), coerce(hi), f))
        self.unless[label] = unless
    def returns(self, t): self.ens.append(("one", "returned value", None, None, lambda p, t=t: eq(p.ret, t(p) if callable(t) else t)))
    def pool(self, name, vals): self.pools[name] = vals
    def gen(self, f): self.gens.append(f)
    def sane(self, t): self.__dict__.setdefault("sanes", []).append(t)     # generated inputs only: keeps rounding errors small
    def derive(self, name, f): self.derived.append((name, f))     # value of a scalar in generated inputs

class CheckResult: pass

def failed_result(cd, label, detail):
    return {"contract": cd.name, "fn": cd.fn, "unit": cd.unit, "obl": [("extraction", label, False, "none", 0.0)], "error": None, "kinds": {}, "assumed": [], "called": [], "paths": 0, "notes": [], "bounded": cd.bounded, "stats": {}, "time": 0,
            "failed": [{"kind": "extraction", "label": label, "goal": "", "assuming": [], "detail": detail, "model": None}]}

def unchanged(p, a, n): return (0, n, lambda p, i: eq(p.get(a, i), a(i)))

def run_contract(cd, mod, timeout=8.0, deadline=None):
    """generate and discharge the obligations of one contract; returns a plain dict"""
    t0 = time.time()
    for k in SOLVE.STATS: SOLVE.STATS[k] = [0, 0.0]
    res = {"contract": cd.name, "fn": cd.fn, "unit": cd.unit, "obl": [], "failed": [], "error": None, "kinds": {}, "assumed": [], "called": [], "paths": 0, "notes": [], "bounded": cd.bounded}
    try:
        c = C(mod, cd.fn)
        cd.build(c)
        if cd.fn not in mod.funcs: raise Unsupported("function %s is not defined in %s" % (cd.fn, cd.unit))
        # vacuity: the precondition has a model
        sat, s, z = z3check(list(c.st.pc) + instantiate(c.st.facts, list(c.st.pc)), 5.0)
        if sat == SOLVE.z3.unsat: raise Exception("precondition of %s is contradictory" % cd.name)
        sx = c.sx
        outs = sx.call_fn(c.st, cd.fn, c.args)
        goals = []
        nret = 0
        for o in outs:
            if o[0] == "throw":
                if not c.may_throw and feasible(o[2].ctx(), TRUE, 4.0):
                    goals.append(Obl("exception", "no exception escapes", FALSE, o[2].pc, o[2].facts))
                continue
            st, ret = o[2], o[1]
            if not feasible(st.ctx(), TRUE, 3.0): continue
            nret += 1
            p = Post(sx, st, ret)
            n0 = len(sx.obls); sx.rec += 1
            for kind, label, lo, hi, f in c.ens:
                try:
                    if kind == "one":
                        pc = list(st.pc)
                        for u in c.using.get(label, ()): g = u(p); goals.append(Obl("assert", "step towards: " + label, g, pc, st.facts)); pc = pc + [g]
                        goals.append(Obl("ensures", label, f(p), pc, st.facts))
                    elif kind == "all":
                        v = fresh("i", "I"); s2 = st.fork(); s2.assume(le(lo, v)); s2.assume(lt(v, hi))
                        if any(x is FALSE for x in s2.pc) or not feasible(s2.ctx(), TRUE, 2.0): 
                            goals.append(Obl("ensures", label + " (empty range)", TRUE, st.pc, st.facts)); continue
                        p2 = Post(sx, s2, ret)
                        pc = list(s2.pc)
                        for u in c.using.get(label, ()): g = u(p2, v); goals.append(Obl("assert", "step towards: " + label, g, pc, s2.facts)); pc = pc + [g]
                        goals.append(Obl("ensures", label, f(p2, v), pc, s2.facts))
                    elif kind == "ex":
                        cands = [I(0)]
                        seen = set()
                        gv = fresh("e", "I")
                        for x in subterms(f(p, gv), seen):
                            if x.op == "sel" and x.a[1].s == "I" and gv not in fv(x.a[1]) and not any(w.op == "bv" for w in fv(x)) and x.a[1] not in cands: cands.append(x.a[1])
                        terms = list(st.pc) + ([ret] if isinstance(ret, T) else [x for x in ret.v if isinstance(x, T)] if isinstance(ret, Agg) else [])
                        for t in terms:
                            for x in subterms(t, seen):
                                if x.op == "sel" and x.a[1].s == "I" and not any(w.op == "bv" for w in fv(x)) and x.a[1] not in cands: cands.append(x.a[1])
                        cands = cands[:12]
                        goals.append(Obl("ensures", label, or_(*([c.unless[label](p)] if c.unless.get(label) else []), *[and_(le(lo, t), lt(t, hi), f(p, t)) for t in cands]), st.pc, st.facts))
                except Unsupported as e:
                    goals.append(Obl("ensures", label + " [%s]" % e, FALSE, st.pc, st.facts))
            sx.rec -= 1
        res["paths"] = nret
        if nret == 0 and not c.may_throw: raise Unsupported("no path returns")
        obls = [o for o in c.haves + sx.obls + goals if o.kind not in c.drop]
        if not obls: raise Exception("no obligations were generated for %s" % cd.name)
        cache = {}
        for ob in obls:
            kx = (ob.goal.id, frozenset(x.id for x in ob.pc), tuple(id(f) for f in ob.facts))
            if kx in cache: r, dt = cache[kx], 0.0
            else:
                t1 = time.time()
                if deadline and t1 > deadline: r = Result(False, "none", "time budget exhausted")
                else: r = Prover(timeout).prove(Ctx(ob.pc, ob.facts), ob.goal)
                dt = time.time() - t1; cache[kx] = r
            res["kinds"][ob.kind] = res["kinds"].get(ob.kind, 0) + 1
            res["obl"].append((ob.kind, ob.label[:160], r.ok, r.backend, round(dt, 3)))
            if not r.ok:
                res["failed"].append({"kind": ob.kind, "label": ob.label, "goal": show(ob.goal, 1500), "assuming": [show(x, 400) for x in ob.pc][:40], "detail": r.detail, "model": r.model})
        res["assumed"] = sorted(sx.assumed); res["called"] = sorted(sx.called); res["loops"] = sx.nloops
        res["notes"] = c.notes
    except Unsupported as e:
        res["failed"].append({"kind": "extraction", "label": "obligations of %s cannot be generated: %s" % (cd.name, e), "goal": "", "assuming": [], "detail": traceback.format_exc()[-1500:], "model": None})
    except Exception as e:
        res["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:])
    res["stats"] = {k: list(v) for k, v in SOLVE.STATS.items()}
    res["time"] = time.time() - t0
    return res
