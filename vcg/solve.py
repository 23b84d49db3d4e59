"""SMT back ends: translation of terms to z3 (python API) and cvc5 (SMT-LIB text), instantiation of
quantified facts, lemma generation for prefix sums, and the proof procedure for goals."""
import time, z3, os, subprocess, tempfile
from fractions import Fraction as F
from .term import *

STATS = {"z3": [0, 0.0], "cvc5": [0, 0.0], "normaliser": [0, 0.0]}

RANGES = {}     # value ranges of arrays of machine integers
class Fact:
    """forall v. lo <= v < hi  ==>  body      (body a Bool term over v);  nested binders allowed through 'more'"""
    __slots__ = ("v", "lo", "hi", "body", "hints", "why")
    def __init__(self, v, lo, hi, body, hints=(), why=""):
        self.v, self.lo, self.hi, self.body, self.hints, self.why = v, lo, hi, body, tuple(hints), why
    def inst(self, t):
        k = (self.v, self.lo, self.hi, self.body, t)
        r = _inst.get(k)
        if r is None:
            g = []
            if self.lo is not None: g.append(le(self.lo, t))
            if self.hi is not None: g.append(lt(t, self.hi))
            g = and_(*g)
            r = _inst[k] = TRUE if g is FALSE else implies(g, subst(self.body, {self.v: t}))
        return r
    def subst(self, mp):
        mp2 = {k: x for k, x in mp.items() if k is not self.v}
        if not mp2: return self
        k = (self.v, self.lo, self.hi, self.body, self.hints, tuple(sorted(((a.id, b.id) for a, b in mp2.items()))))
        r = _fsub.get(k)
        if r is None:
            s = lambda x: subst(x, mp2) if x is not None else None
            r = _fsub[k] = Fact(self.v, s(self.lo), s(self.hi), s(self.body), [s(h) for h in self.hints], self.why)
        return r
_inst, _fsub = {}, {}

def clos(t):
    """sub-terms not mentioning bound variables"""
    return [x for x in subterms(t) if not any(v.op == "bv" for v in fv(x))]

# ------------------------------------------------------------------ z3 translation
class Z:
    """translation shared by all queries; side conditions (bounds of function values, definitions of quotients) are kept per
    term and collected for the terms of a query"""
    def __init__(self):
        self.memo = {}; self.fun = {}; self.sides = {}; self.bearing = {}; self.stack = []
    @property
    def side(self): return self.sides.setdefault(self.stack[-1], [])
    @side.setter
    def side(self, v): self.sides[self.stack[-1]] = v
    def sides_of(self, asserts):
        bs = set()
        for a in asserts: bs |= self.bearers(a)
        out = []
        for b in sorted(bs, key=lambda t: t.id): out += self.sides.get(b, ())
        return out
    def bearers(self, t):
        r = self.bearing.get(t)
        if r is None:
            r = set()
            for c in children(t): r |= self.bearers(c)
            if self.sides.get(t):
                r.add(t)
                for x in self.extra.get(t, ()):
                    r.add(x)
                    for c in children(x): r |= self.bearers(c)
            self.bearing[t] = r = frozenset(r)
        return r
    extra = {}
    def name(self, t): return "t%d" % t.id
    def const(self, t):
        return z3.Int(self.name(t)) if t.s == "I" else (z3.Bool(self.name(t)) if t.s == "B" else z3.Real(self.name(t)))
    def real(self, t):
        e = self.tr(t)
        return z3.ToReal(e) if z3.is_int(e) else e
    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            self.stack.append(t)
            try: r = self._tr(t)
            finally: self.stack.pop()
            self.memo[t] = r
        return r
    def _tr(self, t):
        o = t.op
        if o == "num":
            f = t.a[0]
            if t.s == "I": return z3.IntVal(int(f))
            return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
        if o == "var":
            nm = str(t.a[0])
            return z3.Int(nm) if t.s == "I" else (z3.Bool(nm) if t.s == "B" else z3.Real(nm))
        if o == "bv": raise Exception("free bv")
        if o == "poly":
            isI = t.s == "I"
            ts = []
            for m, c in t.a[0]:
                x = None
                for a, e in m:
                    b = self.tr(a)
                    if not isI and z3.is_int(b): b = z3.ToReal(b)
                    for _ in range(abs(e)):
                        if e > 0: x = b if x is None else x * b
                        else:
                            ib = self.invof(a)
                            x = ib if x is None else x * ib
                if isI: k = z3.IntVal(int(c))
                else: k = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
                if x is None: ts.append(k)
                elif c == 1: ts.append(x)
                else: ts.append(k * x)
            return ts[0] if len(ts) == 1 else z3.Sum(ts)
        if o == "paren": return self.tr(t.a[0])
        if o == "ite":
            c = self.tr(t.a[0]); a, b = self.tr(t.a[1]), self.tr(t.a[2])
            if z3.is_int(a) != z3.is_int(b):
                a = z3.ToReal(a) if z3.is_int(a) else a; b = z3.ToReal(b) if z3.is_int(b) else b
            return z3.If(c, a, b)
        if o == "floor":
            return z3.ToInt(self.real(t.a[0]))
        if o == "idiv":
            q = self.const(t); x = self.tr(t.a[0]); k = t.a[1]
            self.side.append(z3.And(q * k <= x, x < q * k + k))
            return q
        if o == "sel":
            nm = "A_" + (t.a[0] if isinstance(t.a[0], str) else str(t.a[0])) + "_" + t.s
            rng = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[t.s]
            f = self.fun.get(nm)
            if f is None: f = self.fun[nm] = z3.Function(nm, z3.IntSort(), rng)
            c = f(self.tr(t.a[1])); r = RANGES.get(t.a[0])
            if r: self.side.append(z3.And(c >= r[0], c <= r[1]))
            return c
        if o == "app":
            f = t.a[0]
            if f == "fabs":
                x = self.real(t.a[1]); return z3.If(x >= 0, x, -x)
            c = None
            if len(t.a) == 1 or f in ("inv0",): c = self.const(t)
            else:
                args = [self.real(x) for x in t.a[1:]] if t.s == "R" else [self.tr(x) for x in t.a[1:]]
                nm = "F_%s_%d_%s" % (f, len(args), t.s)
                dom = [z3.IntSort() if z3.is_int(x) else (z3.BoolSort() if z3.is_bool(x) else z3.RealSort()) for x in args]
                nm += "".join("i" if z3.is_int(x) else ("b" if z3.is_bool(x) else "r") for x in args)
                fu = self.fun.get(nm)
                if fu is None: fu = self.fun[nm] = z3.Function(nm, *dom, {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[t.s])
                c = fu(*args)
            if f == "pi": self.side += [c > z3.RealVal("3.14159265358"), c < z3.RealVal("3.14159265359")]
            elif f == "sqrt":
                x = self.real(t.a[1])
                self.side += [z3.Implies(x >= 0, z3.And(c >= 0, c * c == x)), z3.Implies(x > 0, c > 0)]
            elif f == "exp":
                x = self.real(t.a[1])
                self.side += [c > 0, z3.Implies(x > 0, c > 1), z3.Implies(x < 0, c < 1)]
            elif f == "ln":
                x = self.real(t.a[1])
                self.side += [z3.Implies(x > 1, c > 0), z3.Implies(z3.And(x > 0, x < 1), c < 0), z3.Implies(x == 1, c == 0)]
                if t.a[1].op == "num" and t.a[1].a[0] > 0:
                    v = math.log(float(t.a[1].a[0]))
                    self.side += [c > z3.RealVal("%.9f" % (v - 1e-8)), c < z3.RealVal("%.9f" % (v + 1e-8))]
            elif f == "cos" or f == "sin":
                self.side += [c >= -1, c <= 1]
                if f == "cos": self.side.append(z3.Implies(self.real(t.a[1]) == 0, c == 1))
                else: self.side.append(z3.Implies(self.real(t.a[1]) == 0, c == 0))
                other = app("sin" if f == "cos" else "cos", t.a[1])
                self.memo.setdefault(t, c)
                Z.extra.setdefault(t, []).append(other)
                o2 = self.tr(other)
                if f == "cos": self.side.append(c * c + o2 * o2 == 1)
            elif f in ("tanh",): self.side += [c > -1, c < 1]
            elif f == "cosh": self.side += [c >= 1]
            elif f in ("tolower", "toupper"): self.side.append(z3.And(c >= 0, c <= 255))
            elif f == "udiv":
                a, b = self.tr(t.a[1]), self.tr(t.a[2])
                self.side += [z3.Implies(z3.And(b > 0, a >= 0), z3.And(c >= 0, c * b <= a, a < c * b + b))]
            elif f == "pow":
                x, y = self.real(t.a[1]), self.real(t.a[2])
                self.side += [z3.Implies(x > 0, c > 0)]
            return c
        if o in ("psum", "rec"): return self.const(t)
        if o == "le0":
            p = self.tr(t.a[0]); return p <= 0
        if o == "lt0": return self.tr(t.a[0]) < 0
        if o == "eq0": return self.tr(t.a[0]) == 0
        if o == "not": return z3.Not(self.tr(t.a[0]))
        if o == "and": return z3.And(*[self.tr(x) for x in t.a])
        if o == "or": return z3.Or(*[self.tr(x) for x in t.a])
        if o == "iff": return self.tr(t.a[0]) == self.tr(t.a[1])
        if o == "true": return z3.BoolVal(True)
        if o == "false": return z3.BoolVal(False)
        raise Exception("z3 " + o)
    def invof(self, a):
        k = ("inv", a)
        r = self.memo.get(k)
        if r is None:
            r = z3.Real("inv%d" % a.id)
            x = self.real(a)
            self.memo[k] = r
            self.sides[k] = [z3.Implies(x != 0, r * x == 1), z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0), z3.Implies(x == 0, r == 0)]
        self.side += self.sides[k]
        return r

class ZL(Z):
    """linear abstraction: every product (and every power) is an unknown of its own"""
    def _tr(self, t):
        if t.op == "poly":
            isI = t.s == "I"; ts = []
            for m, c in t.a[0]:
                x = None
                if len(m) == 1 and m[0][1] == 1:
                    x = self.tr(m[0][0])
                    if not isI and z3.is_int(x): x = z3.ToReal(x)
                elif m:
                    nm = "mono" + "_".join("%d^%d" % (a.id, e) for a, e in m)
                    allI = all(a.s == "I" and e > 0 for a, e in m)
                    x = z3.Int(nm) if allI else z3.Real(nm)
                    if allI and not isI: x = z3.ToReal(x)
                k = z3.IntVal(int(c)) if isI else z3.RealVal("%d/%d" % (c.numerator, c.denominator))
                ts.append(k if x is None else x if c == 1 else k * x)
            return ts[0] if len(ts) == 1 else z3.Sum(ts)
        r = Z._tr(self, t)
        if t.op == "app" and t.a[0] in ("sqrt", "cos", "sin"): self.side = [r >= 0] if t.a[0] == "sqrt" and False else [z3.And(r >= -1, r <= 1)] if t.a[0] != "sqrt" else []
        return r

GZ = Z()
GL = ZL()
def linear_unsat(asserts, timeout=1.0):
    """contradiction already in the linear abstraction"""
    es = [GL.tr(a) for a in asserts]
    s = z3.Solver(); s.set("timeout", int(timeout * 1000))
    for e in es: s.add(e)
    for e in GL.sides_of(asserts): s.add(e)
    t0 = time.time(); r = s.check()
    STATS["z3"][0] += 1; STATS["z3"][1] += time.time() - t0
    return r == z3.unsat

def linear_in(p, v):
    """p = c*v + rest with numeric c != 0 and v not in rest -> (c, rest)"""
    if v not in fv(p): return None
    d = pd(p); c = d.get(((v, 1),))
    if not c: return None
    rest = mkpoly({m: q for m, q in d.items() if m != ((v, 1),)}, p.s)
    if v in fv(rest): return None
    return c, rest

def instantiate(facts, terms, rounds=2, cap=400, hints=()):
    """trigger based instantiation: reads A[t] in the terms against reads A[c*v+r] in the fact body"""
    out, done = [], set()
    todo = list(terms)
    hints = list(hints)
    for _ in range(rounds):
        reads = {}
        seen = set()
        for t in todo + out:
            for x in subterms(t, seen):
                if x.op == "sel" and not any(v.op == "bv" for v in fv(x)):
                    reads.setdefault((x.a[0], x.s), set()).add(x.a[1])
                elif x.op == "app" and x.a[0] == "udiv" and not any(v.op == "bv" for v in fv(x)):
                    reads.setdefault((("udiv", x.a[1]), "I"), set()).add(x.a[2])
        new = []
        for f in facts:
            cands = set(f.hints) | set(hints)
            if f.lo is not None and f.v not in fv(f.body): cands.add(f.lo)
            for x in subterms(f.body):
                if (x.op == "sel" or x.op == "app" and x.a[0] == "udiv" and f.v not in fv(x.a[1])) and f.v in fv(x) and not any(v.op == "bv" for v in fv(x)):
                    li = linear_in(x.a[1] if x.op == "sel" else x.a[2], f.v)
                    if not li: continue
                    c, rest = li
                    for idx in reads.get((x.a[0], x.s) if x.op == "sel" else (("udiv", x.a[1]), "I"), ()):
                        q = sub(idx, rest)
                        d = pd(q)
                        if all((k / c).denominator == 1 for k in d.values()):
                            cands.add(mkpoly({m: k / c for m, k in d.items()}, "I"))
                        elif c.denominator == 1 and abs(c) <= 16:
                            cands.add(scale(idiv(q, int(abs(c))), 1 if c > 0 else -1))
            for t in sorted(cands, key=key):
                if (id(f), t) in done: continue
                done.add((id(f), t))
                g = f.inst(t)
                if g is not TRUE: new.append(g)
                if len(done) > cap: break
        if not new: break
        out += new
    return out

class Ctx:
    """assumptions: pc terms + quantified facts"""
    def __init__(self, pc=(), facts=()): self.pc, self.facts = list(pc), list(facts)

_feas = {}
def z3check(asserts, timeout, tactic=None):
    z = GZ
    es = [z.tr(a) for a in asserts]
    side = z.sides_of(asserts)
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    for e in es: s.add(e)
    for e in side: s.add(e)
    t0 = time.time()
    r = s.check()
    STATS["z3"][0] += 1; STATS["z3"][1] += time.time() - t0
    return r, s, z

def cvc5check(asserts, timeout):
    z = GZ
    es = [z.tr(a) for a in asserts]
    side = z.sides_of(asserts)
    s = z3.Solver()
    for e in es: s.add(e)
    for e in side: s.add(e)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=True) as f:
            f.write(txt); f.flush()
            p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), "--nl-ext-tplanes", f.name], capture_output=True, text=True, timeout=timeout + 5)
            out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        out = "unknown"
    STATS["cvc5"][0] += 1; STATS["cvc5"][1] += time.time() - t0
    return out

_nl = {}
def nonlinear(t):
    r = _nl.get(t)
    if r is None:
        r = False
        if t.op == "poly":
            for m, c in t.a[0]:
                if len(m) > 1 or (m and m[0][1] != 1): r = True; break
        elif t.op == "app" and t.a[0] in ("sqrt", "exp", "ln", "pow", "cos", "sin"): r = True
        elif t.op == "psum": _nl[t] = False; return False
        if not r: r = any(nonlinear(c) for c in children(t))
        _nl[t] = r
    return r

def feasible(ctx, cond=TRUE, timeout=1.0):
    """False only when pc & facts & cond is unsatisfiable"""
    if cond is FALSE: return False
    ts = [t for t in ctx.pc if t is not TRUE] + [cond]
    if any(t is FALSE for t in ts): return False
    k = (frozenset(t.id for t in ts), tuple(id(f) for f in ctx.facts))
    r = _feas.get(k)
    if r is not None: return r
    c = and_(*ts)
    if c is FALSE: _feas[k] = False; return False
    insts = instantiate(ctx.facts, ts, rounds=1) if ctx.facts else []
    timeout = min(timeout, 0.5) if len(insts) > 12 else timeout
    al = ts + insts
    if any(nonlinear(t) for t in al) and linear_unsat(al, min(timeout, 0.5)): _feas[k] = False; return False
    if not nonlinear(cond) and any(nonlinear(t) for t in al): al = [t for t in al if not nonlinear(t)]      # pruning is only an optimisation
    res, s, z = z3check(al, timeout)
    r = res != z3.unsat
    _feas[k] = r
    return r

def solve_eqs(pc, goal, facts=()):
    """use Int equalities of the path condition as substitutions"""
    pc = list(pc); mp_all = {}
    for _ in range(12):
        done = True
        les = set(c for c in pc if c.op == "le0" and c.a[0].s == "I")
        tight = [eq0(c.a[0]) for c in les if le0(neg(c.a[0])) in les]
        for c in pc + tight:
            if c.op == "eq0":
                p = c.a[0]
                best = None
                for m, q in pd(p).items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and abs(q) == 1 and m[0][0].s == "I":
                        v = m[0][0]
                        li = linear_in(p, v)
                        if li: best = (v, li) if best is None or "!" in str(v.a[0]) else best
                if best:
                    v, (q, rest) = best
                    t = scale(rest, -1 / q)
                    if t.s != "I": continue
                    mp = {v: t}
                    mp_all = {k: subst(x, mp) for k, x in mp_all.items()}; mp_all[v] = t
                    pc = [subst(x, mp) for x in pc if x is not c]
                    pc = [x for x in pc if x is not TRUE]
                    done = False
                    break
        if done: break
    if mp_all:
        goal = subst(goal, mp_all)
        facts = [f.subst(mp_all) for f in facts]
    return pc, goal, facts, mp_all

# ------------------------------------------------------------------ bit operations: exact two's-complement arithmetic, wide enough not to wrap
BITOPS = ("and", "or", "xor", "ctpop")
_bit = {}
def bitty(t):
    r = _bit.get(t)
    if r is None: r = _bit[t] = (t.op == "app" and t.a[0] in BITOPS) or any(bitty(c) for c in children(t))
    return r
class NoBits(Exception): pass
def bvcheck(asserts, timeout):
    """z3.unsat only when the assertions over bounded integers are contradictory; assertions outside the fragment are left out"""
    lo, hi = {}, {}
    for t in [x for a in asserts for x in (a.a if a.op == "and" else (a,))]:
        if t.op in ("le0", "lt0", "eq0"):
            d = pd(t.a[0]); ms = [m for m in d if m != ()]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and ms[0][0][0].op in ("var", "sel") and ms[0][0][0].s == "I":
                v, k, c = ms[0][0][0], d[ms[0]], d.get((), F(0)); b = -c / k       # k v + c <= 0
                if t.op == "eq0": lo[v] = max(lo.get(v, b), b); hi[v] = min(hi.get(v, b), b)
                elif k > 0: hi[v] = min(hi.get(v, b), b)
                else: lo[v] = max(lo.get(v, b), b)
    rng = {}
    def bound(t):
        r = rng.get(t)
        if r is None: r = rng[t] = _bound(t)
        return r
    def _bound(t):
        if t.op == "num":
            if t.s != "I": raise NoBits()
            return int(t.a[0])
        if t.op in ("var", "sel"):
            if t not in lo or t not in hi: raise NoBits()
            return max(abs(int(lo[t])), abs(int(hi[t]))) + 1
        if t.op == "poly":
            if t.s != "I": raise NoBits()
            s_ = 0
            for m, c in t.a[0]:
                x = abs(int(c))
                for a, e in m:
                    if e < 0: raise NoBits()
                    x *= bound(a) ** e
                s_ += x
            return s_
        if t.op == "ite": return max(bound(t.a[1]), bound(t.a[2]))
        if t.op == "idiv":
            if t.a[1] & (t.a[1] - 1): raise NoBits()
            return bound(t.a[0]) + 1
        if t.op == "app" and t.a[0] in ("and", "or", "xor"):
            return 1 << (max(bound(t.a[1]), bound(t.a[2])).bit_length() + 1)
        if t.op == "app" and t.a[0] == "ctpop": bound(t.a[1]); return 64
        raise NoBits()
    def scan(b):
        if b.op in ("le0", "lt0", "eq0"): bound(b.a[0])
        elif b.op in ("not", "and", "or", "iff"):
            for x in b.a: scan(x)
        elif b.op not in ("true", "false"): raise NoBits()
        for x in subterms(b):
            if x.op == "ite": scan(x.a[0])
    use = []
    for a in asserts:
        try: scan(a); use.append(a)
        except NoBits: pass
    W = max([8] + [abs(b).bit_length() for b in rng.values()]) + 3
    if W > 140: return z3.unknown
    memo = {}
    def E(t):
        r = memo.get(t)
        if r is None: r = memo[t] = _E(t)
        return r
    def _E(t):
        if t.op == "num": return z3.BitVecVal(int(t.a[0]), W)
        if t.op in ("var", "sel"): return z3.BitVec("b%d" % t.id, W)
        if t.op == "poly":
            s_ = z3.BitVecVal(0, W)
            for m, c in t.a[0]:
                x = z3.BitVecVal(int(c), W)
                for a, e in m:
                    for _ in range(e): x = x * E(a)
                s_ = s_ + x
            return s_
        if t.op == "ite": return z3.If(B(t.a[0]), E(t.a[1]), E(t.a[2]))
        if t.op == "idiv": return E(t.a[0]) >> (t.a[1].bit_length() - 1)
        if t.a[0] == "ctpop":
            x = E(t.a[1]); n = min(int(t.a[2].a[0]), W)
            return z3.Sum([z3.ZeroExt(W - 1, z3.Extract(i, i, x)) for i in range(n)])
        x, y = E(t.a[1]), E(t.a[2])
        return x & y if t.a[0] == "and" else x | y if t.a[0] == "or" else x ^ y
    def B(t):
        if t.op == "le0": return E(t.a[0]) <= 0
        if t.op == "lt0": return E(t.a[0]) < 0
        if t.op == "eq0": return E(t.a[0]) == 0
        if t.op == "not": return z3.Not(B(t.a[0]))
        if t.op == "and": return z3.And(*[B(x) for x in t.a])
        if t.op == "or": return z3.Or(*[B(x) for x in t.a])
        if t.op == "iff": return B(t.a[0]) == B(t.a[1])
        return z3.BoolVal(t.op == "true")
    s = z3.Solver(); s.set("timeout", int(timeout * 1000))
    for a in use: s.add(B(a))
    for v in [x for x in rng if x.op in ("var", "sel")]: s.add(E(v) >= int(lo[v]), E(v) <= int(hi[v]))
    t0 = time.time(); r = s.check()
    STATS["z3"][0] += 1; STATS["z3"][1] += time.time() - t0
    return r

class Result:
    def __init__(self, ok, backend, detail="", model=None): self.ok, self.backend, self.detail, self.model = ok, backend, detail, model

def clear_denoms(p):
    """multiply a polynomial by all its inverse factors -> polynomial without negative exponents (1 pass, iterated)"""
    for _ in range(6):
        neg_ = {}
        for m in pd(p):
            for a, e in m:
                if e < 0: neg_[a] = max(neg_.get(a, 0), -e)
        if not neg_: return p
        a = sorted(neg_, key=key)[0]
        p = times_denom(p, a, neg_[a])
    return p
def times_denom(p, a, e):
        """p multiplied by the e-th power of the factor a"""
        base = a.a[0] if a.op == "paren" else a
        # multiply: expand each monomial by base^(e - e_m) with the atom removed
        ts = []
        for m, c in pd(p).items():
            em = 0; rest = []
            for b, k in m:
                if b is a and k < 0: em = -k
                else: rest.append((b, k))
            if a.op != "paren":
                # plain atom: combine exponents directly
                rest2 = [(b, k) for b, k in m if b is not a]; k0 = sum(k for b, k in m if b is a)
                if k0 + e: rest2.append((a, k0 + e))
                ts.append(mkpoly({tuple(sorted(rest2, key=lambda ae: key(ae[0]))): c}, "R"))
            else:
                t = mkpoly({tuple(rest): c}, "R")
                for _ in range(e - em): t = mul(t, base)
                ts.append(t)
        return add(*ts)

def top_denoms(p):
    d = {}
    for m in pd(p):
        for a, e in m:
            if e < 0: d[a] = max(d.get(a, 0), -e)
    return d
def mk_cmp(op, p): return lt0(p) if op == "lt0" else le0(p) if op == "le0" else eq0(p)

def denominators(p):
    s = set()
    for x in subterms(p):
        if x.op == "poly":
            for m, _ in x.a[0]:
                for a, e in m:
                    if e < 0: s.add(a.a[0] if a.op == "paren" else a)
    return s

def reads(t): return set(x.a[0] for x in subterms(t) if x.op == "sel")
def first_ite(t):
    best = None
    for x in subterms(t):
        if x.op == "ite" and not any(v.op == "bv" for v in fv(x)):
            if not any(y.op == "ite" and y is not x for y in subterms(x.a[0])):
                if best is None or x.id < best.id: best = x
    return best

def nested_fabs(t):
    """an absolute value inside another function application (where z3 would treat it as opaque)"""
    for x in subterms(t):
        if x.op == "app" and x.a[0] not in ("fabs",):
            for y in subterms(x):
                if y is not x and y.op == "app" and y.a[0] == "fabs" and not any(v.op == "bv" for v in fv(y)): return y
    return None

def replace_ite(t, c, val):
    """specialise every closed ite on condition c"""
    mp = {}
    nc = not_(c)
    for x in subterms(t):
        if x.op == "ite" and x.a[0] is c: mp[x] = x.a[1] if val else x.a[2]
        elif x.op == "ite" and x.a[0] is nc: mp[x] = x.a[2] if val else x.a[1]
    t = subst(t, mp)
    return t

def specialise(pc, c, val):
    """the assumptions, knowing the truth value of condition c"""
    nc = not_(c); out = []
    for p in pc:
        if any(x.op == "ite" and (x.a[0] is c or x.a[0] is nc) for x in subterms(p)): p = replace_ite(p, c, val)
        if p is not TRUE: out.append(p)
    return out

def syntactic(known, c):
    """truth value of c given a set of assumed terms, by matching alone"""
    if c is TRUE or c in known: return True
    n = not_(c)
    if c is FALSE or n in known: return False
    if c.op == "and":
        v = [syntactic(known, x) for x in c.a]
        if any(x is False for x in v): return False
        return True if all(x is True for x in v) else None
    if c.op == "or":
        v = [syntactic(known, x) for x in c.a]
        if any(x is True for x in v): return True
        return False if all(x is False for x in v) else None
    if c.op == "not":
        v = syntactic(known, c.a[0]); return None if v is None else not v
    return None

class Prover:
    def __init__(self, timeout=8.0, sums=True): self.timeout = timeout; self.sums = sums; self.splits = 0
    def prove(self, ctx, goal, depth=0):
        t0 = time.time()
        if goal is TRUE:
            STATS["normaliser"][0] += 1
            return Result(True, "normaliser")
        pc, goal, facts, _ = solve_eqs(ctx.pc, goal, ctx.facts)
        if any(p is FALSE for p in pc) or goal is TRUE:
            STATS["normaliser"][0] += 1
            return Result(True, "normaliser")
        if goal.op == "and":
            last = None
            for g in goal.a:
                r = self.prove(Ctx(pc, facts), g, depth)
                if not r.ok: return r
                last = r
            return last
        return self._prove(Ctx(pc, facts), goal, depth)
    def _prove(self, ctx, goal, depth):
        if goal.op == "eq0":
            p = goal.a[0]
            # sum congruence
            g2 = self.sum_congruence(ctx, goal)
            if g2 is TRUE: return Result(True, "normaliser+z3")
            goal = g2
            if goal.op == "eq0":
                q = clear_denoms(goal.a[0])
                if q.op == "num" and q.a[0] == 0: return Result(True, "normaliser")
        known = None
        for _ in range(40):
            it = first_ite(goal)
            if it is None or depth >= 24: break
            if known is None: known = set(x for p in ctx.pc for x in (p.a if p.op == "and" else (p,)))
            tv = syntactic(known, it.a[0])
            if tv is None: break
            goal = replace_ite(goal, it.a[0], tv)
            pc2 = specialise(ctx.pc, it.a[0], tv)
            if pc2 != ctx.pc: ctx = Ctx(pc2, ctx.facts); known = None
            if goal is TRUE or FALSE in pc2: return Result(True, "normaliser")
            if goal.op == "and": return self.prove(ctx, goal, depth + 1)
            if known is None: known = set(x for p in ctx.pc for x in (p.a if p.op == "and" else (p,)))
        if it is not None and depth < 24:
            c = it.a[0]
            for cond, val in ((c, False), (not_(c), True)):
                if not feasible(Ctx(ctx.pc), cond, timeout=0.5):
                    cc = c if val else not_(c)
                    pc2 = specialise(ctx.pc, c, val)
                    return self.prove(Ctx(pc2 + [cc] if cc.op == "eq0" or (len(pc2) != len(ctx.pc) or any(p is not q for p, q in zip(pc2, ctx.pc))) else pc2, ctx.facts), replace_ite(goal, c, val), depth + 1)
            for val in (True, False):
                cc = c if val else not_(c)
                pc2 = specialise(ctx.pc, c, val)
                if FALSE in pc2: continue
                c2 = Ctx(pc2 + [cc], ctx.facts)
                if not feasible(c2, timeout=2.0): continue
                r = self.prove(c2, replace_ite(goal, c, val), depth + 1)
                if not r.ok: return r
            return Result(True, "split+z3")
        fa = nested_fabs(goal)
        if fa is not None and depth < 24:
            t = fa.a[1]
            sg = self.sign_of(ctx, t)
            if sg: return self.prove(ctx, subst(goal, {fa: scale(t, sg)}), depth + 1)
            for c, v in ((le(ZERO, t), t), (lt(t, ZERO), neg(t))):
                c2 = Ctx(ctx.pc + [c], ctx.facts)
                if not feasible(c2, timeout=2.0): continue
                r = self.prove(c2, subst(goal, {fa: v}), depth + 1)
                if not r.ok: return r
            return Result(True, "split+z3")
        if goal.op == "eq0" and depth < 22:
            g = self.unfold(ctx, goal)
            if g is not goal: return self.prove(ctx, g, 22) if first_ite(g) is None else self.prove(ctx, g, depth + 1)
        if goal.op in ("lt0", "le0") and depth < 22:
            g = self.clear_sign(ctx, goal)
            if g is not goal:
                if g is TRUE: return Result(True, "normaliser+z3")
                extra = [h for h in (self.clear_sign(ctx, p) for p in ctx.pc if p.op in ("lt0", "le0") and top_denoms(p.a[0])) if h not in ctx.pc and h is not TRUE]
                r = Prover(min(self.timeout, 3.0), self.sums).smt(Ctx(ctx.pc + extra, ctx.facts), g)
                if r.ok: return r
        if self.splits < 3 and any(nonlinear(q) for q in ctx.pc + [goal]) and any(q.op == "or" and any(d.op == "eq0" and d.a[0].s == "I" for d in q.a) for q in ctx.pc):
            if self.split_or(ctx, goal, depth, True): return Result(True, "split+z3")
        r = self.smt(ctx, goal)
        if r.ok or self.timeout < 5: return r
        # last resort: case split on a disjunction among the assumptions
        return Result(True, "split+z3") if self.splits < 3 and self.split_or(ctx, goal, depth, False) else r
    def split_or(self, ctx, goal, depth, quick):
        gv = fv(goal)
        ors = sorted((q for q in ctx.pc if q.op == "or" and len(q.a) <= 5 and fv(q) & gv and (not quick or any(d.op == "eq0" and d.a[0].s == "I" for d in q.a))), key=lambda q: (len(q.a), len(key(q)), q.id))
        if not ors: return False
        q = ors[0]; rest = [x for x in ctx.pc if x is not q]
        if quick and Prover(1.0, False).smt(ctx, goal).ok: return True
        pr = Prover(1.0, False) if quick else self
        n0 = pr.splits; pr.splits = self.splits + 1
        try:
            for d in q.a:
                c2 = Ctx(rest + [d], ctx.facts)
                if not feasible(c2, timeout=1.0): continue
                if not pr.prove(c2, goal, min(depth, 16)).ok: return False
        finally: pr.splits = n0
        return True
    def unfold(self, ctx, goal):
        """rewrite the goal with the recurrences of loops: every read of a loop-carried sequence is expressed through the earliest one"""
        recs = {}; defs = {}
        for f in ctx.facts:
            if f.why == "stored values" and f.body.op == "eq0":
                for m, c in pd(f.body.a[0]).items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sel" and m[0][0].a[0].startswith("V") and m[0][0].a[1] is f.v and abs(c) == 1:
                        defs.setdefault(m[0][0].a[0], []).append((f, scale(mkpoly({q: d for q, d in pd(f.body.a[0]).items() if q != m}, m[0][0].s), -1 / c)))
            if f.why != "recurrence" or f.body.op != "eq0": continue
            for m, c in pd(f.body.a[0]).items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sel" and m[0][0].a[1] is add(f.v, I(1)) and abs(c) == 1:
                    x = m[0][0]
                    rest = mkpoly({q: d for q, d in pd(f.body.a[0]).items() if q != m}, x.s)
                    if x not in set(subterms(rest)): recs.setdefault(x.a[0], []).append((f, scale(rest, -1 / c)))
        if defs:
            for x in [x for x in clos(goal) if x.op == "sel" and x.a[0] in defs]:
                e = x.a[1]
                for f, rhs in defs[x.a[0]]:
                    rng = and_(le(f.lo, e), lt(e, f.hi))
                    if rng is TRUE or not feasible(Ctx([q for q in ctx.pc if not nonlinear(q)]), not_(rng), 0.5):
                        goal = subst(goal, {x: subst(rhs, {f.v: e})}); break
            if goal.op != "eq0": return goal
        if not recs: return goal
        init = {}
        for p in ctx.pc:
            if p.op == "eq0":
                for m, c in pd(p.a[0]).items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sel" and m[0][0].a[0] in recs and m[0][0].a[1].op == "num" and abs(c) == 1:
                        init[m[0][0]] = scale(mkpoly({q: d for q, d in pd(p.a[0]).items() if q != m}, m[0][0].s), -1 / c)
        dead = set()
        for _ in range(40):
            reads = [x for x in clos(goal) if x.op == "sel" and x.a[0] in recs]
            sub_ = {x: init[x] for x in reads if x in init}
            if sub_:
                goal = subst(goal, sub_)
                if goal.op != "eq0": return goal
                continue
            groups = {}
            for x in reads:
                d = dict(pd(x.a[1])); c = d.pop((), F(0))
                groups.setdefault(tuple(sorted(((m, q) for m, q in d.items()), key=repr)), []).append((c, x))
            pick = None
            for b, l in groups.items():
                lo = min(c for c, _ in l) if b else F(0)
                for c, x in l:
                    if c > lo and x not in dead and (pick is None or c > pick[0]): pick = (c, x)
            if pick is None: break
            x = pick[1]; e = sub(x.a[1], I(1)); hit = False
            for f, rhs in recs[x.a[0]]:
                rng = and_(le(f.lo, e), lt(e, f.hi))
                if rng is TRUE or not feasible(Ctx([q for q in ctx.pc if not nonlinear(q)]), not_(rng), 0.5):
                    goal = subst(goal, {x: subst(rhs, {f.v: e})}); hit = True; break
            if not hit: dead.add(x)
            if goal.op != "eq0": return goal
        return goal
    def sign_of(self, ctx, t):
        """sign of a product when the sign of every factor is settled"""
        d = pd(t)
        if len(d) != 1: return 0
        (m, c), = d.items(); sg = 1 if c > 0 else -1
        if len(m) < 2: return 0
        for a, e in m:
            if e % 2 == 0: continue
            b = toreal(a.a[0] if a.op == "paren" else a); q = Prover(1.0, a.op in ("psum", "paren"))
            if q.prove(ctx, lt(ZERO, b), 23).ok: continue
            if q.prove(ctx, lt(b, ZERO), 23).ok: sg = -sg; continue
            return 0
        return sg
    def clear_sign(self, ctx, atom):
        """multiply an inequality by the denominators whose sign the assumptions settle"""
        p = atom.a[0]
        for _ in range(6):
            done = True
            for a, e in sorted(top_denoms(p).items(), key=lambda x: key(x[0])):
                base = toreal(a.a[0] if a.op == "paren" else a)
                q = Prover(1.5, self.sums)
                if q.prove(ctx, lt(ZERO, base), 23).ok: sg = 1
                elif q.prove(ctx, lt(base, ZERO), 23).ok: sg = (-1) ** e
                else: continue
                p = scale(times_denom(p, a, e), sg); done = False
                break
            if done: break
        return mk_cmp(atom.op, p)
    def sum_congruence(self, ctx, goal):
        for _ in range(6):
            sums = [a for m in pd(goal.a[0]) for a, e in m if a.op == "psum"] if goal.op == "eq0" else []
            for x in subterms(goal):
                if x.op == "psum" and not any(v.op == "bv" for v in fv(x)) and x not in sums: sums.append(x)
            sums = [s for s in dict.fromkeys(sums) if not any(v.op == "bv" for v in fv(s))]
            hit = False
            for i in range(len(sums)):
                for j in range(i + 1, len(sums)):
                    a, b = sums[i], sums[j]
                    v = fresh("c", "I")
                    if a.a[1] is not b.a[1]:
                        for p, q in ((a, b), (b, a)):
                            # the same terms further along:  sum_{v<m} p = sum_{v<m+t} q - sum_{v<t} q
                            if not any(y.op == "ite" for y in subterms(p.a[0])) or not reads(p.a[0]) & reads(q.a[0]): continue
                            t = sub(q.a[1], p.a[1])
                            e = eq(subst(p.a[0], {bv(p.a[2]): v}), subst(q.a[0], {bv(q.a[2]): add(v, t)}))
                            if Prover(3.0, False).prove(Ctx(ctx.pc + [le(I(0), v), lt(v, p.a[1])], ctx.facts), e, 20).ok:
                                w = fresh("s", "I")
                                goal = subst(goal, {p: sub(q, psum(subst(q.a[0], {bv(q.a[2]): w}), w, t))}); hit = True; break
                        if hit: break
                        continue
                    e = eq(subst(a.a[0], {bv(a.a[2]): v}), subst(b.a[0], {bv(b.a[2]): v}))
                    r = Prover(3.0, False).prove(Ctx(ctx.pc + [le(I(0), v), lt(v, a.a[1])], ctx.facts), e, 20)
                    if r.ok:
                        goal = subst(goal, {b: a}); hit = True; break
                if hit: break
            if not hit or goal is TRUE: break
        return goal
    def sum_facts(self, ctx, ts):
        """sign lemmas for prefix sums occurring in the terms"""
        out = []; nonneg = []
        seen = set()
        for t in ts:
            for x in subterms(t, seen):
                if x.op == "psum" and not any(v.op == "bv" for v in fv(x)):
                    v = fresh("c", "I"); m = x.a[1]
                    b = subst(x.a[0], {bv(x.a[2]): v})
                    g = [le(I(0), v), lt(v, m)]
                    c2 = Ctx(ctx.pc + g, ctx.facts)
                    if any(y.op == "ite" for y in subterms(b)) and Prover(1.5, False).prove(c2, le(b, ONE), 20).ok: out.append(implies(le(I(0), m), le(x, toreal(m))))
                    for rel, pos in (((lambda e: lt(ZERO, e)), "pos"), ((lambda e: le(ZERO, e)), "nonneg"), ((lambda e: le(e, ZERO)), "nonpos")):
                        gl = rel(b)
                        if gl is TRUE or Prover(1.5, False).prove(c2, gl, 20).ok:
                            if pos == "pos": out.append(implies(le(I(1), m), lt(ZERO, x))); out.append(implies(le(I(0), m), le(ZERO, x)))
                            elif pos == "nonneg": out.append(implies(le(I(0), m), le(ZERO, x)))
                            else: out.append(implies(le(I(0), m), le(x, ZERO)))
                            if pos != "nonpos":
                                nonneg.append(x)
                                for r in self.term_indices(b, v, ts): out.append(implies(and_(le(I(0), r), lt(r, m)), le(subst(b, {v: r}), x)))
                            break
        # multiple angles:  cos 2t, cos 3t, cos 4t, sin 2t in terms of t when both occur
        cs = [x for t in ts for x in subterms(t) if x.op == "app" and x.a[0] in ("cos", "sin") and not any(v.op == "bv" for v in fv(x))]
        cs = list(dict.fromkeys(cs))[:10]
        for x in cs:
            if x.a[0] != "cos": continue
            c1 = x
            for y in cs:
                for k in (2, 3, 4):
                    if y is not x and y.a[1] is scale(x.a[1], k):
                        if y.a[0] == "cos": out.append(eq(y, {2: sub(scale(ipow(c1, 2), 2), ONE), 3: sub(scale(ipow(c1, 3), 4), scale(c1, 3)), 4: add(scale(ipow(c1, 4), 8), scale(ipow(c1, 2), -8), ONE)}[k]))
                        elif k == 2: out.append(eq(y, scale(mul(fn("sin", x.a[1]), c1), 2)))
        # Cauchy-Schwarz:  (sum h)^2 <= sum f * sum g   whenever f, g >= 0 and f*g = h^2
        allx = []
        seen = set()
        for t in ts:
            for x in subterms(t, seen):
                if x.op == "psum" and not any(v.op == "bv" for v in fv(x)): allx.append(x)
        # empty sums, and sums of the same terms up to equal or adjacent bounds
        for x in allx[:12]:
            if 1: out.append(implies(eq(x.a[1], I(0)), eq(x, num(0, x.s))))
        for i, x in enumerate(allx[:12]):
            for y in allx[i + 1:12]:
                if x.a[0] is y.a[0] and x.a[2] == y.a[2]:
                    out.append(implies(eq(x.a[1], y.a[1]), eq(x, y)))
                    for a, b in ((x, y), (y, x)): out.append(implies(eq(a.a[1], add(b.a[1], I(1))), eq(a, add(b, subst(b.a[0], {bv(b.a[2]): b.a[1]})))))
        # sums of non-negative terms grow with the number of terms
        for y in nonneg:
            for x in allx[:12]:
                if x is y or x.a[0] is not y.a[0] or x.a[2] != y.a[2]: continue
                out.append(implies(and_(le(I(0), x.a[1]), le(x.a[1], y.a[1])), le(x, y)))
                out.append(implies(and_(le(I(0), x.a[1]), lt(x.a[1], y.a[1])), le(add(x, subst(x.a[0], {bv(x.a[2]): x.a[1]})), y)))
        for h in allx:
            for f in nonneg:
                if f.a[1] is not h.a[1] or f is h: continue
                v = fresh("c", "I"); B = lambda x: subst(x.a[0], {bv(x.a[2]): v})
                hh = mul(B(h), B(h))
                if hh is B(f): out.append(implies(le(I(0), h.a[1]), le(mul(h, h), mul(f, toreal(h.a[1])))))
                for g in nonneg:
                    if g.id < f.id or g.a[1] is not h.a[1]: continue
                    if mul(B(f), B(g)) is hh: out.append(implies(le(I(0), h.a[1]), le(mul(h, h), mul(f, g))))
        return out
    def term_indices(self, b, v, ts):
        """indices at which the summand is worth instantiating: reads of the same array elsewhere"""
        pats = [(x.a[0], linear_in(x.a[1], v)) for x in subterms(b) if x.op == "sel" and v in fv(x)]
        out = []
        seen = set()
        for t in ts:
            for x in subterms(t, seen):
                if x.op == "sel" and not any(w.op == "bv" for w in fv(x)):
                    for nm, li in pats:
                        if li and nm == x.a[0] and abs(li[0]) == 1:
                            q = scale(sub(x.a[1], li[1]), li[0])
                            if q not in out: out.append(q)
        return out[:6]
    def smt(self, ctx, goal):
        ng = not_(goal)
        base = [p for p in ctx.pc if p is not TRUE] + [ng]
        if and_(*base) is FALSE: return Result(True, "normaliser")
        if any(bitty(t) for t in base):
            if bvcheck(base, self.timeout) == z3.unsat: return Result(True, "z3 (bit vectors)")
        insts = instantiate(ctx.facts, base) if ctx.facts else []
        if len(insts) > 24:
            # cheap first attempt: only what the goal itself reads, without the loop's own history
            few = instantiate([f for f in ctx.facts if f.why not in ("loop guard", "recurrence")], [ng], rounds=1)
            r, s, z = z3check(base + few, min(1.0, self.timeout))
            if r == z3.unsat: return Result(True, "z3")
        asserts = base + insts
        if len(asserts) > 3 and any(nonlinear(t) for t in asserts) and linear_unsat(asserts): return Result(True, "z3")
        r, s, z = z3check(asserts, self.timeout)
        if r == z3.unsat: return Result(True, "z3")
        model = None
        lem = self.sum_facts(ctx, asserts) if self.sums else []
        if lem:
            asserts2 = asserts + lem
            r, s, z = z3check(asserts2, self.timeout)
            if r == z3.unsat: return Result(True, "z3")
            asserts = asserts2
        if r == z3.unknown:
            o = cvc5check(asserts, self.timeout) if self.timeout > 3.0 else "not tried"
            if o == "unsat": return Result(True, "cvc5")
            det = "z3: unknown (%s), cvc5: %s" % (s.reason_unknown(), o)
        else:
            det = "z3: sat (counter-model of the obligation)"
            try:
                md = s.model(); model = {}
                for d in md.decls():
                    if d.arity() == 0: model[d.name()] = str(md[d])
            except z3.Z3Exception: model = None
        return Result(False, "z3", det, model)
