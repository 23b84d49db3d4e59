"""Replay of failed obligations on the real code: the same translation unit compiled natively, called in a child
process with guard pages, on inputs derived from the solver's model and from a seeded search; the contract's
clauses are evaluated numerically."""
import ctypes, mmap, os, sys, json, math, random, time, struct, signal, subprocess, tempfile
from fractions import Fraction as F
from .term import *
from . import term as TM
from .contract import *

PAGE = 4096
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]

class Buf:
    """array placed so that the byte after (or before) it is unmapped"""
    def __init__(self, nbytes, at_end=True, readonly=False):
        self.n = nbytes
        np = (nbytes + PAGE - 1) // PAGE + 2
        base = libc.mmap(None, np * PAGE, 3, 0x22, -1, 0)
        self.base, self.np = base, np
        libc.mprotect(base, PAGE, 0); libc.mprotect(base + (np - 1) * PAGE, PAGE, 0)
        self.addr = base + (np - 1) * PAGE - nbytes if at_end else base + PAGE
        self.ro = readonly
    def write(self, b):
        if b: ctypes.memmove(self.addr, b, len(b))
    def lock(self):
        if self.ro: libc.mprotect(self.base + PAGE, (self.np - 2) * PAGE, 1)
    def read(self): return ctypes.string_at(self.addr, self.n)
    def free(self): libc.munmap(ctypes.c_void_p(self.base), ctypes.c_size_t(self.np * PAGE))

libm = ctypes.CDLL("libm.so.6")
FMT = {"R": "d", "C": "d", "I": "i", "B": "b", "L": "q", "F": "f"}

def truth(t, env, pol=True, memo=None):
    """three-valued approximate truth of a clause: True / False / None (undecided within rounding)"""
    if memo is None: memo = {}
    o = t.op
    if o == "true": return True
    if o == "false": return False
    if o == "and":
        r = True
        for x in t.a:
            y = truth(x, env, pol, memo)
            if y is False: return False
            if y is None: r = None
        return r
    if o == "or":
        r = False
        for x in t.a:
            y = truth(x, env, pol, memo)
            if y is True: return True
            if y is None: r = None
        return r
    if o == "not":
        y = truth(t.a[0], env, pol, memo); return None if y is None else not y
    if o == "iff":
        a, b = truth(t.a[0], env, pol, memo), truth(t.a[1], env, pol, memo)
        return None if a is None or b is None else a == b
    if o in ("le0", "lt0", "eq0"):
        p = t.a[0]
        v, scale_ = magnitude(p, env, memo)
        if p.s == "I": return {"le0": v <= 0, "lt0": v < 0, "eq0": v == 0}[o]
        if v != v or scale_ != scale_: 
            return False          # not a number: no relation holds
        tol = 1e-8 * scale_ + max(1e-11, env.get("__abstol", 0))
        if exact(p): tol = 0.0
        if math.isinf(v): return {"le0": v < 0, "lt0": v < 0, "eq0": False}[o]
        if abs(v) <= tol:
            if tol == 0.0: return o != "lt0"
            if not any(x.op in ("var", "sel") and str(x.a[0]).endswith(("'", "ret!0")) for x in subterms(p)):
                try: v = exval(p, env, {}); return {"le0": v <= 0, "lt0": v < 0, "eq0": v == 0}[o]
                except (EvalError, KeyError): pass
            return True if v == 0 and o != "lt0" else None
        return {"le0": v < 0, "lt0": v < 0, "eq0": False}[o]
    return bool(ev(t, env, memo))

def exval(t, env, bound):
    """exact value when every intermediate result is a double without rounding; EvalError otherwise"""
    def chk(v):
        v = F(v)
        if v.denominator & (v.denominator - 1) or v.numerator.bit_length() > 53: raise EvalError("rounded")
        return v
    def E(t):
        o = t.op
        if o == "num": return chk(t.a[0])
        if o == "var": return chk(env[t.a[0]])
        if o == "bv": return F(bound[t.a[0]])
        if o == "poly":
            r = F(0)
            for m, c in t.a[0]:
                x = chk(c)
                for a, e in m:
                    v = E(a)
                    if e < 0:
                        if v == 0: raise EvalError("div0")
                        v = chk(1 / v)
                    for _ in range(abs(e)): x = chk(x * v)
                r = chk(r + x)
            return r
        if o == "sel":
            i = int(E(t.a[1])); A = env[t.a[0]]
            if i < 0 or i >= len(A): raise EvalError("index")
            return chk(A[i])
        if o == "ite": return E(t.a[1]) if B(t.a[0]) else E(t.a[2])
        if o == "floor": return F(math.floor(E(t.a[0])))
        if o == "idiv": return F(math.floor(E(t.a[0]) / t.a[1]))
        if o == "paren": return E(t.a[0])
        if o == "app" and t.a[0] == "fabs": return abs(E(t.a[1]))
        if o == "psum" and E(t.a[1]) >= 0:
            r = F(0)
            for i in range(int(E(t.a[1]))): r = chk(r + exval(t.a[0], env, {**bound, t.a[2]: i}))
            return r
        raise EvalError("not exact")
    def B(t):
        o = t.op
        if o in ("le0", "lt0", "eq0"):
            v = E(t.a[0]); return v <= 0 if o == "le0" else v < 0 if o == "lt0" else v == 0
        if o == "not": return not B(t.a[0])
        if o == "and": return all(B(x) for x in t.a)
        if o == "or": return any(B(x) for x in t.a)
        if o == "true": return True
        if o == "false": return False
        raise EvalError("not exact")
    return E(t)
def tie(t, env, bound, x=None):
    if x is not None and not bound:
        v, sc = magnitude(t, env, None)
        if abs(v) > 1e-8 * sc + 1e-11: return v
    return exval(t, env, bound)

def exact(p):
    """comparison of input samples as they are (no rounding is involved, so ties are decided exactly)"""
    def plain(a):
        if a.op == "app" and a.a[0] == "fabs": return exact(a.a[1])
        return a.op == "var" and not a.a[0].startswith("ret!") or a.op == "sel" and not a.a[0].endswith("'")
    d = pd(p)
    return len(d) <= 2 and all((m == () and c == 0) or (abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and plain(m[0][0])) for m, c in d.items())

def magnitude(p, env, memo):
    try: return magnitude1(p, env, memo)
    except EvalError as ex:
        if str(ex) != "div0" or TM.INV0[0] is not None: raise
    try:          # a term left out of a sum divides by zero: the value must not depend on it
        TM.INV0[0] = 0.0; a, s1 = magnitude1(p, env, {})
        TM.INV0[0] = 1.75; b, s2 = magnitude1(p, env, {})
    finally: TM.INV0[0] = None
    if not abs(a - b) <= 1e-9 * max(s1, s2) + 1e-11: raise EvalError("div0")
    return a, max(s1, s2)

def magnitude1(p, env, memo):
    d = pd(p)
    if memo is None: memo = {}
    xs = TM.monovals(d.items(), lambda a: TM._ev(a, env, memo, {}), env, memo, {})
    if p.s == "I": return ev(p, env, memo), 0
    if any(math.isinf(x) or x != x for x in xs):
        return sum(xs), 1.0
    return math.fsum(xs), max([abs(x) for x in xs] + [0.0]) * (1 + sum(1 for _ in xs))

def nice(rng, style):
    if style == 0: return float(rng.randint(-3, 3))
    if style == 1: return rng.choice([-1.5, -1, -0.75, -0.5, -0.25, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.5])
    if style == 2: return rng.uniform(0.1, 4)
    if style == 3: return rng.uniform(-2, 2)
    if style == 4: return rng.uniform(-1e3, 1e3)
    if style == 5: return rng.uniform(0, 1)
    if style == 6: return rng.choice([0.0, 1.0])
    return rng.uniform(-1, 1)

def gen_env(c, rng, trial, seeds):
    env = {}
    consts = [x for x in seeds.get("consts", []) if not isinstance(x, tuple)]
    iconsts = [x[1] for x in seeds.get("consts", []) if isinstance(x, tuple)]
    maxn = 3 + min(trial // 40, 14)
    if trial % 97 == 96: maxn = 40
    if trial % 61 == 60: maxn = 140
    for nm, r in c.vars.items():
        if nm in c.pools and rng.random() < 0.9: env[nm] = rng.choice(c.pools[nm]); continue
        if r == "B": env[nm] = rng.random() < 0.5
        elif r is None:
            x = rng.random()
            if x < 0.25 and consts: env[nm] = float(rng.choice(consts)) * rng.choice([1, 1, 1, 0.999, 1.001])
            elif x < 0.4: env[nm] = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 1e-3, 100.0, 1000.0, 22050.0, 44100.0])
            else: env[nm] = nice(rng, rng.randrange(6))
        else:
            lo, hi = r
            big = [int(q) + 2 for q in consts if 64 <= q <= 5000 and q == int(q)]
            if big and rng.random() < 0.02: env[nm] = min(hi, max(lo, rng.choice(big) + rng.choice([0, 1, 40]))); continue
            if iconsts and rng.random() < 0.06: env[nm] = min(hi, max(lo, rng.choice(iconsts) + rng.choice([-1, 0, 1, 2]))); continue
            env[nm] = rng.randint(lo, min(hi, lo + maxn)) if rng.random() < 0.93 else min(hi, max(lo, rng.choice([int(q) for q in consts if abs(q) < 64] + [int(q) + 1 for q in consts if 64 <= q <= 5000 and rng.random() < 0.3] + [lo, lo + 1, lo + 33])))
    for nm, f in c.derived: env[nm] = f(env)
    for nm, a in c.arrs.items():
        n = ev(a.n, env)
        if n < 0 or n > 100000: return None
        st = rng.randrange(7)
        for f in ((0, 8) if a.ety == "C" else (0,)):
            if a.ety in "RCF": v = [nice(rng, st) for _ in range(n)]
            else: v = [rng.choice([0, 1, 2, 3, 32, 65, 97, 9, 10, 120]) if a.ety == "B" else rng.randint(-3, 9) for _ in range(n)]
            if a.ety in "RCF" and rng.random() < 0.15: v.sort()
            if a.ety in "RCF" and rng.random() < 0.1: v.sort(reverse=True)
            if nm in c.pools and rng.random() < 0.8: v = [rng.choice(c.pools[nm]) for _ in range(n)]
            env[a.cell(f)] = v
    # plant scalar parameters inside arrays now and then
    scal = [env[nm] for nm, r in c.vars.items() if r is None]
    if scal and rng.random() < 0.5:
        for nm, a in c.arrs.items():
            if a.ety == "R":
                for i in range(len(env[a.cell(0)])):
                    if rng.random() < 0.2: env[a.cell(0)][i] = rng.choice(scal)
    # and values next to the constants of the code
    if consts and rng.random() < 0.3:
        for nm, a in c.arrs.items():
            if a.ety in "RC" and nm not in c.pools:
                for f in ((0, 8) if a.ety == "C" else (0,)):
                    for i in range(len(env[a.cell(f)])):
                        if rng.random() < 0.15: env[a.cell(f)][i] = float(rng.choice(consts)) * rng.choice([1, 0.5, 0.999, 1.001, -0.5, 2])
    for g in c.gens: g(rng, env)
    if any(len(env[a.cell(0)]) != ev(a.n, env) for a in c.arrs.values()): return None
    return env

def from_model(c, model):
    """environment suggested by the solver's counterexample"""
    env = {}
    try:
        for nm, r in c.vars.items():
            v = model.get(nm)
            if r == "B": env[nm] = v == "True"; continue
            x = F(str(v).rstrip("?").replace(" ", "")) if v is not None and "(" not in str(v) else F(0)
            env[nm] = float(x) if r is None else max(r[0], min(r[1], int(x), r[0] + 200))
        for nm, f in c.derived: env[nm] = f(env)
        for nm, a in c.arrs.items():
            n = ev(a.n, env)
            if n < 0 or n > 5000: return None
            for f in ((0, 8) if a.ety == "C" else (0,)): env[a.cell(f)] = [((i * 7) % 5 - 1.5) if a.ety in "RCF" else 1 for i in range(n)]
        return env
    except Exception: return None

def admissible(c, env):
    try:
        memo = {}
        for t in c.req:
            if truth(t, env, True, memo) is not True: return False
            if t.op in ("le0", "lt0") and t.a[0].s == "R" and not exact(t.a[0]):
                v, sc = magnitude(t.a[0], env, memo)
                if sc > 0 and abs(v) <= 1e-8 * sc: return False          # on the boundary up to rounding
        for t in getattr(c, "sanes", ()):
            if truth(t, env) is not True: return False
        for v, lo, hi, b in c.reqall:
            for i in range(int(ev(lo, env)), int(ev(hi, env))):
                e2 = dict(env); e2[v.a[0]] = i
                if truth(b, e2) is not True: return False
        return True
    except (EvalError, ValueError, OverflowError, ZeroDivisionError, KeyError): return False

CT = {"double": ctypes.c_double, "float": ctypes.c_float, "ptr": ctypes.c_void_p}
def cty(ty):
    if ty.k in CT: return CT[ty.k]
    if ty.k == "int": return {1: ctypes.c_bool, 8: ctypes.c_int8, 16: ctypes.c_int16, 32: ctypes.c_int32, 64: ctypes.c_int64}[ty.n]
    if ty.k == "void": return None
    if ty.k == "struct": return type("S", (ctypes.Structure,), {"_fields_": [("f%d" % i, cty(t)) for i, t in enumerate(ty.sub)]})
    raise Exception("native type %r" % ty)

def call_native(lib, c, f, mod, env):
    """run the real function; returns (fields, outputs)"""
    fn_ = getattr(lib, c.fn)
    rt = mod.resolve(f.ret)
    fn_.restype = cty(rt)
    bufs, cargs = {}, []
    for (ty, nm, at), a in zip(f.params, c.nargs):
        if isinstance(a, Arr):
            if a.name not in bufs:
                n = len(env[a.cell(0)])
                if a.ety == "C":
                    data = b"".join(struct.pack("2d", x, y) for x, y in zip(env[a.cell(0)], env[a.cell(8)]))
                else: data = struct.pack("%d%s" % (n, FMT[a.ety]), *env[a.cell(0)])
                b = Buf(len(data), at_end=env.get("__at_end", True), readonly=a.kind == "in"); b.write(data); bufs[a.name] = b
            cargs.append(ctypes.c_void_p(bufs[a.name].addr))
        elif a is None: cargs.append(ctypes.c_void_p(0))
        else:
            v = ev(a, env)
            k = cty(mod.resolve(ty))
            cargs.append(k(float(v)) if k in (ctypes.c_double, ctypes.c_float) else k(int(v)))
            if k is ctypes.c_float and getattr(a, "op", "") == "var": env = {**env, a.a[0]: cargs[-1].value}
    for b in bufs.values(): b.lock()
    libm.feclearexcept(0x3f)
    r = fn_(*cargs)
    env = dict(env); env["__fe"] = libm.fetestexcept(0x18)          # overflow | underflow (x86-64)
    out = dict(env)
    for nm, a in c.arrs.items():
        if nm not in bufs: continue
        raw = bufs[nm].read(); n = len(env[a.cell(0)])
        if a.ety == "C":
            v = struct.unpack("%dd" % (2 * n), raw)
            out[a.cell(0) + "'"] = list(v[0::2]); out[a.cell(8) + "'"] = list(v[1::2])
        else: out[a.cell(0) + "'"] = list(struct.unpack("%d%s" % (n, FMT[a.ety]), raw))
    fields = {}
    if rt.k == "struct":
        for i, t in enumerate(rt.sub): fields[i] = getattr(r, "f%d" % i)
    elif rt.k == "ptr":
        v = r or 0
        idx = -10**9
        for nm, a in c.arrs.items():
            if nm in bufs and bufs[nm].addr <= v <= bufs[nm].addr + bufs[nm].n: idx = (v - bufs[nm].addr) // a.S
        fields[0] = idx
    elif rt.k != "void": fields[0] = r
    for k, v in fields.items(): out["ret!%d" % k] = v
    for b in bufs.values(): b.free()
    return out

def sort_of(ty): return "R" if ty.k in ("double", "float") else ("B" if ty.k == "int" and ty.n == 1 else "I")

def clauses(c, f, mod):
    rt = mod.resolve(f.ret)
    fields = [sort_of(t) for t in rt.sub] if rt.k == "struct" else [sort_of(rt)]
    p = NumPost(fields)
    out = []
    for kind, label, lo, hi, fu in c.ens:
        if kind == "one": out.append((kind, label, lo, hi, None, fu(p)))
        else:
            v = fresh("i", "I"); out.append((kind, label, lo, hi, v, coerce(fu(p, v))))
            if kind == "ex" and c.unless.get(label): UNLESS[label] = c.unless[label](p)
    return out
UNLESS = {}

def ends_first(a, b):
    """all positions of [a, b), the outermost first"""
    while a < b:
        yield a; a += 1
        if a < b: b -= 1; yield b

def violated(cl, env, exactly=False):
    """label of a clause that is clearly false, or None; exactly: only if its falsity is established without any rounding"""
    def sure(t, e):
        if not exactly: return True
        try: return exbool(t, e) is False
        except (EvalError, KeyError, ValueError, OverflowError, ZeroDivisionError): return False
    for kind, label, lo, hi, v, t in cl:
        try:
            if kind == "one":
                if truth(t, env) is False and sure(t, env): return label
            else:
                anyt = kind == "ex" and label in UNLESS and truth(UNLESS[label], env) is not False
                a, b = int(ev(lo, env)), int(ev(hi, env)); t0 = time.time()
                for i in range(a, b) if kind == "ex" else ends_first(a, b):
                    if kind == "all" and time.time() - t0 > 0.3: break
                    e2 = dict(env); e2[v.a[0]] = i
                    try: r = truth(t, e2)
                    except (EvalError, KeyError, ValueError, OverflowError, ZeroDivisionError): r = None
                    if kind == "all" and r is False and sure(t, e2): return "%s at position %d" % (label, i)
                    if kind == "ex" and r is not False: anyt = True; break
                if kind == "ex" and not anyt and not exactly: return label
        except (EvalError, ValueError, OverflowError, ZeroDivisionError): continue
        except KeyError: continue
    return None

def exbool(t, env):
    o = t.op
    if o == "iff": return exbool(t.a[0], env) == exbool(t.a[1], env)
    if o == "not": return not exbool(t.a[0], env)
    if o == "and": return all(exbool(x, env) for x in t.a)
    if o == "or": return any(exbool(x, env) for x in t.a)
    if o == "true": return True
    if o == "false": return False
    if o in ("le0", "lt0", "eq0"):
        v = exval(t.a[0], env, {}); return v <= 0 if o == "le0" else v < 0 if o == "lt0" else v == 0
    raise EvalError("not exact")

def nudge(c, env, rng):
    """the same input with every real moved by a part in a million or less; None when the contract does not admit it"""
    e = dict(env)
    mv = lambda x: x if x == 0 or x != x or math.isinf(x) else x * (1 + rng.uniform(-1, 1) * 1e-6)
    for nm, r in c.vars.items():
        if r is None: e[nm] = mv(e[nm])
    for nm, f in c.derived: e[nm] = f(e)
    for nm, a in c.arrs.items():
        if a.ety in "RCF":
            for f in ((0, 8) if a.ety == "C" else (0,)):
                seen = {}
                e[a.cell(f)] = [seen.setdefault(x, mv(x)) for x in e[a.cell(f)]] if rng.random() < 0.5 else [mv(x) for x in e[a.cell(f)]]
    return e if admissible(c, e) else None

def confirmed(lib, c, cl, f, mod, env, out):
    """a clause that fails for this input and for nearby ones, or that fails with no rounding involved: not an artefact of floating point"""
    if not any(r is None for r in c.vars.values()) and not any(a.ety in "RCF" for a in c.arrs.values()): return True
    if not getattr(c, "rounds", False) and violated(cl, out, True): return True
    rng = random.Random(7); tried = 0
    for _ in range(8):
        e = nudge(c, env, rng)
        if e is None: continue
        tried += 1
        o = call_native(lib, c, f, mod, e)
        if blown(o) or not violated(cl, o): return False
        if tried == 4: break
    return True

def jsonable(env):
    return {k: v for k, v in env.items() if not k.startswith("__")}

def search(cd, mod, libpath, models, seed, budget=25.0, consts=()):
    """returns (dict describing a failing input) or None"""
    TM.TIE[0] = tie
    c = C(mod, cd.fn); cd.build(c)
    f = mod.funcs.get(cd.fn)
    if f is None or c.may_throw: return None
    cl = clauses(c, f, mod)
    rng = random.Random(seed * 1000003 + 17)
    t_end = time.time() + budget
    trial = 0
    envs = []
    for m in models:
        if m:
            e = from_model(c, m)
            if e: envs.append(e)
    while time.time() < t_end and trial < 6000:
        batch = []
        while len(batch) < 60 and time.time() < t_end and trial < 6000:
            trial += 1
            e = envs.pop() if envs else None
            if e is None:
                try: e = gen_env(c, rng, trial, {"consts": list(consts)})
                except (EvalError, KeyError, ValueError, OverflowError, ZeroDivisionError): continue
            if e is None: continue
            e["__at_end"] = trial % 3 != 0; e["__abstol"] = max(getattr(c, "abstol", 0), 1e-13 * largest(c, e))
            if admissible(c, e): batch.append(e)
            elif trial % 500 == 0 and not batch: break
        if not batch: 
            if trial >= 6000: break
            continue
        r = run_batch(c, cl, f, mod, libpath, batch)
        if r: return r
    return None

def blown(out):
    """the computation overflowed or underflowed, or an unstable recurrence ran away: such runs say nothing about the real-number semantics"""
    return out.get("__fe") or any(isinstance(v, list) and any(isinstance(x, float) and 1e80 < abs(x) < math.inf for x in v) for k, v in out.items() if k.endswith("'"))

class Slow(BaseException): pass          # the specification takes too long to evaluate on this input
def slow(*a): raise Slow()

def largest(c, env):
    """magnitude of the largest real the run is given"""
    m = [abs(env[nm]) for nm, r in c.vars.items() if r is None]
    for a in c.arrs.values():
        if a.ety in "RCF": m += [abs(x) for f in ((0, 8) if a.ety == "C" else (0,)) for x in env[a.cell(f)]]
    return max([x for x in m if x < math.inf], default=0.0)

def run_batch(c, cl, f, mod, libpath, batch, tmo=20):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            lib = ctypes.CDLL(libpath)
            for i, e in enumerate(batch):
                os.write(wr, b"S%d\n" % i)
                signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(tmo)
                out = call_native(lib, c, f, mod, e)
                os.write(wr, b"E%d\n" % i)
                signal.signal(signal.SIGALRM, slow); signal.setitimer(signal.ITIMER_REAL, 2.0)
                try: lab = None if blown(out) else violated(cl, out)
                except Slow: continue
                finally: signal.setitimer(signal.ITIMER_REAL, 0)
                if not lab: continue
                signal.setitimer(signal.ITIMER_REAL, 10.0)
                try: sure = confirmed(lib, c, cl, f, mod, e, out)
                except Slow: continue
                finally: signal.setitimer(signal.ITIMER_REAL, 0)
                if sure:
                    os.write(wr, ("V" + json.dumps({"i": i, "clause": lab, "observed": {k: v for k, v in out.items() if k.startswith("ret!") or k.endswith("'")}}) + "\n").encode()); os._exit(0)
            os.write(wr, b"D\n")
            os._exit(0)
        except BaseException as ex:
            try: os.write(wr, ("X%r\n" % (ex,)).encode())
            except OSError: pass
            os._exit(0)
    os.close(wr)
    data = b""
    while True:
        b = os.read(rd, 65536)
        if not b: break
        data += b
    os.close(rd)
    _, status = os.waitpid(pid, 0)
    lines = data.decode(errors="replace").split("\n")
    last = 0; returned = False
    for l in lines:
        if l.startswith("S"): last = int(l[1:]); returned = False
        elif l.startswith("E"): returned = True
        elif l.startswith("V"):
            d = json.loads(l[1:])
            return {"input": jsonable(batch[d["i"]]), "clause": d["clause"], "observed": d["observed"]}
        elif l.startswith("D"): return None
        elif l.startswith("X"):
            if os.environ.get("VCG_DEBUG"): sys.stderr.write("%s: %s\n" % (c.fn if hasattr(c, "fn") else "", l))
            return None
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
    if returned: return None          # the real code had returned: evaluating the specification took too long
    if sig == signal.SIGALRM: what = "the call does not return within %d s" % tmo
    elif sig is not None: what = "the call is killed by signal %d (access outside the ranges it was given, or abort)" % sig
    else: return None
    return {"input": jsonable(batch[last]), "clause": what, "observed": {}}
