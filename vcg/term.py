"""Hash-consed terms with canonical arithmetic (polynomials over atoms, prefix sums, rational inverses).

Sorts: 'I' (mathematical integer), 'R' (real), 'B' (bool).  Int atoms may occur in Real polynomials.
All constructors keep terms canonical, so that many equalities are decided by identity; every rewrite
used here is a sound identity of the reals/integers (division: for non-zero denominators, which the
executor turns into definedness obligations)."""
import math, functools
memoised = functools.lru_cache(maxsize=None)
from fractions import Fraction as F

class T:
    __slots__ = ("op", "a", "s", "id", "_fv", "_key")
    def __repr__(self): return show(self)
    # convenience operators for contracts
    def __add__(x, y): return add(x, y)
    def __radd__(x, y): return add(y, x)
    def __sub__(x, y): return sub(x, y)
    def __rsub__(x, y): return sub(y, x)
    def __mul__(x, y): return mul(x, y)
    def __rmul__(x, y): return mul(y, x)
    def __truediv__(x, y): return div(x, y)
    def __rtruediv__(x, y): return div(y, x)
    def __neg__(x): return neg(x)
    def __pow__(x, n): return ipow(x, n)

_tab = {}
_cnt = [0]
def mk(op, a, s):
    k = (op, a, s)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op, t.a, t.s = op, a, s
        _cnt[0] += 1; t.id = _cnt[0]; t._fv = None; t._key = None
        _tab[k] = t
    return t

# ------------------------------------------------------------------ structural order (stable across runs)
def key(t):
    if t._key is None:
        def kk(x):
            if isinstance(x, T): return key(x)
            if isinstance(x, tuple): return "(" + ",".join(kk(y) for y in x) + ")"
            return str(x)
        t._key = t.op + "[" + ",".join(kk(x) for x in t.a) + "]"
        if len(t._key) > 200:
            import hashlib
            t._key = t._key[:120] + hashlib.md5(t._key.encode()).hexdigest()
    return t._key

def num(v, s="R"): return mk("num", (F(v),), s)
def I(v): return num(v, "I")
def R(v): return num(v, "R")
ZERO, ONE = R(0), R(1)
TRUE, FALSE = mk("true", (), "B"), mk("false", (), "B")
def var(name, s): return mk("var", (name,), s)
def bv(d): return mk("bv", (d,), "I")
_fresh = [0]
def fresh(prefix, s):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), s)
def app(f, *args, s="R"): return mk("app", (f,) + args, s)
PI = app("pi")

def coerce(x, s="R"):
    if isinstance(x, T): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, float): return const(x)
    return num(x, "I" if isinstance(x, int) else s)

# ------------------------------------------------------------------ polynomials
def pd(t):
    """polynomial dict {monomial: coef}, monomial = tuple of (atom, exp)"""
    if t.op == "num": return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly": return dict(t.a[0])
    return {((t, 1),): F(1)}

def mkpoly(d, s):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return num(0, s)
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return num(c, s)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].s == s: return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: mkey(mc[0])))
    return mk("poly", (items,), s)

_mk = {}
def mkey(m):
    k = _mk.get(m)
    if k is None:
        k = "*".join("%s^%d" % (key(a), e) for a, e in m)
        _mk[m] = k
    return k

def mmul(m1, m2):
    """product of monomials -> monomial (sorted by atom key), or None if it needs rewriting"""
    if not m1: return m2
    if not m2: return m1
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: key(ae[0])))

def srt(*ts):
    for t in ts:
        if t.s == "R": return "R"
    return "I"

def add(*ts):
    ts = [coerce(t) for t in ts]
    s = srt(*ts); d = {}
    for t in ts:
        for m, c in pd(t).items():
            d[m] = d.get(m, 0) + c
    return mkpoly(d, s)
def scale(t, c):
    c = F(c)
    s = t.s
    d = {m: k * c for m, k in pd(t).items()}
    if s == "I" and c.denominator != 1 and any(k.denominator != 1 for k in d.values()): s = "R"
    return mkpoly(d, s)
@memoised
def neg(t): return scale(coerce(t), -1)
@memoised
def sub(a, b): return add(coerce(a), neg(coerce(b)))

def needs_rw(m):
    par = None
    for a, e in m:
        if a.op == "paren" and e > 0: return True
        if a.op == "app":
            f = a.a[0]
            if (f == "sqrt" or f == "fabs") and e > 1: return True
            if f == "sqrt" and e < 0: return True
            if f == "exp" and (e != 1 or sum(1 for b, _ in m if b.op == "app" and b.a[0] == "exp") > 1): return True
            if f == "sin" and e > 1: return True
            if f == "pow" and sum(1 for b, _ in m if b.op == "app" and b.a[0] == "pow") > 1: return "pow"
        if a.op == "paren" and e < 0: par = a
    if par is not None:
        for a, e in m:
            if a.op == "paren" and e < 0:
                lm = lead(a)[0]
                if divides(lm, m): return True
    return False

def lead(par):
    """leading monomial of the (monic) polynomial inside a paren atom, and the rest"""
    r = _lead.get(par)
    if r is None:
        items = par.a[0].a[0]
        j = max(range(len(items)), key=lambda i: mord(items[i][0]))
        r = _lead[par] = (items[j][0], items[:j] + items[j + 1:])
    return r
_lead, _wt = {}, {}
def weight(a):
    """positive weight of an atom, so that every rewrite rule lowers (weight, lexicographic) order"""
    w = _wt.get(a)
    if w is None:
        w = F(1)
        if a.op == "app" and a.a[0] in ("sqrt", "fabs"):
            d = max((sum((weight(b) * e for b, e in m), F(0)) for m in pd(a.a[1])), default=F(0))
            w = max(F(1), d if a.a[0] == "fabs" else d / 2)
            if a.a[0] == "sqrt": w += F(1, 1000)
        elif a.op == "paren": w = F(0)
        _wt[a] = w
    return w
def mord(m):
    """admissible monomial order: weighted degree, then lexicographic on atom keys (largest first)"""
    return (sum((weight(a) * e for a, e in m), F(0)), [(key(a), e) for a, e in sorted(m, key=lambda ae: key(ae[0]), reverse=True)])

def divides(lm, m):
    dm = dict(m)
    for a, e in lm:
        x = dm.get(a, 0)
        if e > 0 and x < e: return False
        if e < 0 and x > e: return False
    return bool(lm)

def rw_mono(m, c, s):
    """rewrite one monomial into a term (canonical)"""
    for i, (a, e) in enumerate(m):
        rest = m[:i] + m[i + 1:]
        if a.op == "paren" and e > 0:
            t = mkpoly({rest: c}, s)
            p = a.a[0]
            for _ in range(e): t = mul(t, p)
            return t
        if a.op == "app":
            f = a.a[0]
            if f == "sqrt" and (e > 1 or e < 0):
                q, r = divmod(e, 2)
                t = mkpoly({mmul(rest, ((a, r),) if r else ()): c}, s)
                return mul(t, ipow(a.a[1], q))
            if f == "fabs" and e > 1:
                q, r = divmod(e, 2)
                t = mkpoly({mmul(rest, ((a, r),) if r else ()): c}, s)
                return mul(t, ipow(a.a[1], 2 * q))
            if f == "sin" and e > 1:
                q, r = divmod(e, 2)
                t = mkpoly({mmul(rest, ((a, r),) if r else ()): c}, s)
                return mul(t, ipow(sub(ONE, ipow(fn("cos", a.a[1]), 2)), q))
            if f == "exp" and (e != 1 or any(b.op == "app" and b.a[0] == "exp" for b, _ in rest)):
                ex = scale(a.a[1], e); oth = ()
                for b, k in rest:
                    if b.op == "app" and b.a[0] == "exp": ex = add(ex, scale(b.a[1], k))
                    else: oth = oth + ((b, k),)
                return mul(mkpoly({oth: c}, s), fn("exp", ex))
    for a, e in m:
        if a.op == "paren" and e < 0:
            lm, rest_items = lead(a)
            if divides(lm, m):
                # lm * P^-1 = 1 - rest * P^-1
                inv = tuple((b, -k) for b, k in lm)
                base = mmul(m, inv)                    # m / lm  (still has P^e)
                t1 = mkmono(mmul(base, ((a, 1),)), c, s)   # * P
                r = [mul(mkmono(base, c, s), mkpoly({mm: -k}, "R")) for mm, k in rest_items]
                return add(t1, *r)
    return None

def mkmono(m, c, s):
    if needs_rw(m) is True:
        r = rw_mono(m, c, s)
        if r is not None: return r
    return mkpoly({m: c}, s)

def mul2(a, b):
    s = srt(a, b)
    if a.op == "num": return scale_s(b, a.a[0], s)
    if b.op == "num": return scale_s(a, b.a[0], s)
    d = {}; extra = []
    pa, pb = pd(a), pd(b)
    # whole-polynomial cancellation  P * P^-1
    for (p, q, tp) in ((pa, pb, b), (pb, pa, a)):
        if len(p) == 1 and len(q) > 1:
            (m, c), = p.items()
            if any(x.op == "paren" and e < 0 for x, e in m):
                lc, par = monic(tp)
                for x, e in m:
                    if x is par and e < 0:
                        return mkmono(mmul(m, ((par, 1),)), c * lc, s)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mmul(m1, m2)
            if needs_rw(m) is True:
                extra.append(rw_mono(m, c1 * c2, s))
            else: d[m] = d.get(m, 0) + c1 * c2
    t = mkpoly(d, s)
    if extra: return add(t, *extra)
    return t
def scale_s(t, c, s):
    r = scale(t, c)
    if r.s != s:
        if r.op == "num": return num(r.a[0], s)
        return mkpoly(pd(r), s)
    return r
def mul(*ts):
    ts = [coerce(t) for t in ts]
    r = ts[0]
    for t in ts[1:]: r = mul2(r, t)
    return r

def monic(t):
    """poly t (more than one monomial) -> (leading coef, paren atom of the monic poly)"""
    items = t.a[0] if t.op == "poly" else tuple(pd(t).items())
    lc = max(items, key=lambda mc: mord(mc[0]))[1]
    d = {m: c / lc for m, c in items}
    # make polynomial inside free of common monomial factors with negative exponents
    p = mkpoly(d, "R")
    return lc, mk("paren", (p,), "R")

def inv(t):
    t = coerce(t)
    d = pd(t)
    if not d: return app("inv0")           # 1/0: definedness obligation fails elsewhere
    if len(d) == 1:
        (m, c), = d.items()
        mm = tuple((a, -e) for a, e in m)
        if needs_rw(mm) is True: return rw_mono(mm, 1 / c, "R")
        return mkpoly({mm: 1 / c}, "R")
    # pull out common monomial factor (gcd of exponents, incl. negative)
    com = None
    for m in d:
        dm = dict(m)
        if com is None: com = dm
        else:
            com2 = {}
            for a in set(com) | set(dm):
                x, y = com.get(a, 0), dm.get(a, 0)
                z = min(x, y)
                if z: com2[a] = z
            com = com2
    if com:
        cm = tuple(sorted(com.items(), key=lambda ae: key(ae[0])))
        icm = tuple((a, -e) for a, e in cm)
        q = add(*[mkmono(mmul(m, icm), c, "R") for m, c in d.items()])
        if len(pd(q)) == len(d) :
            lc, par = monic(q) if len(pd(q)) > 1 else (None, None)
            if par is not None:
                mm = mmul(icm, ((par, -1),))
                if needs_rw(mm) is True: return rw_mono(mm, 1 / lc, "R")
                return mkpoly({mm: 1 / lc}, "R")
    lc, par = monic(mkpoly(d, "R"))
    return mkpoly({((par, -1),): 1 / lc}, "R")

def div(a, b):
    a, b = coerce(a), coerce(b)
    return mul(toreal(a), inv(b))
def ipow(t, n):
    t = coerce(t)
    if n == 0: return num(1, t.s)
    if n < 0: return inv(ipow(t, -n))
    r = t
    for _ in range(n - 1): r = mul(r, t)
    return r
@memoised
def toreal(t):
    if t.s == "R": return t
    if t.op == "num": return num(t.a[0], "R")
    return mkpoly(pd(t), "R")

# ------------------------------------------------------------------ functions
def _pi_phase(x):
    """split x = r*pi + rest with rational r"""
    d = pd(x)
    r = d.get(((PI, 1),), F(0))
    if r: d = dict(d); del d[((PI, 1),)]
    return r, mkpoly(d, "R")

def _lead_neg(x):
    if x.op == "num": return x.a[0] < 0
    if x.op == "poly": return x.a[0][-1][1] < 0
    return False

def fn(f, *args):
    args = tuple(toreal(coerce(a)) for a in args)
    x = args[0] if args else None
    if f == "fabs":
        if x.op == "num": return num(abs(x.a[0]))
        if _lead_neg(x): x = neg(x)
        d = pd(x)
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1: return scale(fn("fabs", mkpoly({m: F(1)}, "R")), abs(c))
            if all(e % 2 == 0 or (a.op == "app" and a.a[0] in ("fabs", "sqrt", "exp", "pi")) for a, e in m): return x
        return app("fabs", x)
    if f == "sqrt":
        if x.op == "num":
            v = x.a[0]
            if v >= 0:
                n, d = v.numerator, v.denominator
                # square-free form
                def sf(k):
                    o = 1; p = 2
                    while p * p <= k and p < 1000:
                        while k % (p * p) == 0: k //= p * p; o *= p
                        p += 1
                    r = math.isqrt(k)
                    if r * r == k: return o * r, 1
                    return o, k
                o1, n1 = sf(n); o2, d1 = sf(d)
                if n1 == 1 and d1 == 1: return num(F(o1, o2))
                # sqrt(n1/d1) = sqrt(n1*d1)/d1
                o3, k = sf(n1 * d1)
                if k == 1: return num(F(o1 * o3, o2 * d1))
                return mkpoly({((app("sqrt", num(k)), 1),): F(o1 * o3, o2 * d1)}, "R")
        d = pd(x)
        if len(d) == 1:
            (m, c), = d.items()
            if c > 0 and c != 1:
                return mul(fn("sqrt", num(c)), fn("sqrt", mkpoly({m: F(1)}, "R")))
            if c == 1 and len(m) == 1 and m[0][0].op == "app" and m[0][0].a[0] == "exp" and m[0][1] == 1:
                return fn("exp", scale(m[0][0].a[1], F(1, 2)))
            if c == 1 and any(e % 2 == 0 for _, e in m):
                ev = tuple((a, e // 2) for a, e in m if e % 2 == 0); od = tuple((a, e) for a, e in m if e % 2)
                r = fn("fabs", mkpoly({ev: F(1)}, "R"))
                return mul(r, fn("sqrt", mkpoly({od: F(1)}, "R"))) if od else r
        return app("sqrt", x)
    if f in ("sin", "cos"):
        r, rest = _pi_phase(x)
        if rest.op == "num" and rest.a[0] == 0:
            q = r % 2
            tabc = {F(0): 1, F(1, 2): 0, F(1): -1, F(3, 2): 0, F(1, 3): F(1, 2), F(2, 3): F(-1, 2), F(4, 3): F(-1, 2), F(5, 3): F(1, 2)}
            tabs = {F(0): 0, F(1, 2): 1, F(1): 0, F(3, 2): -1, F(1, 6): F(1, 2), F(5, 6): F(1, 2), F(7, 6): F(-1, 2), F(11, 6): F(-1, 2)}
            tb = tabc if f == "cos" else tabs
            if q in tb: return num(tb[q])
        # reduce whole multiples of pi/2
        h = r * 2
        hk = h.numerator // h.denominator if h >= 0 else -((-h.numerator) // h.denominator) - (1 if (-h).denominator != 1 else 0)
        # floor
        hk = math.floor(h)
        if hk != 0:
            base = sub(x, scale(PI, F(hk, 2)))
            k = hk % 4
            if f == "cos":
                return [lambda: fn("cos", base), lambda: neg(fn("sin", base)), lambda: neg(fn("cos", base)), lambda: fn("sin", base)][k]()
            return [lambda: fn("sin", base), lambda: fn("cos", base), lambda: neg(fn("sin", base)), lambda: neg(fn("cos", base))][k]()
        if r == 0 and _lead_neg(x):
            return fn("cos", neg(x)) if f == "cos" else neg(fn("sin", neg(x)))
        return app(f, x)
    if f in ("tan", "atan", "sinh", "asinh", "tanh", "asin", "cbrt"):
        if x.op == "num" and x.a[0] == 0: return ZERO
        if _lead_neg(x): return neg(fn(f, neg(x)))
        return app(f, x)
    if f == "cosh":
        if x.op == "num" and x.a[0] == 0: return ONE
        if _lead_neg(x): x = neg(x)
        return app(f, x)
    if f == "exp":
        if x.op == "num" and x.a[0] == 0: return ONE
        # exp(c*ln y + rest), c integer
        d = pd(x); out = None
        for m, c in list(d.items()):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].a[0] == "ln" and c.denominator == 1 and abs(c) <= 8:
                y = m[0][0].a[1]; del d[m]
                p = ipow(y, int(c)); out = p if out is None else mul(out, p)
        # exp(q*ln p + rest) with p a number: the whole part of q is a rational factor
        for m, c in list(d.items()):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].a[0] == "ln" and m[0][0].a[1].op == "num" and abs(c) <= 64:
                k = math.floor(c)
                if k:
                    d[m] = c - k
                    if not d[m]: del d[m]
                    p = num(m[0][0].a[1].a[0] ** k); out = p if out is None else mul(out, p)
        if out is not None: return mul(out, fn("exp", mkpoly(d, "R")))
        return app("exp", x)
    if f == "ln":
        if x.op == "num" and x.a[0] == 1: return ZERO
        if x.op == "num" and x.a[0] > 0:
            v = x.a[0]
            if v.numerator == 1 and v.denominator != 1: return neg(fn("ln", num(v.denominator)))
            # factor powers of 2 and 5 and other small primes
            out = []
            def fac(k, sg):
                p = 2
                while k > 1 and p < 100:
                    e = 0
                    while k % p == 0: k //= p; e += 1
                    if e: out.append(scale(app("ln", num(p)), sg * e))
                    p += 1
                if k > 1: out.append(scale(app("ln", num(k)), sg))
            fac(v.numerator, 1); fac(v.denominator, -1)
            return add(*out) if out else ZERO
        d = pd(x)
        if len(d) == 1:
            (m, c), = d.items()
            if c > 0:
                ex = [(a, e) for a, e in m if a.op == "app" and a.a[0] in ("exp",)]
                if len(ex) == len(m) or (ex and len(m) - len(ex) == 1 and c == 1 and False):
                    return add(fn("ln", num(c)), *[scale(a.a[1], e) for a, e in ex])
                if c != 1:
                    return add(fn("ln", num(c)), fn("ln", mkpoly({m: F(1)}, "R")))
                if len(m) == 1 and m[0][0].op == "app" and m[0][0].a[0] == "sqrt" and m[0][1] == 1:
                    return scale(fn("ln", m[0][0].a[1]), F(1, 2))
                if len(m) == 1 and m[0][1] < 0:
                    return neg(fn("ln", mkpoly({((m[0][0], -m[0][1]),): F(1)}, "R")))
        elif len(d) > 1:
            # ln(c*P) = ln c + ln P with the coefficient of P's last monomial +-1
            c = abs(d[max(d, key=mkey)])
            if c != 1: return add(fn("ln", num(c)), fn("ln", scale(x, F(1) / c)))
        return app("ln", x)
    if f == "log10": return div(fn("ln", x), fn("ln", num(10)))
    if f == "log2": return div(fn("ln", x), fn("ln", num(2)))
    if f == "log1p": return fn("ln", add(ONE, x))
    if f == "expm1": return sub(fn("exp", x), ONE)
    if f == "exp2": return fn("exp", mul(x, fn("ln", num(2))))
    if f == "exp10": return fn("exp", mul(x, fn("ln", num(10))))
    if f == "pow":
        y = args[1]
        if y.op == "num":
            e = y.a[0]
            if e.denominator == 1 and abs(e) <= 16: return ipow(x, int(e))
            if e == F(1, 2): return fn("sqrt", x)
            if e == F(-1, 2): return inv(fn("sqrt", x))
        if x.op == "num" and x.a[0] > 0: return fn("exp", mul(y, fn("ln", x)))
        d = pd(x)
        if len(d) == 1:
            (m, c), = d.items()
            if c == 1 and m and all(a.op == "app" and a.a[0] == "exp" for a, _ in m):
                return fn("exp", mul(y, fn("ln", x)))
        if y.op == "num" and y.a[0].denominator == 2 and abs(y.a[0]) <= 8:
            # half-integer powers (base >= 0)
            return ipow(fn("sqrt", x), int(2 * y.a[0]))
        return app("pow", x, y)
    if f == "fmod" or f == "remainder" or f == "atan2" or f == "hypot" or f == "copysign":
        if f == "hypot": return fn("sqrt", add(mul(args[0], args[0]), mul(args[1], args[1])))
        if f == "fmod":
            y = args[1]
            q = trunc(div(x, y))
            return sub(x, mul(y, q))
        if f == "remainder":
            y = args[1]
            # x - y*round_half_even(x/y)
            return sub(x, mul(y, rint(div(x, y))))
        if f == "copysign":
            return ite(lt(args[1], ZERO), neg(fn("fabs", x)), fn("fabs", x))
        return app(f, *args)
    return app(f, *args)

def floor(x):
    x = coerce(x)
    if x.s == "I": return x
    if x.op == "num": return I(math.floor(x.a[0]))
    d = pd(x); ip = {}; rp = {}
    for m, c in d.items():
        if c.denominator == 1 and all(a.s == "I" and e > 0 for a, e in m): ip[m] = c
        else:
            # split off integer multiple
            if m == ():
                k = math.floor(c); ip[m] = F(k)
                if c - k: rp[m] = c - k
            else: rp[m] = c
    if not rp: return mkpoly(ip, "I")
    r = mkpoly(rp, "R")
    # floor of (integer poly)/k -> idiv
    den = 1
    if all(all(a.s == "I" and e > 0 for a, e in m) for m in rp):
        for c in rp.values(): den = den * c.denominator // math.gcd(den, c.denominator)
        return add(mkpoly(ip, "I"), idiv(mkpoly({m: c * den for m, c in rp.items()}, "I"), den))
    if r.op == "num": return mkpoly(ip, "I")
    fa = mk("floor", (r,), "I")
    return add(mkpoly(ip, "I"), fa) if ip else fa
def idiv(x, k):
    """floor division of an Int term by a positive constant"""
    k = int(k)
    if k == 1: return x
    if x.op == "num": return I(math.floor(x.a[0] / k))
    ip, rp = {}, {}
    for m, c in pd(x).items():
        q = c // k
        if m != () and c % k == 0: ip[m] = c / k
        elif m == ():
            if q: ip[m] = F(q)
            if c % k: rp[m] = c % k
        else: rp[m] = c
    if not rp: return mkpoly(ip, "I")
    r = mkpoly(rp, "I")
    if r.op == "num": return add(mkpoly(ip, "I"), I(math.floor(r.a[0] / k)))
    return add(mkpoly(ip, "I"), mk("idiv", (r, k), "I"))
def imod(x, k): return sub(x, scale(idiv(x, k), k))
def ceil(x): return neg(floor(neg(coerce(x))))
def trunc(x):
    x = coerce(x)
    if x.s == "I": return x
    f_ = floor(x)
    if f_.op == "num" and x.op == "num": return I(int(x.a[0]))
    # integral valued?
    if toreal(f_) is x: return f_
    return ite(le(ZERO, x), f_, ceil(x))
def round_away(x):
    x = coerce(x)
    if x.s == "I": return x
    if toreal(floor(x)) is x: return floor(x)
    h = num(F(1, 2))
    return ite(le(ZERO, x), floor(add(x, h)), ceil(sub(x, h)))
def rint(x):
    """round half to even"""
    x = coerce(x)
    if x.s == "I": return x
    fl = floor(x)
    if toreal(fl) is x: return fl
    fr = sub(x, fl)
    h = num(F(1, 2))
    return ite(lt(fr, h), fl, ite(lt(h, fr), add(fl, I(1)), ite(eq(imod(fl, 2), I(0)), fl, add(fl, I(1)))))

# ------------------------------------------------------------------ booleans
@memoised
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.a[0]
    if a.op == "le0": return lt0(neg(a.a[0]))
    if a.op == "lt0": return le0(neg(a.a[0]))
    if a.op == "and": return or_(*[not_(x) for x in a.a])
    if a.op == "or": return and_(*[not_(x) for x in a.a])
    return mk("not", (a,), "B")
def and_(*xs):
    s = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == "and": s.extend(x.a)
        else: s.append(x)
    u = []
    seen = set()
    for x in s:
        if x.id not in seen: seen.add(x.id); u.append(x)
    for x in u:
        if not_(x).id in seen: return FALSE
    if not u: return TRUE
    if len(u) == 1: return u[0]
    return mk("and", tuple(sorted(u, key=key)), "B")
def or_(*xs):
    s = []
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        if x.op == "or": s.extend(x.a)
        else: s.append(x)
    u = []
    seen = set()
    for x in s:
        if x.id not in seen: seen.add(x.id); u.append(x)
    for x in u:
        n = mk("not", (x,), "B") if x.op not in ("le0", "lt0", "not", "and", "or") else None
        if n is not None and n.id in seen: return TRUE
        if x.op in ("le0", "lt0", "not") and not_(x).id in seen: return TRUE
    if not u: return FALSE
    if len(u) == 1: return u[0]
    return mk("or", tuple(sorted(u, key=key)), "B")
def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    return mk("iff", tuple(sorted((a, b), key=key)), "B")

def _norm(p):
    """scale polynomial so that coefficients are coprime integers with positive scaling"""
    d = pd(p)
    l = 1
    for c in d.values(): l = l * c.denominator // math.gcd(l, c.denominator)
    g = 0
    for c in d.values(): g = math.gcd(g, int(c * l))
    if g == 0: return p, F(1)
    k = F(l, g)
    return mkpoly({m: c * k for m, c in d.items()}, p.s), k
def int_valued(p):
    return all(c.denominator == 1 and all(a.s == "I" and e > 0 for a, e in m) for m, c in pd(p).items())
def _toint(p):
    p, _ = _norm(p)
    if p.s == "R" and int_valued(p): p = mkpoly(pd(p), "I")
    return p
def _mentions_inf(t, seen):
    if not isinstance(t, T):
        return isinstance(t, (tuple, list)) and any(_mentions_inf(x, seen) for x in t)
    if t.id in seen: return False
    seen.add(t.id)
    return (t.op == "app" and t.a[0] == "inf") or any(_mentions_inf(x, seen) for x in t.a)
def _inf_sign(p):
    """sign of p when p is  c*inf + finite  (every other quantity denotes a finite real), else None"""
    if p.op == "app" and p.a[0] == "inf": return 1
    if p.op != "poly" or p.s == "I": return None
    sg = None
    isinf = lambda m: len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].a[0] == "inf"
    for m, c in pd(p).items():
        if isinf(m): sg = 1 if c > 0 else -1
    if sg is None: return None
    seen = set()
    return None if any(_mentions_inf(m, seen) for m in pd(p) if not isinf(m)) else sg
@memoised
def le0(p):
    if p.op == "num": return TRUE if p.a[0] <= 0 else FALSE
    sg = _inf_sign(p)
    if sg: return TRUE if sg < 0 else FALSE
    p = _toint(p)
    if p.s == "I":
        d = pd(p); g = 0
        for m, c in d.items():
            if m != (): g = math.gcd(g, int(c))
        if g > 1:
            k = d.pop((), F(0))
            d = {m: c / g for m, c in d.items()}
            q = math.ceil(k / g)          # s + k/g <= 0  <=>  s + ceil(k/g) <= 0
            if q: d[()] = F(q)
            p = mkpoly(d, "I")
    return mk("le0", (p,), "B")
@memoised
def lt0(p):
    if p.op == "num": return TRUE if p.a[0] < 0 else FALSE
    sg = _inf_sign(p)
    if sg: return TRUE if sg < 0 else FALSE
    p = _toint(p)
    if p.s == "I": return le0(add(p, I(1)))
    return mk("lt0", (p,), "B")
@memoised
def eq0(p):
    if p.op == "num": return TRUE if p.a[0] == 0 else FALSE
    if _inf_sign(p): return FALSE
    p = _toint(p)
    if _lead_neg(p): p = neg(p)
    if p.s == "I":
        d = pd(p); g = 0
        for m, c in d.items():
            if m != (): g = math.gcd(g, int(c))
        if g > 1 and d.get((), F(0)) % g != 0: return FALSE
    elif p.op == "poly" and len(p.a[0]) == 1: pass
    return mk("eq0", (p,), "B")
def le(a, b): return le0(sub(coerce(a), coerce(b)))
def lt(a, b): return lt0(sub(coerce(a), coerce(b)))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b):
    a, b = coerce(a), coerce(b)
    if a.s == "B": return iff(a, b)
    return eq0(sub(a, b))
def ne(a, b): return not_(eq(a, b))

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.s == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not": return ite(c.a[0], b, a)
    if int_valued(a) and int_valued(b):
        if a.s == "R": a = mkpoly(pd(a), "I")
        if b.s == "R": b = mkpoly(pd(b), "I")
        if a is b: return a
    s = srt(a, b)
    if a.op == "num" and b.op == "num" and a.a == b.a: return a if a.s == s else b
    # canonical direction for ordered comparisons:  use lt0 / le0 with leading coefficient positive
    if c.op in ("le0", "lt0") and _lead_neg(c.a[0]):
        return ite(not_(c), b, a)
    if s == "I":
        g = 0
        for t in (a, b):
            for q in pd(t).values(): g = math.gcd(g, int(q))
        if g > 1: return scale(mk("ite", (c, scale(a, F(1, g)) if a.op != "num" else I(a.a[0] / g), scale(b, F(1, g)) if b.op != "num" else I(b.a[0] / g)), s), g)
    return mk("ite", (c, a, b), s)

# ------------------------------------------------------------------ arrays and sums
def sel(A, idx, s="R"): return mk("sel", (A, idx), s)

def depth(t):
    d = 0
    for x in subterms(t):
        if x.op in ("psum", "pcnt"): d = max(d, x.a[2])
        if x.op == "bv": d = max(d, 0)
    return d

_sub_cache = {}
def children(t):
    if t.op == "num" or t.op == "var" or t.op == "bv": return ()
    if t.op == "poly":
        return tuple(a for m, _ in t.a[0] for a, _ in m)
    return tuple(x for x in t.a if isinstance(x, T))
def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        yield x
        st.extend(children(x))

def fv(t):
    """ids of free variables (var and bv)"""
    if t._fv is None:
        if t.op in ("var", "bv"): t._fv = frozenset((t,))
        else:
            r = frozenset()
            for c in children(t): r |= fv(c)
            if t.op == "psum": r = fv(t.a[1]) | (fv(t.a[0]) - {bv(t.a[2])})
            t._fv = r
    return t._fv

def subst(t, mp, memo=None):
    """mp: {var term: term}; rebuilds canonically"""
    if not mp: return t
    if memo is None: memo = {}
    return _subst(t, mp, frozenset(mp), memo)
def _subst(t, mp, dom, memo):
    if t in mp: return mp[t]
    if not (fv(t) & dom):
        if not any(k.op not in ("var", "bv") for k in dom): return t
        if t.op in ("num", "var", "bv"): return t
    r = memo.get(t)
    if r is not None: return r
    S = lambda x: _subst(x, mp, dom, memo)
    o = t.op
    if o == "poly":
        ts = []
        for m, c in t.a[0]:
            x = num(c, t.s)
            for a, e in m:
                b = S(a)
                x = mul(x, ipow(b, e))
            ts.append(x)
        r = add(*ts)
        if r.s != t.s and t.s == "R": r = toreal(r)
    elif o == "app": r = refn(t.a[0], [S(x) for x in t.a[1:]], t.s)
    elif o == "sel": r = sel(t.a[0], S(t.a[1]), t.s)
    elif o == "ite": r = ite(S(t.a[0]), S(t.a[1]), S(t.a[2]))
    elif o == "floor": r = floor(S(t.a[0]))
    elif o == "idiv": r = idiv(S(t.a[0]), t.a[1])
    elif o == "paren": r = S(t.a[0])
    elif o == "psum":
        b, m, d = t.a
        mp2 = {k: v for k, v in mp.items() if k is not bv(d)}
        nb = subst(b, mp2) if (fv(b) & frozenset(mp2)) or any(k.op not in ("var", "bv") for k in mp2) else b
        r = psum(nb, bv(d), S(m))
    elif o == "le0": r = le0(S(t.a[0]))
    elif o == "lt0": r = lt0(S(t.a[0]))
    elif o == "eq0": r = eq0(S(t.a[0]))
    elif o == "not": r = not_(S(t.a[0]))
    elif o == "and": r = and_(*[S(x) for x in t.a])
    elif o == "or": r = or_(*[S(x) for x in t.a])
    elif o == "iff": r = iff(S(t.a[0]), S(t.a[1]))
    elif o == "rec": r = mk("rec", (t.a[0],) + tuple(S(x) for x in t.a[1:]), t.s)
    elif o in ("num", "var", "bv", "true", "false"): r = t
    else: raise Exception("subst " + o)
    memo[t] = r
    return r

def refn(f, args, s):
    if s == "R" and f in ("fabs", "sqrt", "sin", "cos", "tan", "exp", "ln", "pow", "atan", "sinh", "cosh", "tanh", "asinh", "asin", "atan2", "cbrt", "inv0", "pi") and args:
        return fn(f, *args)
    return app(f, *args, s=s)

def psum(body, v, m):
    """P(m) = sum_{v=0}^{m-1} body   (extended to all integers m by P(m+1)-P(m)=body(m))"""
    if body.s == "R" and int_valued(body): body = mkpoly(pd(body), "I")
    if m.op == "num" and abs(m.a[0]) <= 64:
        k = int(m.a[0])
        if k >= 0: return add(ZERO, *[subst(body, {v: I(i)}) for i in range(k)])
        return neg(add(ZERO, *[subst(body, {v: I(i)}) for i in range(k, 0)]))
    out = []
    for mono, c in pd(body).items():
        inside, outside = [], []
        for a, e in mono:
            (inside if v in fv(a) else outside).append((a, e))
        inside, outside = tuple(inside), tuple(outside)
        fac = mkpoly({outside: c}, "R") if outside else num(c)
        if not inside: out.append(mul(fac, m)); continue
        if all(a is v for a, _ in inside) and inside[0][1] in (1, 2, 3):
            e = inside[0][1]; mm = toreal(m)
            if e == 1: s_ = scale(mul(mm, sub(mm, ONE)), F(1, 2))
            elif e == 2: s_ = scale(mul(mul(mm, sub(mm, ONE)), sub(scale(mm, 2), ONE)), F(1, 6))
            else: s_ = scale(ipow(mul(mm, sub(mm, ONE)), 2), F(1, 4))
            out.append(mul(fac, s_)); continue
        out.append(mul(fac, _psum1(mkmono(inside, F(1), "R"), v, m)))
    return add(ZERO, *out)

def _aligns(body, v):
    """candidate (sign, shift) from array reads sel(A, sign*v + shift) in the body"""
    c = []
    for x in subterms(body):
        if x.op == "sel" and v in fv(x.a[1]):
            d = pd(x.a[1])
            k = d.get(((v, 1),))
            if k in (1, -1):
                rest = {m: q for m, q in d.items() if m != ((v, 1),)}
                t = mkpoly(rest, "I")
                if v not in fv(t): c.append((int(k), t))
    return sorted(set(c), key=lambda st: (st[0], key(st[1])))

def _psum1(body, v, m):
    al = _aligns(body, v)
    best = None
    if al:
        cands = []
        for sg, t in al:
            # j = sg*v + t  -> v = sg*(j - t)
            if sg == 1: g = subst(body, {v: sub(v, t)})
            else: g = subst(body, {v: sub(t, v)})
            cands.append((key(g), g, sg, t))
        cands.sort(key=lambda q: q[0])
        _, g, sg, t = cands[0]
        if sg == 1:
            if t.op == "num" and t.a[0] == 0: return _psum2(g, v, m)
            return sub(_psum2(g, v, add(m, t)), _psum2(g, v, t))
        return sub(_psum2(g, v, add(t, I(1))), _psum2(g, v, sub(add(t, I(1)), m)))
    return _psum2(body, v, m)

def _psum2(g, v, m):
    # g may have become a polynomial with several monomials after the shift
    if len(pd(g)) != 1 or (g.op == "poly" and g.a[0][0][1] != 1) :
        if g.op == "num": return mul(g, m)
        if g.op == "poly":
            return add(ZERO, *[ _psum2w(mkpoly({mm: F(1)}, "R"), v, m, c) for mm, c in g.a[0]])
    return _psum3(g, v, m)
def _psum2w(mono, v, m, c):
    ins = tuple((a, e) for a, e in pd_single(mono) if v in fv(a)); outs = tuple((a, e) for a, e in pd_single(mono) if v not in fv(a))
    fac = mkpoly({outs: c}, "R") if outs else num(c)
    if not ins: return mul(fac, m)
    if all(a is v for a, _ in ins): return mul(fac, psum(mkpoly({ins: F(1)}, "R"), v, m))
    return mul(fac, _psum3(mkmono(ins, F(1), "R"), v, m))
def pd_single(t):
    (m, c), = pd(t).items()
    return m
def _psum3(g, v, m):
    """canonical prefix sum atom; constant offsets of m are unfolded"""
    if m.op == "num" and abs(m.a[0]) <= 64: return psum_const(g, v, int(m.a[0]))
    d = pd(m); c = d.get((), F(0))
    if c != 0 and abs(c) <= 64 and c.denominator == 1:
        k = int(c); base = mkpoly({mm: q for mm, q in d.items() if mm != ()}, "I")
        r = _psum3(g, v, base)
        if k > 0: return add(r, *[subst(g, {v: add(base, I(i))}) for i in range(k)])
        return sub(r, add(ZERO, *[subst(g, {v: add(base, I(i))}) for i in range(k, 0)]))
    dd = 1 + depth(g)
    # keep above any enclosing bound variable used free inside
    b = subst(g, {v: bv(dd)}) if v is not bv(dd) else g
    return mk("psum", (b, m, dd), b.s)
def psum_const(g, v, k):
    if k >= 0: return add(ZERO, *[subst(g, {v: I(i)}) for i in range(k)])
    return neg(add(ZERO, *[subst(g, {v: I(i)}) for i in range(k, 0)]))

def Sum(lo, hi, f):
    """spec-level sum of f(i) for lo <= i < hi (assumes lo <= hi)"""
    v = fresh("s", "I")
    lo, hi = coerce(lo), coerce(hi)
    b = f(v)
    b = coerce(b)
    return sub(psum(b, v, hi), psum(b, v, lo))

# ------------------------------------------------------------------ floating literals
_constcache = {}
def const(v):
    """real number meant by a floating literal: nearby simple closed forms are recognised (declared assumption)"""
    r = _constcache.get(v)
    if r is None:
        r = _const(v); _constcache[v] = r
    return r
def _const(v):
    if v != v: return app("nan")
    if v in (math.inf, -math.inf): return app("inf") if v > 0 else neg(app("inf"))
    if v == 0: return ZERO
    fr = F(v)
    if fr.denominator <= 1 << 20 and abs(fr.numerator) < 1 << 40: return num(fr)
    rp = repr(abs(v))
    mant = rp.split("e")[0].replace(".", "").strip("0")
    if len(mant) <= 13: return num(F(repr(v)))
    def near(x, y): return abs(x - y) <= 4.5e-16 * abs(y)
    for name, val, term in (("pi", math.pi, PI), ("1/pi", 1 / math.pi, inv(PI)), ("ln10", math.log(10), fn("ln", num(10))), ("1/ln10", 1 / math.log(10), inv(fn("ln", num(10)))),
                            ("ln2", math.log(2), fn("ln", num(2))), ("log2(10)", math.log2(10), div(fn("ln", num(10)), fn("ln", num(2)))),
                            ("log10(2)", math.log10(2), div(fn("ln", num(2)), fn("ln", num(10)))), ("pi2", math.pi ** 2, mul(PI, PI)),
                            ("e", math.e, fn("exp", ONE))):
        q = F(v / val).limit_denominator(2000)
        if q != 0 and abs(q.numerator) <= 100000 and near(float(q) * val, v): return mul(num(q), term)
    q = fr.limit_denominator(20000)
    if q != 0 and abs(q.numerator) < 10**7 and near(float(q), v) and len(mant) >= 15: return num(q)
    q = F(v * v).limit_denominator(200)
    if q != 0 and abs(q.numerator) <= 20000 and near(math.sqrt(float(q)), abs(v)):
        r = fn("sqrt", num(q)); return r if v > 0 else neg(r)
    return num(F(repr(v)))

# ------------------------------------------------------------------ printing
def show(t, lim=4000):
    s = _show(t)
    return s if len(s) <= lim else s[:lim] + "..."
def _show(t):
    o = t.op
    if o == "num": return str(t.a[0])
    if o == "var": return str(t.a[0])
    if o == "bv": return "#%d" % t.a[0]
    if o == "poly":
        out = []
        for m, c in t.a[0]:
            ms = "*".join((_show(a) if e == 1 else "%s^%d" % (_show(a), e)) for a, e in m)
            if not ms: out.append(str(c))
            elif c == 1: out.append(ms)
            elif c == -1: out.append("-" + ms)
            else: out.append("%s*%s" % (c, ms))
        return "(" + " + ".join(out) + ")"
    if o == "app": return "%s(%s)" % (t.a[0], ", ".join(_show(x) for x in t.a[1:])) if len(t.a) > 1 else t.a[0]
    if o == "sel": return "%s[%s]" % (t.a[0] if not isinstance(t.a[0], T) else _show(t.a[0]), _show(t.a[1]))
    if o == "ite": return "ite(%s, %s, %s)" % tuple(_show(x) for x in t.a)
    if o == "psum": return "SUM{#%d<%s: %s}" % (t.a[2], _show(t.a[1]), _show(t.a[0]))
    if o == "le0": return "%s<=0" % _show(t.a[0])
    if o == "lt0": return "%s<0" % _show(t.a[0])
    if o == "eq0": return "%s==0" % _show(t.a[0])
    if o in ("and", "or", "not", "iff"): return o + "(" + ", ".join(_show(x) for x in t.a) + ")"
    if o in ("true", "false"): return o
    if o == "paren": return "{" + _show(t.a[0]) + "}"
    if o == "idiv": return "idiv(%s,%d)" % (_show(t.a[0]), t.a[1])
    if o == "floor": return "floor(%s)" % _show(t.a[0])
    if o == "rec": return "rec:%s(%s)" % (t.a[0], ", ".join(_show(x) for x in t.a[1:]))
    return o + str(t.a)

# ------------------------------------------------------------------ numeric evaluation
class EvalError(Exception): pass
TIE = [None]     # replay: decides comparisons of reals that rounding could tip (or raises EvalError)
FN = {"fabs": abs, "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "ln": math.log, "atan": math.atan,
      "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "asinh": math.asinh, "asin": math.asin, "atan2": math.atan2, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x)}
def ev(t, env, memo=None):
    """float/int/bool value; env: {var name: value, array name: list}"""
    if memo is None: memo = {}
    return _ev(t, env, memo, {})
CTYPE = {"tolower": lambda c: c + 32 if 65 <= c <= 90 else c, "toupper": lambda c: c - 32 if 97 <= c <= 122 else c, "isspace": lambda c: int(c == 32 or 9 <= c <= 13)}
def _order(k, coll, env, memo, bound):
    """element of rank k of a collection  sum_j c_j * item(v_j)  (sums over ranges included)"""
    from collections import Counter
    n = Counter()
    E = lambda x, b=bound: _ev(x, env, {}, b)
    def go(t, w, b):
        for m, c in pd(t).items():
            w2 = w * c; at = None
            for a, e in m:
                if e == 1 and (a.op == "psum" or a.op == "app" and a.a[0] == "item") and at is None: at = a
                else: w2 *= F(E(a, b)) ** e
            if at is None:
                if w2: raise EvalError("collection")
            elif at.op == "psum":
                hi = int(E(at.a[1], b))
                if hi < 0: raise EvalError("collection")
                for i in range(hi): go(at.a[0], w2, {**b, at.a[2]: i})
            else: n[float(E(at.a[1], b))] += w2
    go(coll, F(1), dict(bound))
    xs = []
    for v in sorted(n):
        if n[v] < 0 or n[v].denominator != 1: raise EvalError("collection")
        xs += [v] * int(n[v])
    if not 0 <= k < len(xs): raise EvalError("rank")
    return xs[int(k)]
INV0 = [None]          # value taken for 1/0, when terms without it are known to cancel it
def monovals(monos, E, env, memo, bound):
    """values of the monomials of a real polynomial; differences of prefix sums over ranges that a single prefix would leave are
    evaluated as sums over the range between them"""
    monos = list(monos)
    def val(m, c):
        x = float(c)
        for a, e in m:
            v = E(a)
            if e < 0 and v == 0:
                if INV0[0] is None: raise EvalError("div0")
                x *= INV0[0] ** -e
            else: x *= float(v) ** e
        return x
    try: return [val(m, c) for m, c in monos]
    except EvalError as ex:
        if str(ex) != "index": raise
    xs, groups = [], {}
    for m, c in monos:
        s_ = [a for a, e in m if a.op == "psum" and e == 1]
        if len(s_) == 1: groups.setdefault((s_[0].a[0], s_[0].a[2], tuple(ae for ae in m if ae[0] is not s_[0])), []).append((s_[0], c))
        else: xs.append(val(m, c))
    for (body, d, rest), l in groups.items():
        if sum(c for _, c in l) != 0:
            xs += [val(rest + ((a, 1),), c) for a, c in l]; continue
        ends = [int(E(a.a[1])) for a, _ in l]; lo = min(ends); b2 = dict(bound)
        acc, k, pre = 0.0, lo, {lo: 0.0}
        for h in sorted(set(ends)):
            for i in range(k, h): b2[d] = i; acc += _ev(body, env, memo, b2)
            k = max(k, h); pre[h] = acc
        xs.append(val(rest, 1) * sum(float(c) * pre[h] for (_, c), h in zip(l, ends)))
    return xs

def _ev(t, env, memo, bound):
    o = t.op
    if o == "num":
        return int(t.a[0]) if t.s == "I" else float(t.a[0])
    if o == "var":
        return env[t.a[0]]
    if o == "bv": return bound[t.a[0]]
    isopen = bool(bound) and any(x.op == "bv" for x in fv(t))
    if not isopen and t in memo: return memo[t]
    E = lambda x: _ev(x, env, memo, bound)
    if o == "poly":
        if t.s == "I":
            r = 0
            for m, c in t.a[0]:
                x = c
                for a, e in m: x = x * E(a) ** e
                r += x
            r = int(r)
        else:
            r = math.fsum(monovals(t.a[0], E, env, memo, bound))
    elif o == "app":
        f = t.a[0]
        if f == "pi": r = math.pi
        elif f == "nan": r = math.nan
        elif f == "inf": r = math.inf
        elif f == "pow":
            b, e = E(t.a[1]), E(t.a[2])
            r = math.pow(b, e)
        elif f == "inv0":
            r = E(t.a[1]) if len(t.a) > 1 else 0
            if r == 0 and INV0[0] is None: raise EvalError("div0")
            r = 1 / r if r else INV0[0]
        elif f in FN: r = FN[f](*[E(x) for x in t.a[1:]])
        elif f in env: r = env[f](*[E(x) for x in t.a[1:]])
        elif f == "order": r = _order(E(t.a[1]), t.a[2], env, memo, bound)
        elif f in CTYPE: r = CTYPE[f](int(E(t.a[1])))
        elif f == "udiv":
            b_ = E(t.a[2])
            if b_ == 0: raise EvalError("div0")
            r = E(t.a[1]) // b_
        else: raise EvalError("app " + str(f))
    elif o == "sel":
        i = E(t.a[1]); A = env[t.a[0]]
        if i < 0 or i >= len(A): raise EvalError("index")
        r = A[i]
    elif o == "ite": r = E(t.a[1]) if E(t.a[0]) else E(t.a[2])
    elif o == "floor":
        x = E(t.a[0])
        r = math.floor(x) if TIE[0] is None or abs(x - round(x)) > 1e-9 * max(1.0, abs(x)) else math.floor(TIE[0](t.a[0], env, bound))
    elif o == "idiv": r = E(t.a[0]) // t.a[1]
    elif o == "paren": r = E(t.a[0])
    elif o == "psum":
        n = E(t.a[1]); d = t.a[2]; b2 = dict(bound); xs = []
        if n >= 0:
            for i in range(n):
                b2[d] = i; xs.append(_ev(t.a[0], env, memo, b2))
            r = math.fsum(xs)
        else:
            for i in range(n, 0):
                b2[d] = i; xs.append(_ev(t.a[0], env, memo, b2))
            r = -math.fsum(xs)
    elif o in ("le0", "lt0", "eq0"):
        x = E(t.a[0])
        if TIE[0] is not None and t.a[0].s == "R" and abs(x) < 1e-6 and x == x: x = TIE[0](t.a[0], env, bound, x)
        r = x <= 0 if o == "le0" else x < 0 if o == "lt0" else x == 0
    elif o == "not": r = not E(t.a[0])
    elif o == "and": r = all(E(x) for x in t.a)
    elif o == "or": r = any(E(x) for x in t.a)
    elif o == "iff": r = E(t.a[0]) == E(t.a[1])
    elif o == "true": r = True
    elif o == "false": r = False
    else: raise EvalError(o)
    if not isopen: memo[t] = r
    return r
