from vcg.contract import *
H = "H/numeric.cpp"
RANGE = {"i": (-2**31, 2**31 - 1), "l": (-2**63, 2**63 - 1), "u": (0, 2**32 - 1)}
W = {"i": 32, "l": 64, "u": 32}
def ifn(name, S, spec, lo=None, hi=None):
    @contract("L01", H, "h_%s_%s" % (name, S))
    def _(c):
        a, b = RANGE[S]
        x = c.int("x", a if lo is None else lo, b if hi is None else hi); c.call(x)
        c.ensures("the mathematical definition", lambda p: spec(p.ret, x))
def answer(cond): return lambda r, x: eq(r, ite(cond(x), I(1), I(0)))
for S in "ilu":
    ifn("is_odd", S, answer(lambda x: eq(imod(x, 2), I(1))))
    ifn("is_even", S, answer(lambda x: eq(imod(x, 2), I(0))))
    if S == "u": continue
    ifn("is_negative", S, answer(lambda x: lt(x, I(0))))
    ifn("sign", S, lambda r, x: eq(r, ite(lt(x, I(0)), I(-1), I(1))))
    M = 31 if S == "i" else 63
    ifn("is_power_two", S, answer(lambda x, M=M: or_(*[eq(x, I(2**k)) for k in range(M)])))
    ifn("next_power_two", S, lambda r, x, M=M: and_(or_(*[eq(r, I(2**k)) for k in range(M)]), le(x, r), lt(r, add(x, x))), 1, 2**(M - 1))
    m = int((2**W[S] / 2 - 1) ** 0.5)
    ifn("square", S, lambda r, x: eq(r, mul(x, x)), -m, m)
def is_prime(n): return n > 1 and all(n % d for d in range(2, int(n ** 0.5) + 1))
for S in "il":
    @contract("L01", H, "h_is_prime_" + S)
    def _(c, S=S):
        x = c.int("x", RANGE[S][0], min(RANGE[S][1], 2**62)); c.call(x); c.pool("x", list(range(-20, 400)) + [2**20 - 3, 1021 * 1031, 997 ** 2])
        # a supposed factorisation of x
        d, q = c.int("d", 2, 2**63 - 1), c.int("q", 2, 2**63 - 1); c.requires(le(d, q))
        prime = c.int("prime", 0, 1); c.derive("prime", lambda env: int(is_prime(env["x"])))
        num = lambda p: eq(p.ret, prime)
        def divisors(p):
            out = {I(2), I(3)}
            for t in p.st.pc:
                for u in subterms(t):
                    if u.op == "app" and u.a[0] == "udiv": out.add(u.a[2])
            return sorted(out, key=lambda t: t.id)
        def divides(k):
            y = idiv(x, int(k.a[0])) if k.op == "num" else app("udiv", x, k, s="I")
            return and_(lt(I(1), k), lt(k, x), eq(mul(k, y), x))
        c.ensures("one or zero", lambda p: or_(eq(p.ret, I(0)), eq(p.ret, I(1))))
        c.ensures("numbers below two are not prime", lambda p: implies(lt(x, I(2)), eq(p.ret, I(0))))
        c.ensures("a number that is rejected has a divisor", lambda p: num(p) if p.numeric else or_(ne(p.ret, I(0)), lt(x, I(2)), *[divides(k) for k in divisors(p)]))
        fact = eq(mul(d, q), x); k, m = idiv(d - 5, 6), imod(d - 5, 6)
        def steps():
            acc = lambda p: and_(fact, eq(p.ret, I(1)))
            def small(p):      # a divisor up to the square root lies among those tried
                K = [v for t in p.st.pc for v in fv(t) if str(v.a[0]).startswith("k")]
                return implies(acc(p), le(k, K[0] if K else I(-1)))
            yield lambda p: implies(fact, le(mul(d, d), x))
            yield small
            for t in (2, 3):
                yield lambda p, t=t: implies(and_(acc(p), le(I(4), x)), ne(imod(d, t), I(0)))
            for t in (5, 7):
                b = t + 6 * k; u = app("udiv", x, b, s="I")
                yield lambda p, b=b, u=u: implies(and_(acc(p), eq(d, b)), and_(le(mul(b, u), x), lt(x, mul(b, u) + b)))
                yield lambda p, b=b, u=u: implies(and_(acc(p), eq(d, b)), and_(lt(mul(b, u - q), b), lt(I(0), mul(b, u - q) + b)))
                yield lambda p, b=b, u=u: implies(and_(acc(p), eq(d, b)), eq(u, q))
                yield lambda p, b=b, u=u: implies(and_(acc(p), le(I(0), k)), ne(mul(b, u), x))
                yield lambda p, b=b, u=u: implies(and_(acc(p), le(I(0), k)), ne(d, b))
        c.ensures("a number that is accepted has no factorisation", lambda p: num(p) if p.numeric else or_(eq(p.ret, I(0)), not_(fact)), tuple(steps()))
def rfn(name, spec, req=None, k=1):
    @contract("L01", H, "h_" + name)
    def _(c):
        v = [c.real(n) for n in ("x", "y")[:k]]; c.call(*v)
        if req: c.requires(req(*v))
        c.ensures("the mathematical definition", lambda p: spec(p.ret, *v))
rfn("is_negative_d", lambda r, x: eq(r, ite(lt(x, ZERO), I(1), I(0))))
rfn("sign_d", lambda r, x: eq(r, ite(lt(x, ZERO), num(-1), ONE)))
rfn("square_d", lambda r, x: eq(r, mul(x, x)))
rfn("fract_d", lambda r, x: eq(r, sub(x, toreal(floor(x)))))
rfn("inv_d", lambda r, x: eq(r * x, ONE), lambda x: ne(x, ZERO))
rfn("half_d", lambda r, x: eq(r + r, x))
rfn("manhattan", lambda r, x, y: eq(r, fn("fabs", x - y)), None, 2)
rfn("euclidean", lambda r, x, y: eq(r, (x - y) * (x - y)), None, 2)
rfn("logarithmic", lambda r, x, y: eq(r, fn("ln", fn("fabs", x) / fn("fabs", y))), lambda x, y: and_(ne(x, ZERO), ne(y, ZERO)), 2)
rfn("magnitude", lambda r, x, y: eq(r, fn("sqrt", x * x + y * y)), None, 2)
rfn("phase", lambda r, x, y: eq(r, fn("atan2", y, x)), None, 2)
rfn("real", lambda r, x, y: eq(r, x), None, 2)
rfn("imag", lambda r, x, y: eq(r, y), None, 2)
@contract("L01", H, "h_manhattan_i")
def _(c):
    x, y = c.int("x", -2**30, 2**30 - 1), c.int("y", -2**30, 2**30 - 1); c.call(x, y)
    c.ensures("the mathematical definition", lambda p: eq(p.ret, ite(lt(x, y), y - x, x - y)))
@contract("L01", H, "h_conj")
def _(c):
    x, y = c.real("x"), c.real("y"); w = c.output("w", I(2)); c.call(x, y, w)
    c.ensures("the mathematical definition", lambda p: and_(eq(p.get(w, 0), x), eq(p.get(w, 1), neg(y))))
