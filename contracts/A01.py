from vcg.contract import *
U = "REPO/bindings/c/src/algorithm.c"
HALF = num(F(1, 2))

def both(fn, unit, spec, params=(), lo=0, req=None, prop="A01"):
    """elementwise map, once into a separate destination and once in place"""
    for inplace in (False, True):
        def b(c, inplace=inplace):
            n = c.size("n", lo)
            x = (c.inout if inplace else c.input)("x", n)
            y = x if inplace else c.output("y", n)
            ps = [c.real(p) for p in params]
            if req: req(c, x, n, *ps)
            c.call(x, n, y, *ps)
            c.ensures_all("every output sample is the documented map of the input sample", 0, n, lambda p, i: eq(p.get(y, i), spec(c, x, n, i, *ps)))
        contract(prop, unit, fn, fn + (" in place" if inplace else ""))(b)

clampspec = lambda v, lo, hi: ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))
both("array_scale", U, lambda c, x, n, i, k: x(i) * k, ("factor",))
both("array_scale_clip", U, lambda c, x, n, i, k, lo, hi: clampspec(x(i) * k, lo, hi), ("factor", "mn", "mx"), req=lambda c, x, n, k, lo, hi: c.requires(le(lo, hi)))
both("array_clip", U, lambda c, x, n, i, lo, hi: clampspec(x(i), lo, hi), ("mn", "mx"), req=lambda c, x, n, lo, hi: c.requires(le(lo, hi)))
both("array_ceil", U, lambda c, x, n, i: toreal(ceil(x(i))))
both("array_floor", U, lambda c, x, n, i: toreal(floor(x(i))))
both("array_round", U, lambda c, x, n, i: toreal(round_away(x(i))))
both("array_trunc", U, lambda c, x, n, i: toreal(trunc(x(i))))
both("array_abs", U, lambda c, x, n, i: fn("fabs", x(i)))

# normalisation: y is the positive multiple of x whose largest magnitude is one (this determines y)
for _ip in (False, True):
    @contract("A01", U, "array_normalize", "array_normalize" + (" in place" if _ip else ""))
    def _(c, ip=_ip):
        n = c.size("n", 1); k = c.int("k", 0, 2**31 - 1); c.requires(lt(k, n))
        x = (c.inout if ip else c.input)("x", n); y = x if ip else c.output("y", n)
        c.requires(ne(x(k), ZERO))
        c.call(x, n, y)
        c.ensures_all("samples keep their proportions", 0, n, lambda p, i: eq(p.get(y, i) * x(k), p.get(y, k) * x(i)))
        c.ensures("samples keep their sign", lambda p: lt(ZERO, p.get(y, k) * x(k)))
        c.ensures_all("no sample exceeds one in magnitude", 0, n, lambda p, i: and_(le(num(-1), p.get(y, i)), le(p.get(y, i), ONE)))
        c.ensures_exists("some sample has magnitude one", 0, n, lambda p, i: eq(fn("fabs", p.get(y, i)), ONE))
    @contract("A01", "H/algorithm.cpp", "h_normalize_rms", "normalize_rms" + (" in place" if _ip else ""))
    def _(c, ip=_ip):
        n = c.size("n", 1); k = c.int("k", 0, 2**31 - 1); c.requires(lt(k, n))
        x = (c.inout if ip else c.input)("x", n); y = x if ip else c.output("y", n)
        c.requires(ne(x(k), ZERO))
        c.call(x, n, y)
        ms = Sum(0, n, lambda i: x(i) * x(i)) / toreal(n)
        c.ensures_all("output is the input over its RMS value", 0, n, lambda p, i: eq(p.get(y, i) * fn("sqrt", ms), x(i)))
