from vcg.contract import *
H = "H/filter.cpp"
NAMES = ("a0", "a1", "a2", "b0", "b1", "b2")
def coefs(c, names=NAMES, tag=""):
    k = {n: c.real(n + tag) for n in names}
    c.requires(ne(k["a0"], ZERO))
    return k
def at(f, i, lo):
    """sample before the first one is zero"""
    return ite(le(lo, i), f(i), ZERO)
def diffeq(k, x, y, i, lo):
    """a0 y[i] + a1 y[i-1] + a2 y[i-2] = b0 x[i] + b1 x[i-1] + b2 x[i-2], zero before position lo"""
    l = k["a0"] * y(i) + k["a1"] * at(y, i - I(1), lo) + k["a2"] * at(y, i - I(2), lo)
    r = k["b0"] * x(i) + k["b1"] * at(x, i - I(1), lo) + k["b2"] * at(x, i - I(2), lo)
    return eq(l, r)
def args(k): return [k[n] for n in NAMES]
for h in ("h_biquad_filter", "h_biquad_ticks", "h_biquad_copy"):
    @contract("G01", H, h)
    def _(c):
        k = coefs(c); n = c.int("n", 0, 2**40); x = c.input("x", n); y = c.output("y", n)
        c.call(*args(k), x, n, y)
        c.ensures_all("difference equation from rest", 0, n, lambda p, i: diffeq(k, x, lambda j: p.get(y, j), i, I(0)))
@contract("G01", H, "h_biquad_inplace")
def _(c):
    k = coefs(c); n = c.int("n", 0, 2**40); x = c.inout("x", n)
    c.call(*args(k), x, n)
    c.ensures_all("difference equation from rest", 0, n, lambda p, i: diffeq(k, x, lambda j: p.get(x, j), i, I(0)))
@contract("G01", H, "h_biquad_default")
def _(c):
    n = c.int("n", 0, 2**40); x = c.input("x", n); y = c.output("y", n)
    c.call(x, n, y)
    c.ensures_all("a default filter passes the signal through", 0, n, lambda p, i: eq(p.get(y, i), x(i)))
@contract("G01", H, "h_biquad_split")
def _(c):
    k = coefs(c); n = c.int("n", 0, 2**40); m = c.int("m", 0, 2**40); c.requires(le(m, n)); x = c.input("x", n); y = c.output("y", n)
    c.call(*args(k), x, n, m, y)
    c.ensures_all("one difference equation across the blocks", 0, n, lambda p, i: diffeq(k, x, lambda j: p.get(y, j), i, I(0)))
def two_parts(c, k, k2, extra=()):
    n = c.int("n", 0, 2**40); m = c.int("m", 0, 2**40); c.requires(le(m, n)); x = c.input("x", n); y = c.output("y", n)
    c.call(*args(k), *extra, x, n, m, y)
    c.ensures_all("difference equation from rest", 0, m, lambda p, i: diffeq(k, x, lambda j: p.get(y, j), i, I(0)))
    c.ensures_all("difference equation from rest after the reset", m, n, lambda p, i: diffeq(k2, x, lambda j: p.get(y, j), i, m))
@contract("G01", H, "h_biquad_reset")
def _(c):
    k = coefs(c); two_parts(c, k, k)
for s in NAMES:
    @contract("G01", H, "h_biquad_set_" + s)
    def _(c, s=s):
        k = coefs(c); v = c.real("v")
        if s == "a0": c.requires(ne(v, ZERO))
        k2 = {n: k[n] / k["a0"] for n in NAMES}; k2[s] = v
        two_parts(c, k, k2, [v])
    @contract("G01", H, "h_biquad_get_" + s)
    def _(c, s=s):
        k = coefs(c); c.call(*args(k)); c.returns(k[s] / k["a0"])
    @contract("G01", H, "h_biquad_getset_" + s)
    def _(c, s=s):
        k = coefs(c); v = c.real("v"); c.call(*args(k), v); c.returns(v)
for h in ("h_biquad_stable", "h_biquad_bool"):
    @contract("G01", H, h)
    def _(c):
        k = coefs(c); c.call(*args(k))
        A1, A2 = k["a1"] / k["a0"], k["a2"] / k["a0"]
        c.returns(ite(and_(lt(fn("fabs", A2), ONE), lt(fn("fabs", A1), ONE + A2)), I(1), I(0)))
@contract("G01", H, "h_biquad_conj")
def _(c):
    pr, pi, zr, zi = [c.real(n) for n in ("pr", "pi", "zr", "zi")]; o = c.output("o", I(6))
    c.call(pr, pi, zr, zi, o)
    # (1 - p/z)(1 - p*/z) with p = pr + i pi
    for j, v in enumerate((ONE, R(-2) * pr, pr * pr + pi * pi, ONE, R(-2) * zr, zr * zr + zi * zi)):
        c.ensures("coefficient " + NAMES[j], lambda p, j=j, v=v: eq(p.get(o, I(j)), v))
@contract("G01", H, "h_biquad_real2")
def _(c):
    a, z, b, w = [c.real(n) for n in ("p", "z", "q", "w")]; o = c.output("o", I(6))
    c.call(a, z, b, w, o)
    for j, v in enumerate((ONE, -a - b, a * b, ONE, -z - w, z * w)):
        c.ensures("coefficient " + NAMES[j], lambda p, j=j, v=v: eq(p.get(o, I(j)), v))
