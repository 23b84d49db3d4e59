from vcg.contract import *
H = "H/fft.cpp"
MAX = 2**30 - 1
FORWARD, BACKWARD, R2C, C2R, DHT, DCT2, DCT3 = range(1, 8)
def plan(c, w, n, kind, runs=1, plans=1):
    c.ensures("no plan is misused", lambda p: eq(p.get(w, 0), I(0)))
    c.ensures("plans are created once and destroyed once", lambda p: and_(eq(p.get(w, 1), I(plans)), eq(p.get(w, 2), I(plans))))
    c.ensures("the plan has the matching length and kind", lambda p: and_(eq(p.get(w, 3), n), eq(p.get(w, 4), I(kind))))
    c.ensures("one execution per transform", lambda p: eq(p.get(w, 5), I(runs)))
    c.ensures("planning leaves the buffers alone", lambda p: eq(p.get(w, 6), I(0)))
def same(c, label, n, a, b, f=lambda p, v: v, cplx=False):
    """final a is f of initial b"""
    if cplx: c.ensures_all(label, 0, n, lambda p, i: and_(eq(p.re(a, i), f(p, b.re(i))), eq(p.im(a, i), f(p, b.im(i)))))
    else: c.ensures_all(label, 0, n, lambda p, i: eq(p.get(a, i), f(p, b(i))))
for f, kind in (("dct", DCT2), ("idct", DCT3), ("hartley", DHT)):
    @contract("I01", H, "h_" + f)
    def _(c, f=f, kind=kind):
        n = c.int("n", 1, MAX); x = c.input("x", n); y = c.output("y", n); s = c.output("s", n); a = c.input("a", n); w = c.output("w", I(7), "L")
        c.call(x, n, y, s, a, w); plan(c, w, n, kind)
        same(c, "the back end is given the whole input", n, s, x)
        same(c, "the output is the back end's, scaled", n, y, a, (lambda p, v: v / toreal(2 * n)) if f == "idct" else (lambda p, v: v))
for f, kind in (("complex_fft", FORWARD), ("complex_ifft", BACKWARD)):
    @contract("I01", H, "h_" + f)
    def _(c, f=f, kind=kind):
        n = c.int("n", 1, MAX); x = c.input("x", n, "C"); y = c.output("y", n, "C"); s = c.output("s", n, "C"); a = c.input("a", n, "C"); w = c.output("w", I(7), "L")
        c.call(x, n, y, s, a, w); plan(c, w, n, kind)
        same(c, "the back end is given the whole input", n, s, x, cplx=True)
        same(c, "the output is the back end's, scaled", n, y, a, (lambda p, v: v / toreal(n)) if f == "complex_ifft" else (lambda p, v: v), cplx=True)
@contract("I01", H, "h_fft")
def _(c):
    n, h = c.int("n", 1, MAX), c.int("h", 0, MAX); c.requires(le(2 * h, n)); c.requires(le(n, 2 * h + 1))
    c.derive("h", lambda env: env["n"] // 2)
    x = c.input("x", n); y = c.output("y", h + 1, "C"); s = c.output("s", n); a = c.input("a", h + 1, "C"); w = c.output("w", I(7), "L")
    c.call(x, n, y, s, a, w); plan(c, w, n, R2C)
    same(c, "the back end is given the whole input", n, s, x)
    same(c, "the output is the back end's", h + 1, y, a, cplx=True)
@contract("I01", H, "h_ifft")
def _(c):
    m = c.int("m", 2, MAX // 2); n = 2 * m - 2
    x = c.input("x", m, "C"); y = c.output("y", n); s = c.output("s", m, "C"); a = c.input("a", n); w = c.output("w", I(7), "L")
    c.call(x, m, y, s, a, w); plan(c, w, n, C2R)
    same(c, "the back end is given the whole input", m, s, x, cplx=True)
    same(c, "the output is the back end's, scaled", n, y, a, lambda p, v: v / toreal(n))

@contract("I01", H, "h_engine_unused")
def _(c):
    n = c.int("n", 1, MAX); w = c.output("w", I(7), "L")
    c.call(n, w)
    c.ensures("an unused engine makes and destroys no plan", lambda p: and_(eq(p.get(w, 0), I(0)), eq(p.get(w, 1), I(0)), eq(p.get(w, 2), I(0))))
for f, kind, ci, co in (("dft", FORWARD, 1, 1), ("idft", BACKWARD, 1, 1), ("rdft", R2C, 0, 1), ("ridft", C2R, 1, 0), ("dht", DHT, 0, 0), ("dct", DCT2, 0, 0), ("idct", DCT3, 0, 0)):
    @contract("I01", H, "h_engine_" + f)
    def _(c, kind=kind, ci=ci, co=co):
        n = c.int("n", 1, MAX); h = n
        if ci != co:
            h = c.int("h", 1, MAX); c.requires(le(2 * h - 2, n)); c.requires(le(n, 2 * h - 1))
            c.derive("h", lambda env: env["n"] // 2 + 1)
        k = "RC"
        ni, no = (h, n) if ci and not co else (n, h) if co and not ci else (n, n)
        x, x2 = c.input("x", ni, k[ci]), c.input("x2", ni, k[ci]); y, y2 = c.output("y", no, k[co]), c.output("y2", no, k[co])
        s, s2 = c.output("s", ni, k[ci]), c.output("s2", ni, k[ci]); a, a2 = c.input("a", no, k[co]), c.input("a2", no, k[co]); w = c.output("w", I(7), "L")
        c.call(x, x2, n, y, y2, s, s2, a, a2, w)
        plan(c, w, n, kind, 2, 1)
        for l, X, Y, S, A in (("first", x, y, s, a), ("second", x2, y2, s2, a2)):
            same(c, "the %s input reaches the back end" % l, ni, S, X, cplx=ci)
            same(c, "the %s output is the back end's" % l, no, Y, A, cplx=co)
for f, kind, ci in (("dft", FORWARD, 1), ("idft", BACKWARD, 1), ("dht", DHT, 0), ("dct", DCT2, 0), ("idct", DCT3, 0)):
    @contract("I01", H, "h_engine_%s_inplace" % f)
    def _(c, kind=kind, ci=ci):
        k = "RC"[ci]; n = c.int("n", 1, MAX)
        x, x2 = c.inout("x", n, k), c.inout("x2", n, k)
        s, s2 = c.output("s", n, k), c.output("s2", n, k); a, a2 = c.input("a", n, k), c.input("a2", n, k); w = c.output("w", I(7), "L")
        c.call(x, x2, n, s, s2, a, a2, w)
        plan(c, w, n, kind, 2, 1)
        for l, X, S, A in (("first", x, s, a), ("second", x2, s2, a2)):
            same(c, "the %s input reaches the back end" % l, n, S, X, cplx=ci)
            same(c, "the %s output is the back end's" % l, n, X, A, cplx=ci)
for f, cplx, times in (("scale", 0, 1), ("cscale", 1, 1), ("dscale", 0, 2)):
    @contract("I01", H, "h_engine_" + f)
    def _(c, cplx=cplx, times=times):
        n = c.int("n", 1, MAX); y = c.inout("y", n, "RC"[cplx])
        c.call(n, y)
        same(c, "every sample is divided by the scale", n, y, y, lambda p, v: v / toreal(times * n), cplx=cplx)
@contract("I01", H, "get_fft_size")
def _(c):
    n = c.int("n", 0, 2**31 - 1); c.call(n); c.ensures("half the length plus one", lambda p: and_(le(2 * p.ret - 2, n), le(n, 2 * p.ret - 1)))
@contract("I01", H, "get_ifft_size")
def _(c):
    n = c.int("n", 1, MAX); c.call(n); c.returns(2 * n - 2)
