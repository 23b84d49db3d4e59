from vcg.contract import *
H = "H/spectral.cpp"
N = toreal
S = lambda n, f: Sum(0, n, f)
def feat(fns, spec, lo=2, second=False, pos=True, req=None):
    for f in fns:
        @contract("D03", H, f)
        def _(c):
            n = c.int("n", lo, 2**40); x = c.input("x", n)
            w = c.input("w", n) if second else None
            if pos: c.requires_all(0, n, lambda i: lt(ZERO, x(i)))
            if req: req(c, x, w, n)
            if second: c.call(x, n, w)
            else: c.call(x, n)
            c.ensures("the value is the formula", lambda p: spec(p.ret, x, w, n))
idx = lambda i: N(i)
mu0 = lambda x, n: S(n, lambda i: idx(i) * x(i)) / S(n, x)
mu1 = lambda x, w, n: S(n, lambda i: w(i) * x(i)) / S(n, x)
nz = lambda c, x, w, n: c.requires(ne(S(n, x), ZERO))
feat(["h_centroid"], lambda r, x, w, n: eq(r * S(n, x), S(n, lambda i: idx(i) * x(i))), lo=1, pos=False, req=nz)
feat(["h_weighted_centroid", "h_spectral_centroid"], lambda r, x, w, n: eq(r * S(n, x), S(n, lambda i: w(i) * x(i))), lo=1, second=True, pos=False, req=nz)
def sq(r, v): return and_(le(ZERO, r), eq(r * r, v))
feat(["h_spread"], lambda r, x, w, n: sq(r, S(n, lambda i: ipow(idx(i) - mu0(x, n), 2) * x(i)) / S(n, x)))
feat(["h_weighted_spread", "h_spectral_spread"], lambda r, x, w, n: sq(r, S(n, lambda i: ipow(w(i) - mu1(x, w, n), 2) * x(i)) / S(n, x)), second=True)
def slope_ok(c, x, w, n): c.requires(ne(S(n, x), ZERO)); c.requires(ne(N(n) * S(n, lambda i: w(i) * w(i)) - S(n, w) * S(n, w), ZERO))
feat(["h_slope", "h_spectral_slope"], lambda r, x, w, n: eq(r * S(n, x) * (N(n) * S(n, lambda i: w(i) * w(i)) - S(n, w) * S(n, w)), N(n) * S(n, lambda i: w(i) * x(i)) - S(n, w) * S(n, x)), second=True, pos=False, req=slope_ok)
def dec_ok(c, x, w, n): c.requires(ne(Sum(1, n, x), ZERO))
feat(["h_decrease", "h_spectral_decrease"], lambda r, x, w, n: eq(r * Sum(1, n, x), Sum(0, n - I(1), lambda i: (x(i + I(1)) - x(0)) / idx(i + I(1)))), pos=False, req=dec_ok)
