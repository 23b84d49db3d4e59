from vcg.contract import *
H = "H/spectral.cpp"
N = toreal
S = lambda n, f: Sum(0, n, f)
mag = lambda v: fn("fabs", v)
def feat(fns, spec, lo=1, second=False, pos=True, req=None):
    for f in fns:
        @contract("D04", H, f)
        def _(c):
            n = c.int("n", lo, 2**40); x = c.input("x", n)
            w = c.input("w", n) if second else None
            if pos: c.requires_all(0, n, lambda i: lt(ZERO, x(i)))
            if pos and second: c.requires_all(0, n, lambda i: lt(ZERO, w(i)))
            if req: req(c, x, w, n)
            if second: c.call(x, n, w)
            else: c.call(x, n)
            c.ensures("the value is the formula", lambda p: spec(p.ret, x, w, n))
log2 = lambda v: fn("log2", v)
for f in ("h_crest", "h_spectral_crest"):
    @contract("D04", H, f)
    def _(c):
        n = c.int("n", 1, 2**40); x = c.input("x", n); j = c.int("j", 0, 2**40)
        c.requires(lt(j, n)); c.requires(ne(x(j), ZERO))
        c.requires_all(0, n, lambda i: le(mag(x(i)), mag(x(j))))          # j holds a sample of largest magnitude
        c.sum_at_least(n, lambda i: mag(x(i)), [j])
        c.call(x, n)
        c.ensures("largest magnitude over the sum of magnitudes", lambda p: eq(p.ret * S(n, lambda i: mag(x(i))), mag(x(j))))
feat(["h_flatness", "h_spectral_flatness"], lambda r, x, w, n: eq(r * S(n, x) / N(n), fn("exp", S(n, lambda i: fn("ln", x(i))) / N(n))))
feat(["h_entropy"], lambda r, x, w, n: eq(r * log2(N(n)), -S(n, lambda i: x(i) * log2(x(i)))), lo=2)
feat(["h_spectral_entropy"], lambda r, x, w, n: eq(r * log2(N(n)), -S(n, lambda i: x(i) / S(n, x) * log2(x(i) / S(n, x)))), lo=2)
def nonzero(c, x, w, n): c.requires(ne(S(n, x), ZERO)); c.requires(ne(S(n, w), ZERO))
def nowhere(c, x, w, n):
    nonzero(c, x, w, n)
    c.requires_all(0, n, lambda i: ne(x(i), ZERO)); c.requires_all(0, n, lambda i: ne(w(i), ZERO))
feat(["h_flux_manhattan"], lambda r, x, w, n: eq(r, S(n, lambda i: mag(x(i) / S(n, x) - w(i) / S(n, w)))), second=True, pos=False, req=nonzero)
feat(["h_flux_euclidean"], lambda r, x, w, n: eq(r, S(n, lambda i: ipow(x(i) / S(n, x) - w(i) / S(n, w), 2))), second=True, pos=False, req=nonzero)
feat(["h_flux_logarithmic"], lambda r, x, w, n: eq(r, S(n, lambda i: fn("ln", mag(x(i) / S(n, x)) / mag(w(i) / S(n, w))))), second=True, pos=False, req=nowhere)
feat(["h_spectral_flux"], lambda r, x, w, n: eq(r, S(n, lambda i: FLUX(x(i) / S(n, x), w(i) / S(n, w)))), second=True, pos=False, req=nonzero)
FLUX = lambda a, b: ipow(a - b, 2)
feat(["h_variation", "h_spectral_variation"], lambda r, x, w, n: eq((ONE - r) * fn("sqrt", S(n, x)) * fn("sqrt", S(n, w)), S(n, lambda i: x(i) * w(i))), second=True)
def irr_ok(c, x, w, n): c.requires(ne(Sum(0, n - I(1), lambda i: x(i) * x(i)), ZERO))
feat(["h_irregularity"], lambda r, x, w, n: eq(r * Sum(0, n - I(1), lambda i: x(i) * x(i)), Sum(0, n - I(1), lambda i: ipow(x(i + I(1)) - x(i), 2))), lo=2, pos=False, req=irr_ok)
