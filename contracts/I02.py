from vcg.contract import *
from contracts.I01 import H, FORWARD, BACKWARD, R2C, C2R, plan, same
MAX = 2**28
def ends(c, w, plans, runs):
    c.ensures("no plan is misused", lambda p: eq(p.get(w, 0), I(0)))
    c.ensures("plans are created and destroyed once per engine", lambda p: and_(eq(p.get(w, 1), I(plans)), eq(p.get(w, 2), I(plans))))
    c.ensures("transforms executed", lambda p: eq(p.get(w, 5), I(runs)))
    c.ensures("planning leaves the buffers alone", lambda p: eq(p.get(w, 6), I(0)))
def padded(c, which, n, s, x):
    c.ensures_all("the %s transform sees the signal first" % which, 0, n, lambda p, i: eq(p.get(s, i), x(i)))
    c.ensures_all("the %s transform sees zeros after it" % which, n, 2 * n, lambda p, i: eq(p.get(s, i), ZERO))
NONE, BIASED, UNBIASED = 0, 1, 2
def leading(c, n, z, a, scale=None):
    terms = (lambda i: ONE) if scale is None else lambda i: toreal(ite(eq(scale, I(BIASED)), n, ite(eq(scale, I(UNBIASED)), n - i, I(1))))
    c.ensures_all("the output is the leading part of the inverse, over the transform length", 0, n, lambda p, i: eq(p.get(z, i) * terms(i), a(i) / toreal(2 * n)))
for f, sgn in (("conv", 1), ("xcorr", -1), ("xcorr_scaled", -1)):
    @contract("I02", H, "h_" + f)
    def _(c, f=f, sgn=sgn):
        n = c.int("n", 1, MAX); x, y = c.input("x", n), c.input("y", n); z = c.output("z", n)
        s0, s1, s2 = c.output("s0", 2 * n), c.output("s1", 2 * n), c.output("s2", n + 1, "C")
        a0, a1, a2 = c.input("a0", n + 1, "C"), c.input("a1", n + 1, "C"), c.input("a2", 2 * n); w = c.output("w", I(7), "L")
        scale = c.int("scale", 0, 2) if f == "xcorr_scaled" else None
        c.call(x, y, n, *([scale] if scale is not None else []), z, s0, s1, s2, a0, a1, a2, w); ends(c, w, 2, 3)
        padded(c, "first", n, s0, x); padded(c, "second", n, s1, y)
        g = R(sgn)
        c.ensures_all("the inverse transform sees the product of the spectra", 0, n + 1, lambda p, i: and_(
            eq(p.re(s2, i), a0.re(i) * a1.re(i) - g * a0.im(i) * a1.im(i)), eq(p.im(s2, i), a0.im(i) * a1.re(i) + g * a0.re(i) * a1.im(i))))
        leading(c, n, z, a2, scale)
def one(f, mid):
    @contract("I02", H, "h_" + f)
    def _(c):
        n = c.int("n", 1, MAX); x = c.input("x", n); z = c.output("z", n)
        s0, s1 = c.output("s0", 2 * n), c.output("s1", n + 1, "C"); a0, a1 = c.input("a0", n + 1, "C"), c.input("a1", 2 * n); w = c.output("w", I(7), "L")
        if f == "cepstrum": c.requires_all(0, n + 1, lambda i: lt(ZERO, a0.re(i) * a0.re(i) + a0.im(i) * a0.im(i)))
        scale = c.int("scale", 0, 2) if f == "autocorr_scaled" else None
        c.call(x, n, *([scale] if scale is not None else []), z, s0, s1, a0, a1, w); ends(c, w, 2, 2)
        padded(c, "forward", n, s0, x)
        c.ensures_all("what the inverse transform sees", 0, n + 1, lambda p, i: and_(eq(p.re(s1, i), mid(a0.re(i), a0.im(i))), eq(p.im(s1, i), ZERO)))
        leading(c, n, z, a1, scale)
one("autocorr", lambda re, im: re * re + im * im)
one("autocorr_scaled", lambda re, im: re * re + im * im)
one("cepstrum", lambda re, im: fn("ln", fn("sqrt", re * re + im * im)))
@contract("I02", H, "h_spectrum")
def _(c):
    n, h = c.int("n", 1, MAX), c.int("h", 1, MAX); c.requires(le(2 * h - 2, n)); c.requires(le(n, 2 * h - 1))
    c.derive("h", lambda env: env["n"] // 2 + 1)
    x = c.input("x", n); z = c.output("z", h); s = c.output("s", n); a = c.input("a", h, "C"); w = c.output("w", I(7), "L")
    c.call(x, n, z, s, a, w); ends(c, w, 1, 1)
    same(c, "the transform sees the signal", n, s, x)
    c.ensures_all("squared magnitudes", 0, h, lambda p, i: eq(p.get(z, i), a.re(i) * a.re(i) + a.im(i) * a.im(i)))
for par in (0, 1):
    @contract("I02", H, "h_hilbert", name="h_hilbert: %s length" % ("odd" if par else "even"))
    def _(c, par=par):
        m = c.int("m", 0 if par else 1, MAX // 2); n = 2 * m + par
        x = c.input("x", n); z = c.output("z", n, "C"); s0, s1 = c.output("s0", n, "C"), c.output("s1", n, "C"); a0, a1 = c.input("a0", n, "C"), c.input("a1", n, "C"); w = c.output("w", I(7), "L")
        c.call(x, n, z, s0, s1, a0, a1, w); ends(c, w, 2, 2)
        c.ensures_all("the forward transform sees the signal", 0, n, lambda p, i: and_(eq(p.re(s0, i), x(i)), eq(p.im(s0, i), ZERO)))
        gain = lambda i: ite(eq(i, I(0)), R(1), ite(lt(2 * i, n), R(2), ite(eq(2 * i, n), R(1), ZERO)))
        c.ensures_all("positive frequencies doubled, negative zeroed", 0, n, lambda p, i: and_(eq(p.re(s1, i), gain(i) * a0.re(i)), eq(p.im(s1, i), gain(i) * a0.im(i))))
        same(c, "the output is the inverse, over the length", n, z, a1, lambda p, v: v / toreal(n), cplx=True)
