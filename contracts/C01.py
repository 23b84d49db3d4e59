from vcg.contract import *
U = "REPO/bindings/c/src/statistics.c"
def stat(fn_, spec, req=None, name=None, extra=()):
    @contract("C01", U, fn_, name)
    def _(c):
        n = c.size("n", 1); x = c.input("x", n)
        if req: req(c, x, n)
        c.call(x, n, *extra)
        c.ensures("the value is the mathematical definition", lambda p: spec(p.ret, x, n))
N = toreal
mean = lambda x, n: Sum(0, n, lambda i: x(i)) / N(n)
def moment(x, n, k):
    m = mean(x, n)
    return Sum(0, n, lambda i: ipow(x(i) - m, k)) / N(n)
def positive(c, x, n): c.requires_all(0, n, lambda i: lt(ZERO, x(i)))
def varied(c, x, n):
    j = c.int("j", 0, 2**31 - 1); k = c.int("k", 0, 2**31 - 1)
    c.requires(lt(j, n)); c.requires(lt(k, n)); c.requires(lt(x(j), x(k)))
    m = mean(x, n)
    c.sum_at_least(n, lambda i: ipow(x(i) - m, 2), [j, k])
    c.have("a non-constant signal has positive variance", lt(ZERO, moment(x, n, 2)))
def nonzero(c, x, n):
    c.requires_all(0, n, lambda i: ne(x(i), ZERO)); c.requires(ne(Sum(0, n, lambda i: ONE / x(i)), ZERO))
stat("mean", lambda r, x, n: eq(r, mean(x, n)))
stat("geometric_mean", lambda r, x, n: eq(r, fn("exp", Sum(0, n, lambda i: fn("ln", x(i))) / N(n))), positive)
stat("harmonic_mean", lambda r, x, n: eq(r, N(n) / Sum(0, n, lambda i: ONE / x(i))), positive)
stat("norm", lambda r, x, n: eq(r, fn("sqrt", Sum(0, n, lambda i: x(i) * x(i)))))
stat("variance", lambda r, x, n: eq(r, moment(x, n, 2)))
stat("standard_deviation", lambda r, x, n: eq(r, fn("sqrt", moment(x, n, 2))))
stat("skewness", lambda r, x, n: eq(r * ipow(fn("sqrt", moment(x, n, 2)), 3), moment(x, n, 3)), varied)
stat("kurtosis", lambda r, x, n: eq(r * ipow(moment(x, n, 2), 2), moment(x, n, 4)), varied)
for k in range(1, 9): stat("moment", lambda r, x, n, k=k: eq(r, moment(x, n, k)), name="moment of order %d" % k, extra=(I(k),))
powers = lambda x, n, b: Sum(0, n, lambda i: fn("pow", x(i), N(b)))
def power_mean(name, lo, hi, req):
    @contract("C01", U, "generalized_mean", name)
    def _(c):
        n = c.size("n", 1); x = c.input("x", n); b = c.int("beta", lo, hi)
        req(c, x, n, b)
        c.call(x, n, b)
        c.ensures("the value is the mathematical definition", lambda p: eq(p.ret, fn("pow", powers(x, n, b) / N(n), ONE / N(b))))
power_mean("generalized_mean of positive samples", 1, 1000, lambda c, x, n, b: positive(c, x, n))
power_mean("generalized_mean of negative order", -1000, -1, lambda c, x, n, b: positive(c, x, n))
power_mean("generalized_mean of any samples", 1, 1000, lambda c, x, n, b: c.requires(le(ZERO, powers(x, n, b))))
