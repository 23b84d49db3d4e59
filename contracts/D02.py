from vcg.contract import *
H = "H/temporal.cpp"
N = toreal
for f, g in (("h_amdf", lambda d: fn("fabs", d)), ("h_asdf", lambda d: d * d)):
    @contract("D02", H, f)
    def _(c, g=g):
        n = c.size("n", 1); x = c.input("x", n); y = c.output("y", n)
        c.call(x, n, y)
        c.ensures_all("one value per lag: summed difference over the length", 0, n, lambda p, k: eq(p.get(y, k) * N(n), Sum(0, n - k, lambda j: g(x(j) - x(j + k)))))
sg = lambda v: ite(lt(v, ZERO), num(-1), ONE)
@contract("D02", H, "h_azcr")
def _(c):
    n = c.int("n", 2, 2**40); x = c.input("x", n)
    c.call(x, n)
    c.ensures("sign changes over n-1", lambda p: eq(p.ret * N(n - I(1)), Sum(0, n - I(1), lambda j: ite(eq(sg(x(j)), sg(x(j + I(1)))), ZERO, ONE))))
var_ = lambda f, n: Sum(0, n, lambda i: ipow(f(i) - Sum(0, n, f) / N(n), 2)) / N(n)
@contract("D02", H, "h_snr")
def _(c):
    n = c.size("n", 1); x = c.input("x", n); r = c.input("r", n)
    j, k, l, m = [c.int(v, 0, 2**31 - 1) for v in "jklm"]
    for v in (j, k, l, m): c.requires(lt(v, n))
    d = lambda i: x(i) - r(i)
    for f, a, b in ((x, j, k), (d, l, m)):
        c.requires(lt(f(a), f(b))); mu = Sum(0, n, f) / N(n)
        c.sum_at_least(n, lambda i: ipow(f(i) - mu, 2), [a, b]); c.have("variance is positive", lt(ZERO, var_(f, n)))
    c.call(x, n, r)
    c.ensures("level of the variance ratio", lambda p: eq(p.ret, num(10) * fn("log10", var_(x, n) / var_(d, n))))
