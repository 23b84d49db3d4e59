from vcg.contract import *
H = "H/temporal.cpp"
N = toreal
energy = lambda x, n: Sum(0, n, lambda i: x(i) * x(i))
def feat(fn_, spec, req=None, extra=(), unit=H, name=None):
    @contract("D01", unit, fn_, name)
    def _(c):
        n = c.int("n", 1, 2**40); x = c.input("x", n); ps = [c.real(e) for e in extra]
        if req: req(c, x, n)
        c.call(x, n, *ps)
        c.ensures("the value is the definition", lambda p: spec(p.ret, x, n, *ps))
def sounding(c, x, n):
    k = c.int("k", 0, 2**40); c.requires(lt(k, n)); c.requires(ne(x(k), ZERO))
    c.sum_at_least(n, lambda i: x(i) * x(i), [k])
feat("h_energy", lambda r, x, n: eq(r, energy(x, n)))
feat("h_power", lambda r, x, n: eq(r, energy(x, n) / N(n)))
feat("h_rms", lambda r, x, n: eq(r, fn("sqrt", energy(x, n) / N(n))))
feat("h_rssq", lambda r, x, n: eq(r, fn("sqrt", energy(x, n))))
feat("h_leq", lambda r, x, n: eq(r, num(10) * fn("log10", energy(x, n) / N(n))), sounding)
for f in ("h_duration",):
    @contract("D01", H, f)
    def _(c):
        n = c.int("n", 0, 2**40); x = c.input("x", n); fs = c.real("fs"); c.requires(lt(ZERO, fs)); c.call(x, n, fs)
        c.ensures("length over sample rate", lambda p: eq(p.ret, N(n) / fs))
@contract("D01", H, "h_effective_duration")
def _(c):
    n = c.int("n", 1, 2**40); x = c.input("x", n); fs = c.real("fs"); th = c.real("threshold")
    k = c.int("k", 0, 2**40); c.requires(lt(k, n)); c.requires(lt(ZERO, fs))
    c.requires_all(0, n, lambda i: le(fn("fabs", x(i)), fn("fabs", x(k))))        # k holds a sample of largest magnitude
    c.call(x, n, fs, th)
    c.ensures("counts exactly the samples above the relative threshold", lambda p: eq(p.ret * fs, Sum(0, n, lambda i: ite(lt(th * fn("fabs", x(k)), fn("fabs", x(i))), ONE, ZERO))))
@contract("D01", "REPO/bindings/c/src/converter.cpp", "peak2rms")
def _(c):
    n = c.int("n", 1, 2**40); x = c.input("x", n); j = c.int("j", 0, 2**40)
    c.requires(lt(j, n)); c.requires(ne(x(j), ZERO))
    c.requires_all(0, n, lambda i: le(fn("fabs", x(i)), fn("fabs", x(j))))
    c.sum_at_least(n, lambda i: x(i) * x(i), [j])
    c.call(x, n)
    c.ensures("largest magnitude over RMS", lambda p: eq(p.ret * fn("sqrt", energy(x, n) / N(n)), fn("fabs", x(j))))
