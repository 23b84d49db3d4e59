from vcg.contract import *
U = "REPO/bindings/c/src/statistics.c"
mag = lambda v: fn("fabs", v)
def ext(fn_, f, rel, first=None):
    @contract("C02", U, fn_)
    def _(c):
        n = c.size("n", 1); x = c.input("x", n); c.call(x, n)
        c.ensures_all("no sample goes beyond the returned value", 0, n, lambda p, i: rel(f(x(i)), p.ret))
        c.ensures_exists("some sample attains it", 0, n, lambda p, i: eq(f(x(i)), p.ret))
ext("max", lambda v: v, le); ext("min", lambda v: v, ge); ext("max_abs", mag, le); ext("min_abs", mag, ge)
def peak(fn_, f):
    @contract("C02", U, fn_)
    def _(c):
        n = c.size("n", 1); x = c.input("x", n); c.call(x, n)
        k = lambda p: p.field(0)
        c.ensures("the index lies in the signal", lambda p: and_(le(I(0), k(p)), lt(k(p), n)))
        c.ensures("the value is the sample at the index", lambda p: eq(p.field(1), x(k(p))))
        c.ensures_all("no sample exceeds it", 0, n, lambda p, i: le(f(x(i)), f(x(k(p)))))
        c.ensures_all("every earlier sample is below it", 0, n, lambda p, i: implies(lt(i, k(p)), lt(f(x(i)), f(x(k(p))))))
peak("peak", lambda v: v); peak("peak_abs", mag)
@contract("C02", "REPO/bindings/c/src/converter.cpp", "peak2peak")
def _(c):
    n = c.int("n", 1, 2**40); x = c.input("x", n); j = c.int("j", 0, 2**40); k = c.int("k", 0, 2**40)
    c.requires(lt(j, n)); c.requires(lt(k, n))
    c.requires_all(0, n, lambda i: and_(le(x(i), x(j)), le(x(k), x(i))))       # j and k hold a largest and a smallest sample
    c.call(x, n)
    c.ensures("the value is at least maximum minus minimum", lambda p: le(x(j) - x(k), p.ret))
    c.ensures("the value is at most maximum minus minimum", lambda p: le(p.ret, x(j) - x(k)))
