from vcg.contract import *
from vcg.term import toreal
H = "H/median.cpp"
C = "REPO/bindings/c/src/statistics.c"
BIG = 2**28
collection = lambda lo, hi, f: Sum(lo, hi, lambda i: app("item", f(i), s="R"))
order = lambda k, c: app("order", k, c, s="R")
def median(r, n, c):
    h = idiv(n, 2)
    return eq(r, ite(eq(n, scale(h, 2)), (order(h - 1, c) + order(h, c)) / 2, order(h, c)))
for u, f, cap, io in ((H, "h_median", BIG, "input"), (H, "h_median_once", BIG, "inout"), (C, "median", 2**28, "input")):
    @contract("C03", u, f)
    def _(c):
        n = c.int("n", 1, cap); x = getattr(c, io)("x", n); c.call(x, n)
        c.ensures("the middle of the ordered samples", lambda p: median(p.ret, n, collection(0, n, x)))
        if io == "inout": c.ensures_all("the signal is unchanged", 0, n, lambda p, i: eq(p.get(x, i), x(i)))
@contract("C03", H, "h_median_ring")
def _(c):
    n, f = c.int("n", 1, BIG), c.int("f", 0, BIG); x = c.input("x", n + f); c.requires(lt(f, n)); c.call(x, n, f)
    c.gen(lambda rng, env: env.update(f=env["f"] % env["n"]))
    c.ensures("the middle of the ordered samples", lambda p: median(p.ret, n, collection(f, n + f, x)))
window = lambda n, g, x: Sum(0, n, lambda j: app("item", ite(lt(j, n - g), ZERO, x(j - (n - g))), s="R"))       # n - g zeros and then g inputs
window2 = lambda n, at: Sum(0, n, lambda j: app("item", at(j), s="R"))
@contract("C03", H, "h_med_one")
def _(c):
    n, v = c.int("n", 1, BIG), c.real("v"); c.call(n, v)
    c.ensures("median over the window", lambda p: median(p.ret, n, window(n, I(1), lambda j: v)))
@contract("C03", H, "h_med_two")
def _(c):
    n, v, w = c.int("n", 1, BIG), c.real("v"), c.real("w"); c.call(n, v, w)
    at = lambda j: ite(eq(j, n - 1), w, ite(eq(j, n - 2), v, ZERO))
    c.ensures("median over the window", lambda p: median(p.ret, n, window2(n, at)))
@contract("C03", H, "h_med_reset_one")
def _(c):
    n, v, w = c.int("n", 1, BIG), c.real("v"), c.real("w"); c.call(n, v, w)
    c.ensures("median over a fresh window", lambda p: median(p.ret, n, window(n, I(1), lambda j: w)))
@contract("C03", H, "h_med_resized_one")
def _(c):
    n, m, v, w = c.int("n", 1, BIG), c.int("m", 1, BIG), c.real("v"), c.real("w"); c.call(n, m, v, w)
    c.ensures("median over a fresh window of the new length", lambda p: median(p.ret, m, window(m, I(1), lambda j: w)))
for f in ("h_med_size", "h_med_reset_size"):
    @contract("C03", H, f)
    def _(c):
        n = c.int("n", 1, BIG); c.call(n)
        c.ensures("the window keeps its length", lambda p: eq(p.ret, n))
@contract("C03", H, "h_med_resized")
def _(c):
    n, m = c.int("n", 1, BIG), c.int("m", 1, BIG); c.call(n, m)
    c.ensures("the window has the new length", lambda p: eq(p.ret, m))
