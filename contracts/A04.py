from vcg.contract import *
U = "REPO/bindings/c/src/algorithm.c"
H = "H/algorithm.cpp"
def grid(x1, x2, n, k): return x1 + toreal(k) * (x2 - x1) / toreal(n - 1)

@contract("A04", U, "array_linspace")
def _(c):
    n = c.size("n", 2); y = c.output("y", n); a, b = c.real("a"), c.real("b")
    c.call(y, n, a, b)
    c.ensures_all("k-th grid point", 0, n, lambda p, k: eq(p.get(y, k), grid(a, b, n, k)))
    c.ensures("first point", lambda p: eq(p.get(y, 0), a)); c.ensures("last point", lambda p: eq(p.get(y, n - 1), b))

@contract("A04", U, "array_logspace")
def _(c):
    n = c.size("n", 2); y = c.output("y", n); a, b = c.real("a"), c.real("b")
    c.call(y, n, a, b)
    c.ensures_all("k-th grid point", 0, n, lambda p, k: eq(p.get(y, k), fn("pow", num(10), grid(a, b, n, k))))
    c.ensures("first point", lambda p: eq(p.get(y, 0), fn("pow", num(10), a))); c.ensures("last point", lambda p: eq(p.get(y, n - 1), fn("pow", num(10), b)))

from contracts.scales import *
for f, sc in (("mel", hz2mel), ("bark", hz2bark), ("erb", hz2erb), ("cent", hz2cent)):
    @contract("A04", H, "h_%sspace" % f, f + "space")
    def _(c, sc=sc):
        n = c.size("n", 2); y = c.output("y", n); a, b = c.real("a"), c.real("b")
        c.requires(lt(ZERO, a)); c.requires(lt(ZERO, b))
        c.call(y, n, a, b)
        c.ensures_all("k-th point is the scale of the k-th frequency of the linear grid", 0, n, lambda p, k: eq(p.get(y, k), sc(grid(a, b, n, k))),
                      using=[lambda p, k: le(ZERO, a * toreal(n - 1 - k)), lambda p, k: le(ZERO, b * toreal(k)), lambda p, k: lt(ZERO, a * toreal(n - 1 - k) + b * toreal(k)),
                             lambda p, k: eq(grid(a, b, n, k), (a * toreal(n - 1 - k) + b * toreal(k)) / toreal(n - 1)), lambda p, k: lt(ZERO, grid(a, b, n, k))])
        c.ensures("first point", lambda p: eq(p.get(y, 0), sc(a))); c.ensures("last point", lambda p: eq(p.get(y, n - 1), sc(b)))
