from vcg.contract import *
U = "REPO/bindings/c/src/algorithm.c"
H = "H/algorithm.cpp"

@contract("A02", U, "array_concatenate")
def _(c):
    n, m = c.size("n"), c.size("m"); c.requires(le(n + m, I(2**31 - 1)))
    a, b = c.input("a", n), c.input("b", m); y = c.output("y", n + m)
    c.call(a, n, b, m, y)
    c.ensures_all("the first signal comes first", 0, n, lambda p, i: eq(p.get(y, i), a(i)))
    c.ensures_all("the second follows immediately", 0, m, lambda p, i: eq(p.get(y, n + i), b(i)))

@contract("A02", U, "array_padder")
def _(c):
    n, m = c.size("n"), c.size("m"); c.requires(le(n, m))
    x = c.input("x", n); y = c.output("y", m)
    c.call(x, n, y, m)
    c.ensures_all("the input is copied", 0, n, lambda p, i: eq(p.get(y, i), x(i)))
    c.ensures_all("the rest is zero", n, m, lambda p, i: eq(p.get(y, i), ZERO))

for _ip in (False, True):
    @contract("A02", H, "h_derivative", "derivative" + (" in place" if _ip else ""))
    def _(c, ip=_ip):
        n = c.size("n")
        x = (c.inout if ip else c.input)("x", n); y = x if ip else c.output("y", n)
        c.call(x, n, y)
        c.ensures_all("first sample, then differences", 0, n, lambda p, i: eq(p.get(y, i), ite(eq(i, I(0)), x(I(0)), x(i) - x(i - 1))))
