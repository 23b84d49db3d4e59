from vcg.contract import *
U = "REPO/bindings/c/src/converter.cpp"
big = 2**40
@contract("B03", U, "real2complex")
def _(c):
    n = c.int("n", 0, big); x = c.input("x", n); z = c.output("z", n, "C")
    c.call(x, n, z)
    c.ensures_all("the sample becomes the real part, with zero imaginary part", 0, n, lambda p, i: and_(eq(p.re(z, i), x(i)), eq(p.im(z, i), ZERO)))
@contract("B03", U, "ri2complex")
def _(c):
    n = c.int("n", 0, big); x = c.input("x", n); y = c.input("y", n); z = c.output("z", n, "C")
    c.call(x, y, n, z)
    c.ensures_all("each output holds the given parts", 0, n, lambda p, i: and_(eq(p.re(z, i), x(i)), eq(p.im(z, i), y(i))))
@contract("B03", U, "complex2real")
def _(c):
    n = c.int("n", 0, big); z = c.input("z", n, "C"); x = c.output("x", n); y = c.output("y", n)
    c.call(z, n, x, y)
    c.ensures_all("real parts in order", 0, n, lambda p, i: eq(p.get(x, i), z.re(i)))
    c.ensures_all("imaginary parts in order", 0, n, lambda p, i: eq(p.get(y, i), z.im(i)))
