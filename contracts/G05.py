from vcg.contract import *
H = "H/moving.cpp"
BIG = 2**28
from vcg.term import toreal as N
def spec(kind, x, n, lo, hi):
    """summary, over a window of n, of the inputs lo..hi-1; earlier ones count as zero"""
    m = Sum(lo, hi, (lambda i: x(i)) if kind == "avg" else lambda i: x(i) * x(i)) / N(n)
    return m if kind == "avg" else fn("sqrt", m)
LAPS = "histories of at most 3N inputs since construction, reset or resize"
for kind in ("avg", "rms"):
    def one(f, body, bounded=None, kind=kind):
        @contract("G05", H, "h_%s_%s" % (kind, f), bounded=bounded)
        def _(c):
            body(c, lambda *a: spec(kind, *a))
            if kind == "rms": c.abstol = 1e-5
    def size(c, s): n = c.int("n", 1, BIG); c.call(n); c.returns(n)
    def resized(c, s): n, m = c.int("n", 1, BIG), c.int("m", 1, BIG); c.call(n, m); c.returns(m)
    one("size", size); one("reset_size", size); one("resized", resized)
    def within(rng, env): env["g"] %= env["n"] + 1
    def first(c, s):
        n, g = c.int("n", 1, BIG), c.int("g", 0, BIG); x, y = c.input("x", g), c.output("y", g); c.requires(le(g, n)); c.gen(within)
        c.call(n, x, g, y); c.ensures_all("summary of all inputs so far", 0, g, lambda p, i: eq(p.get(y, i), s(x, n, 0, i + 1)))
    one("first", first); one("block", first)
    def inplace(c, s):
        n, g = c.int("n", 1, BIG), c.int("g", 0, BIG); x = c.inout("x", g); c.requires(le(g, n)); c.gen(within)
        c.call(n, x, g); c.ensures_all("summary of all inputs so far", 0, g, lambda p, i: eq(p.get(x, i), s(x, n, 0, i + 1)))
    one("inplace", inplace)
    def blocks(c, s):
        n, m, g = c.int("n", 1, BIG), c.int("m", 0, BIG), c.int("g", 0, BIG); x, y = c.input("x", g), c.output("y", g); c.requires(le(g, n)); c.requires(le(m, g))
        c.gen(lambda rng, env: (within(rng, env), env.update(m=env["m"] % (env["g"] + 1))))
        c.call(n, x, m, g, y); c.ensures_all("summary of all inputs so far", 0, g, lambda p, i: eq(p.get(y, i), s(x, n, 0, i + 1)))
    one("blocks", blocks)
    def laps(k):
        def body(c, s):
            n, g = c.int("n", 1, BIG), c.int("g", 0, BIG); x, y = c.input("x", k * n + g), c.output("y", k * n + g); c.requires(le(g, n)); c.gen(within)
            c.call(n, x, g, y)
            c.ensures_all("before the window is full", 0, n, lambda p, i: eq(p.get(y, i), s(x, n, 0, i + 1)))
            c.ensures_all("summary of the last N inputs", n, k * n + g, lambda p, i: eq(p.get(y, i), s(x, n, i + 1 - n, i + 1)))
        return body
    one("second", laps(1)); one("third", laps(2), LAPS)
    def again(c, s, n, k, x, m, g, y):
        c.ensures_all("before", 0, m, lambda p, i: eq(p.get(y, i), s(x, n, 0, i + 1)))
        c.ensures_all("a fresh window", m, m + g, lambda p, i: eq(p.get(y, i), s(x, k, m, i + 1)))
    def reset(c, s):
        n, m, g = c.int("n", 1, BIG), c.int("m", 0, BIG), c.int("g", 0, BIG); x, y = c.input("x", m + g), c.output("y", m + g); c.requires(le(m, n)); c.requires(le(g, n))
        c.gen(lambda rng, env: (within(rng, env), env.update(m=env["m"] % (env["n"] + 1)))); c.call(n, x, m, g, y); again(c, s, n, n, x, m, g, y)
    one("reset", reset)
    def resize(c, s):
        n, m, k, g = c.int("n", 1, BIG), c.int("m", 0, BIG), c.int("k", 1, BIG), c.int("g", 0, BIG); x, y = c.input("x", m + g), c.output("y", m + g); c.requires(le(m, n)); c.requires(le(g, k))
        c.gen(lambda rng, env: env.update(m=env["m"] % (env["n"] + 1), g=env["g"] % (env["k"] + 1))); c.call(n, x, m, k, g, y); again(c, s, n, k, x, m, g, y)
    one("resize", resize)
