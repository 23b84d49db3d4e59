from vcg.contract import *
U = "REPO/bindings/c/src/algorithm.c"
H = "H/algorithm.cpp"

def found_first(c, x, n, v):
    c.ensures("the result is -1 or an index", lambda p: and_(le(I(-1), p.ret), lt(p.ret, n)))
    c.ensures("an index holds the value", lambda p: or_(lt(p.ret, I(0)), eq(x(p.ret), v)))
    c.ensures_all("no earlier sample (none at all on a miss) holds the value", 0, n, lambda p, i: or_(ne(x(i), v), and_(le(I(0), p.ret), le(p.ret, i))))

for f in ("index_of", "linear_search"):
    @contract("A03", U, f)
    def _(c):
        n = c.size("n"); x = c.input("x", n); v = c.real("v")
        c.call(x, n, v); found_first(c, x, n, v)

@contract("A03", U, "binary_search")
def _(c):
    n = c.size("n"); x = c.input("x", n); v = c.real("v")
    # what sortedness provides: first the samples below the value, then those equal to it (from k), then those above (from k2)
    k, k2 = c.int("k", 0, 2**31 - 1), c.int("k2", 0, 2**31 - 1); c.requires(le(k, k2)); c.requires(le(k2, n))
    c.requires_all(0, k, lambda i: lt(x(i), v)); c.requires_all(k, k2, lambda i: eq(v, x(i))); c.requires_all(k2, n, lambda i: lt(v, x(i)))
    def g(rng, env):
        import bisect
        env["x"].sort()
        if env["x"] and rng.random() < 0.7: env["v"] = rng.choice(env["x"])
        env["k"] = bisect.bisect_left(env["x"], env["v"]); env["k2"] = bisect.bisect_right(env["x"], env["v"])
    c.gen(g)
    c.call(x, n, v); found_first(c, x, n, v)

@contract("A03", U, "contains")
def _(c):
    n = c.size("n"); x = c.input("x", n); v = c.real("v")
    c.call(x, n, v)
    c.ensures("the answer is 0 or 1", lambda p: or_(eq(p.ret, I(0)), eq(p.ret, I(1))))
    c.ensures_all("a miss means no sample equals the value", 0, n, lambda p, i: or_(ne(x(i), v), eq(p.ret, I(1))))
    c.ensures_exists("a hit means some sample equals it", 0, n, lambda p, i: eq(x(i), v), unless=lambda p: eq(p.ret, I(0)))

@contract("A03", U, "equal")
def _(c):
    n = c.size("n"); x, y = c.input("x", n), c.input("y", n)
    c.call(x, n, y)
    c.ensures("the answer is 0 or 1", lambda p: or_(eq(p.ret, I(0)), eq(p.ret, I(1))))
    c.ensures_all("equality means every pair of samples is equal", 0, n, lambda p, i: or_(eq(x(i), y(i)), eq(p.ret, I(0))))
    c.ensures_exists("a difference means some pair differs", 0, n, lambda p, i: ne(x(i), y(i)), unless=lambda p: eq(p.ret, I(1)))

@contract("A03", H, "h_equal2", "equal (two ranges)")
def _(c):
    n, m = c.size("n"), c.size("m"); x, y = c.input("x", n), c.input("y", m)
    c.call(x, n, y, m)
    yes = lambda p: p.ret
    c.ensures("equal ranges have equal length", lambda p: or_(not_(yes(p)), eq(n, m)))
    c.ensures_all("equality means every pair of samples is equal", 0, n, lambda p, i: or_(not_(yes(p)), eq(x(i), y(i))))
    c.ensures_exists("a difference means the lengths or some pair differ", 0, n, lambda p, i: ne(x(i), y(i)), unless=lambda p: or_(yes(p), ne(n, m)))

@contract("A03", H, "h_silence", "silence")
def _(c):
    n = c.size("n", 1); x = c.input("x", n); t = c.real("t")
    c.call(x, n, t)
    c.ensures("silent exactly when the mean square is below the threshold", lambda p: iff(p.ret, lt(Sum(0, n, lambda i: x(i) * x(i)), t * toreal(n))))
