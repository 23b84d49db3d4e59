from vcg.contract import *
H = "H/ring.cpp"
BIG = 2**31 - 1
def cells(c, d="d", cap="c", f="f", s="s"):
    """a ring in an arbitrary state; returns its cells, capacity, position, size and the i-th oldest element"""
    n = c.int(cap, 1, BIG); p, k = c.int(f, 0, BIG), c.int(s, 0, BIG); x = c.inout(d, n)
    c.requires(lt(p, n)); c.requires(le(k, n))
    at = lambda i: x(ite(lt(p + i, n), p + i, p + i - n))
    def gen(rng, env):
        if rng.random() < .3: env[s] = env[cap]
        env[f] %= env[cap]; env[s] = min(env[s], env[cap])
    c.gen(gen)
    return x, n, p, k, at
def observed(c, cap): return c.output("y", cap), c.output("z", I(2)), c.output("w", I(4), "L")
def holds(c, cap, size, element, out):
    y, z, w = out
    c.ensures("size", lambda p: eq(p.get(w, 0), size))
    c.ensures("emptiness", lambda p: eq(p.get(w, 1), ite(eq(size, I(0)), I(1), I(0))))
    c.ensures("fullness", lambda p: eq(p.get(w, 2), ite(eq(size, cap), I(1), I(0))))
    c.ensures("capacity", lambda p: eq(p.get(w, 3), cap))
    c.ensures_all("iteration yields the elements, oldest first", 0, size, lambda p, i: eq(p.get(y, i), element(i)))
    c.ensures("the front is the oldest element", lambda p: implies(lt(I(0), size), eq(p.get(z, 0), element(I(0)))))
    c.ensures("the back is the newest element", lambda p: implies(lt(I(0), size), eq(p.get(z, 1), element(size - 1))))
for f in ("span", "span_const"):
    @contract("H01", H, "h_" + f)
    def _(c):
        x, n, p, s, at = cells(c); o = observed(c, n); c.call(x, n, p, s, *o); holds(c, n, s, at, o)
def push(f, back, ref=False):
    @contract("H01", H, "h_span_" + f)
    def _(c):
        x, n, p, s, at = cells(c); o = observed(c, n)
        if ref: va = c.input("v", I(1)); v = va(0)
        else: va = v = c.real("v")
        c.call(x, n, p, s, va, *o)
        size = ite(lt(s, n), s + 1, n)
        if back: e = lambda i: ite(eq(i, size - 1), v, ite(lt(s, n), at(i), at(i + 1)))
        else: e = lambda i: ite(eq(i, I(0)), v, at(i - 1))
        holds(c, n, size, e, o)
for f, b in (("back", True), ("front", False)):
    push("push_" + f, b); push("push_%s_copy" % f, b, True); push("emplace_" + f, b)
for f in ("front", "back"):
    @contract("H01", H, "h_span_pop_" + f)
    def _(c, f=f):
        x, n, p, s, at = cells(c); o = observed(c, n); c.requires(lt(I(0), s)); c.call(x, n, p, s, *o)
        c.gen(lambda rng, env: env.update(s=max(1, env["s"])))
        c.returns(at(I(0)) if f == "front" else at(s - 1))
        holds(c, n, s - 1, (lambda i: at(i + 1)) if f == "front" else at, o)
@contract("H01", H, "h_span_swap")
def _(c):
    x, n, p, s, at = cells(c); x2, n2, p2, s2, at2 = cells(c, "e", "c2", "f2", "s2"); o = observed(c, n2)
    c.call(x, n, p, s, x2, n2, p2, s2, *o); c.returns(s); holds(c, n2, s2, at2, o)
@contract("H01", H, "h_span_reverse")
def _(c):
    x, n, p, s, at = cells(c); y = c.output("y", s); c.call(x, n, p, s, y)
    c.ensures_all("reverse iteration yields the elements, newest first", 0, s, lambda q, i: eq(q.get(y, i), at(s - 1 - i)))
@contract("H01", H, "h_span_random_access")
def _(c):
    x, n, p, s, at = cells(c); i, j = c.int("i", 0, BIG), c.int("j", 0, BIG); c.requires(le(j, i)); c.requires(lt(i - j, s)); c.requires(le(i, s))
    c.call(x, n, p, s, i, j); c.returns(at(i - j))
@contract("H01", H, "h_span_distance")
def _(c):
    x, n, p, s, at = cells(c); c.call(x, n, p, s); c.returns(s)

def state(c, kind, gen=None):
    """a ring buffer after n pushes, f pops from the front and b more pushes"""
    n = c.int("n", 1, BIG) if kind == "ring" else I(5)
    p, b = c.int("f", 0, BIG), c.int("b", 0, BIG); x = c.input("x", n + b)
    c.requires(lt(p, n)); c.requires(le(b, p))
    def g(rng, env):
        env["f"] %= env.get("n", 5); env["b"] %= env["f"] + 1
        if gen: gen(rng, env)
    c.gen(g)
    return n, p, b, x, (n, x, p, b) if kind == "ring" else (x, p, b)
BOUND = {"fixed": "the one capacity 5 the harness instantiates", "ring": None}
def op(f, more=(), size=None, element=None, cap=None, req=None, gen=None, kinds=("ring", "fixed")):
    for kind in kinds:
        @contract("H01", H, "h_" + kind + ("_" + f if f else ""), bounded=BOUND[kind])
        def _(c, kind=kind):
            n, p, b, x, args = state(c, kind, gen)
            v = [c.real("v") if m == "v" else c.int(m, 0, BIG) for m in more if kind == "ring" or m == "v"]
            if req: c.requires(req(n, p, b, *v))
            k = cap(n, *v) if cap else n
            o = observed(c, k)
            c.call(*((x, n, p, b) if kind == "ring" else args), *v, *o)
            s = n - p + b
            holds(c, k, size(n, s, *v) if size else s, (lambda i: element(i, x, n, p, s, *v)) if element else lambda i: x(p + i), o)
@contract("H01", H, "h_ring_new")
def _(c): n = c.int("n", 1, BIG); o = observed(c, n); c.call(n, *o); holds(c, n, I(0), lambda i: ZERO, o)
@contract("H01", H, "h_ring_fill")
def _(c): n = c.int("n", 1, BIG); v = c.real("v"); o = observed(c, n); c.call(n, v, *o); holds(c, n, n, lambda i: v, o)
@contract("H01", H, "h_ring_full")
def _(c):
    n, g = c.int("n", 1, BIG), c.int("g", 0, BIG); x = c.input("x", n + g); c.requires(lt(g, n)); o = observed(c, n); c.call(x, n, g, *o)
    c.gen(lambda rng, env: env.update(g=env["g"] % env["n"])); holds(c, n, n, lambda i: x(g + i), o)
op(""); op("const")
grown = lambda n, s, *v: ite(lt(s, n), s + 1, n)
back = lambda i, x, n, p, s, v: ite(eq(i, grown(n, s) - 1), v, ite(lt(s, n), x(p + i), x(p + i + 1)))
op("push_back", ("v",), grown, back); op("emplace_back", ("v",), grown, back)
op("emplace_front", ("v",), grown, lambda i, x, n, p, s, v: ite(eq(i, I(0)), v, x(p + i - 1)))
some = lambda n, p, b, *v: lt(I(0), n - p + b)
def nonempty(rng, env):
    if env["n"] - env["f"] + env["b"] == 0: env["b"] = env["f"]
op("pop_front", (), lambda n, s: s - 1, lambda i, x, n, p, s: x(p + i + 1), req=some, gen=nonempty)
op("pop_back", (), lambda n, s: s - 1, req=some, gen=nonempty)
op("clear", (), lambda n, s: I(0))
op("resize", ("m",), lambda n, s, m: I(0), kinds=("ring",), cap=lambda n, m: m, req=lambda n, p, b, m: lt(I(0), m), gen=lambda rng, env: env.update(m=max(1, env["m"])))
same = lambda i, x, n, p, s, *v: x(p + i)
op("copy", ("v",), None, same); op("copy_source", ("v",), None, same); op("move")
for f in ("copy_assign", "move_assign"): op(f, ("m", "v"), None, same, req=lambda n, p, b, m, *v: lt(I(0), m) if v else TRUE, gen=lambda rng, env: env.update(m=max(1, env.get("m", 1))))
op("self_assign", kinds=("fixed",))
@contract("H01", H, "h_fixed_new", bounded=BOUND["fixed"])
def _(c): o = observed(c, I(5)); c.call(*o); holds(c, I(5), I(0), lambda i: ZERO, o)
for kind in ("ring", "fixed"):
    for f in ("index", "index_const", "at", "at_const"):
        @contract("H01", H, "h_%s_%s" % (kind, f), bounded=BOUND[kind])
        def _(c, kind=kind):
            i = c.int("i", 0, BIG); n, p, b, x, args = state(c, kind, lambda rng, env: env.update(i=env["i"] % max(1, env.get("n", 5) - env["f"] + env["b"])))
            c.requires(lt(i, n - p + b)); c.call(*((x, n, p, b) if kind == "ring" else args), i); c.returns(x(p + i))
    for f in ("at", "at_const"):
        @contract("H01", H, "h_%s_%s" % (kind, f), "h_%s_%s outside" % (kind, f), bounded=BOUND[kind])
        def _(c, kind=kind):
            i = c.int("i", 0, 2**62); n, p, b, x, args = state(c, kind); c.requires(le(n - p + b, i)); c.may_throw = True
            c.call(*((x, n, p, b) if kind == "ring" else args), i); c.ensures("an index outside the elements is refused", lambda q: FALSE)
@contract("H01", H, "h_ring_store")
def _(c):
    i = c.int("i", 0, BIG); n, p, b, x, args = state(c, "ring", lambda rng, env: env.update(i=env["i"] % max(1, env["n"] - env["f"] + env["b"]))); v = c.real("v"); o = observed(c, n)
    c.requires(lt(i, n - p + b)); c.call(x, n, p, b, i, v, *o); holds(c, n, n - p + b, lambda j: ite(eq(i, j), v, x(p + j)), o)
@contract("H01", H, "h_ring_reverse")
def _(c):
    n, p, b, x, args = state(c, "ring"); y = c.output("y", n - p + b); c.call(x, n, p, b, y)
    c.ensures_all("reverse iteration yields the elements, newest first", 0, n - p + b, lambda q, i: eq(q.get(y, i), x(p + n - p + b - 1 - i)))
