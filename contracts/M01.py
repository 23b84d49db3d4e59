from vcg.contract import *
H = "H/core.cpp"
def facts(c, w, which):
    c.call(w)
    c.ensures("major, minor and patch version are the configured ones", lambda p: and_(eq(p.get(w, 0), I(11)), eq(p.get(w, 1), I(22)), eq(p.get(w, 2), I(33))))
    c.ensures("version, build date and build time are the configured texts", lambda p: and_(*[eq(p.get(w, k), I(1)) for k in (3, 4, 5)]))
for h in ("h_version", "h_info"):
    @contract("M01", H, h)
    def _(c): facts(c, c.output("w", I(6), "L"), 0)
@contract("M01", H, "h_libraries")
def _(c):
    w = c.output("w", I(3), "L"); c.call(w)
    c.ensures("the configured back ends are reported", lambda p: and_(*[eq(p.get(w, k), I(1)) for k in range(3)]))
def text(c, name, lo=0):
    """a NUL-terminated text of any length"""
    n = c.int("n_" + name, lo, 2**31 - 2); a = c.input(name, n + 1, "B")
    c.requires(eq(a(n), I(0))); c.requires_all(0, n, lambda i: ne(a(i), I(0)))
    def g(rng, env):
        env[name] = [rng.choice([65, 66, 95, 120]) for _ in range(env["n_" + name])] + [0]
    c.gen(g)
    return n, a
def asks(c, n, tag, asked, w, gets, sets):
    c.ensures("the environment is asked once", lambda p: and_(eq(p.get(w, 0), I(gets)), eq(p.get(w, 1), I(sets))))
    c.ensures_all("for the given name", 0, n, lambda p, i: eq(p.get(asked, i), tag(i)))
    c.ensures("and no longer one", lambda p: eq(p.get(asked, n), I(0)))
@contract("M01", H, "h_get_set")
def _(c):
    n, tag = text(c, "tag", 1); m, v = text(c, "value"); k, s, w = c.output("asked", n + 1, "B"), c.output("stored", I(1), "B"), c.output("w", I(4), "L"); e = c.output("error", I(1), "I")
    c.call(tag, v, k, s, w, e); asks(c, n, tag, k, w, 1, 0)
    c.ensures("no error", lambda p: eq(p.get(e, 0), I(0)))
    c.returns(I(0))
@contract("M01", H, "h_get_noerror")
def _(c):
    n, tag = text(c, "tag", 1); m, v = text(c, "value"); k, s, w = c.output("asked", n + 1, "B"), c.output("stored", I(1), "B"), c.output("w", I(4), "L")
    c.call(tag, v, k, s, w); asks(c, n, tag, k, w, 1, 0)
    c.returns(I(0))
@contract("M01", H, "h_get_unset")
def _(c):
    n, tag = text(c, "tag"); k, s, w = c.output("asked", n + 1, "B"), c.output("stored", I(1), "B"), c.output("w", I(4), "L"); e = c.output("error", I(1), "I")
    c.call(tag, k, s, w, e)
    c.ensures("an unset variable is an error", lambda p: eq(p.get(e, 0), ite(eq(n, I(0)), I(1), I(2))))
    c.returns(I(1))
@contract("M01", H, "h_exist_set")
def _(c):
    n, tag = text(c, "tag"); m, v = text(c, "value"); k, s, w = c.output("asked", n + 1, "B"), c.output("stored", I(1), "B"), c.output("w", I(4), "L")
    c.call(tag, v, k, s, w); asks(c, n, tag, k, w, 1, 0)
    c.returns(I(1))
@contract("M01", H, "h_exist_unset")
def _(c):
    n, tag = text(c, "tag"); k, s, w = c.output("asked", n + 1, "B"), c.output("stored", I(1), "B"), c.output("w", I(4), "L")
    c.call(tag, k, s, w); asks(c, n, tag, k, w, 1, 0)
    c.returns(I(0))
@contract("M01", H, "h_put")
def _(c):
    n, tag = text(c, "tag", 1); m, d = text(c, "data"); st = c.int("status", -1, 22); k, s, w = c.output("asked", n + 1, "B"), c.output("stored", m + 1, "B"), c.output("w", I(4), "L")
    c.call(tag, d, st, k, s, w); asks(c, n, tag, k, w, 0, 1)
    c.ensures_all("with the given value", 0, m, lambda p, i: eq(p.get(s, i), d(i)))
    c.ensures("and no longer one", lambda p: eq(p.get(s, m), I(0)))
    c.ensures("replacing an older value", lambda p: ne(p.get(w, 2), I(0)))
    c.returns(st)
@contract("M01", H, "h_view_get")
def _(c):
    n, z = c.int("n", 1, 2**31 - 2), c.int("z", 1, 2**31 - 2); c.requires(le(n, z)); x = c.input("x", z, "B"); m, v = text(c, "value")
    c.requires_all(0, n, lambda i: ne(x(i), I(0)))
    c.gen(lambda rng, env: env.__setitem__("x", [rng.choice([65, 66, 120]) for _ in env["x"]]))
    k, s, w = c.output("asked", n + 1, "B"), c.output("stored", I(1), "B"), c.output("w", I(4), "L")
    c.call(x, n, v, k, s, w); asks(c, n, x, k, w, 1, 0)
    c.ensures("the value is returned whole", lambda p: eq(p.get(w, 3), m))
    c.returns(I(0))
