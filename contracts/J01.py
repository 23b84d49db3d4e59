from vcg.contract import *
H = "H/text.cpp"
code = lambda x: ite(lt(x, I(0)), add(x, I(256)), x)                     # the character as an unsigned value
char = lambda t: ite(lt(I(127), t), sub(t, I(256)), t)
blank = lambda x: ne(app("isspace", code(x), s="I"), I(0))
CH = [32, 9, 10, 11, 12, 13, 65, 90, 97, 122, 64, 91, 96, 123, 48, -61, -96, 0, 8, 14]
def chars(c, name):
    def g(rng, env): env[name] = [rng.choice(CH if rng.random() < 0.5 else CH[:7]) for _ in env[name]]
    c.gen(g)
for f in ("tolower", "toupper"):
    @contract("J01", H, "h_" + f)
    def _(c, f=f):
        n = c.size("n"); x = c.input("x", n, "B"); y = c.output("y", n, "B"); c.call(x, n, y); chars(c, "x")
        c.ensures_all("every character is mapped on its own", 0, n, lambda p, i: eq(p.get(y, i), char(app(f, code(x(i)), s="I"))))
    @contract("J01", H, "h_%s_inplace" % f)
    def _(c, f=f):
        n = c.size("n"); x = c.inout("x", n, "B"); c.call(x, n); chars(c, "x")
        c.ensures_all("every character is mapped on its own", 0, n, lambda p, i: eq(p.get(x, i), char(app(f, code(x(i)), s="I"))))
def callee(left):
    """the contract of ltrim (of rtrim) at a call, as proved for its body below"""
    def m(sx, st, a, ins):
        from vcg import models as M
        from vcg.solve import Fact
        p, L = M.string_parts(sx, st, a[0]); o = st.objs[p.o]; B = int_ty(8)
        _, f, i0 = sx.cell(st, p, B, "read"); old = sx.content(st, o, f, B)
        at = lambda s, i: sx.read(s, old, add(i0, i), B)
        k, q = fresh("kept", "I"), fresh("q", "I"); st.assume(le(I(0), k)); st.assume(le(k, L))
        lo, hi = (I(0), k) if left else (k, L)
        s2 = st.fork(); s2.assume(le(lo, q)); s2.assume(lt(q, hi))
        st.facts.append(Fact(q, lo, hi, blank(at(s2, q)), (), "callee"))
        s3 = st.fork(); e = lt(k, L) if left else lt(I(0), k); s3.assume(e)
        st.assume(or_(not_(e), not_(blank(at(s3, k if left else k - 1)))))
        return M.string_erase(sx, st, [a[0], lo if left else k, k if left else L - k], ins)
    return m
def trimmed(f, left, right):
    @contract("J01", H, "h_" + f)
    def _(c):
        n = c.size("n"); x = c.input("x", n, "B"); y = c.output("y", n, "B"); c.call(x, n, y); chars(c, "x")
        if left and right:
            for g in list(c.m.funcs):
                if g.startswith("_ZN4edsp6string5ltrimI"): c.sx.models[g] = callee(True)
                if g.startswith("_ZN4edsp6string5rtrimI"): c.sx.models[g] = callee(False)
        # the first and one past the last character that stay
        a, b = c.int("a", 0, 2**31 - 1), c.int("b", 0, 2**31 - 1)
        c.requires(le(a, b)); c.requires(le(b, n))
        if left: c.requires_all(0, a, lambda i: blank(x(i))); c.requires(or_(eq(a, n), not_(blank(x(a)))))
        else: c.requires(eq(a, I(0)))
        if right: c.requires_all(b, n, lambda i: blank(x(i))); c.requires(or_(eq(b, a), not_(blank(x(b - 1)))))
        else: c.requires(eq(b, n))
        def ends(env):
            X = env["x"]; s = lambda v: v % 256 in (32, 9, 10, 11, 12, 13)
            i, j = 0, len(X)
            while left and i < len(X) and s(X[i]): i += 1
            while right and j > i and s(X[j - 1]): j -= 1
            env["a"], env["b"] = i, j
        c.gen(lambda rng, env: ends(env))
        c.returns(b - a)
        c.ensures_all("everything between the blanks is kept", 0, b - a, lambda p, i: eq(p.get(y, i), x(a + i)))
trimmed("ltrim", True, False); trimmed("rtrim", False, True); trimmed("trim", True, True)
