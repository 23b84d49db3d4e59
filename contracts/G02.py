from vcg.contract import *
H = "H/filter.cpp"
NAMES = ("a0", "a1", "a2", "b0", "b1", "b2")
def co(c, k):
    r = [c.real("%s_%d" % (n, k)) for n in NAMES]; c.requires(ne(r[0], ZERO)); return r
def cos(c, n): return [x for k in range(1, n + 1) for x in co(c, k)]
SAME = "the cascade is the composition of its sections"
@contract("G02", H, "h_cascade0")
def _(c):
    n = c.int("n", 0, 2**40); x = c.input("x", n); y = c.output("y", n); c.call(x, n, y)
    c.ensures_all("a cascade without sections passes the signal through", 0, n, lambda p, i: eq(p.get(y, i), x(i)))
for h, k in (("h_cascade1", 1), ("h_cascade2", 2), ("h_cascade3", 3), ("h_cascade_emplace", 2), ("h_cascade_full", 2)):
    @contract("G02", H, h)
    def _(c, k=k):
        ks = cos(c, k); n = c.int("n", 0, 2**40); x = c.input("x", n); y = c.output("y", n); z = c.output("z", n)
        c.call(*ks, x, n, y, z)
        c.ensures_all(SAME, 0, n, lambda p, i: eq(p.get(y, i), p.get(z, i)))
for h, k in (("h_cascade_block", 2), ("h_cascade_reset", 2), ("h_cascade_clear", 2), ("h_cascade_append", 2), ("h_cascade_full_block", 2),
             ("h_cascade_full_copy", 2), ("h_cascade_full_reset", 2), ("h_cascade_full_clear", 2), ("h_cascade_one_reset", 1)):
    @contract("G02", H, h)
    def _(c, k=k):
        ks = cos(c, k); n = c.int("n", 0, 2**40); m = c.int("m", 0, 2**40); c.requires(le(m, n))
        x = c.input("x", n); y = c.output("y", n); z = c.output("z", n)
        c.call(*ks, x, n, m, y, z)
        c.ensures_all(SAME, 0, n, lambda p, i: eq(p.get(y, i), p.get(z, i)))
@contract("G02", H, "h_cascade_inplace")
def _(c):
    ks = cos(c, 2); n = c.int("n", 0, 2**40); x = c.inout("x", n); z = c.output("z", n)
    c.call(*ks, x, n, z)
    c.ensures_all("filtering in place gives the same samples", 0, n, lambda p, i: eq(p.get(x, i), p.get(z, i)))
@contract("G02", H, "h_cascade_sizes")
def _(c):
    ks = cos(c, 1); s = c.output("s", I(10), "L"); c.call(*ks, s)
    for i, (v, l) in enumerate(((0, "empty"), (1, "push_back"), (2, "emplace_back"), (3, "push_back"), (3, "end - begin"), (3, "capacity"), (3, "max_size"), (3, "reset keeps the sections"), (0, "clear"), (0, "end - begin after clear"))):
        c.ensures("count: " + l, lambda p, i=i, v=v: eq(p.get(s, I(i)), I(v)))
for h in ("h_cascade_items", "h_cascade_iter"):
    @contract("G02", H, h)
    def _(c):
        ks = cos(c, 2); o = c.output("o", I(6)); q = c.output("q", I(6)); c.call(*ks, o, q)
        for j in range(6):
            c.ensures("first section " + NAMES[j], lambda p, j=j: eq(p.get(o, I(j)) * ks[0], ks[j]))
            c.ensures("second section " + NAMES[j], lambda p, j=j: eq(p.get(q, I(j)) * ks[6], ks[6 + j]))
