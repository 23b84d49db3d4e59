from vcg.contract import *
H = "H/spectral.cpp"
N = toreal
E = lambda x, m: Sum(0, m, lambda i: x(i) * x(i))
for f in ("h_rolloff", "h_spectral_rolloff"):
    @contract("D05", H, f)
    def _(c):
        n = c.int("n", 1, 2**40); x = c.input("x", n); q = c.real("q", [0.0, 1.0, 0.5, 0.85, 0.95])
        c.requires(le(ZERO, q)); c.requires(le(q, ONE))
        # k: the first position at which the cumulative energy exceeds the limit, or the last position when it never does
        k = c.int("k", 0, 2**40); c.requires(lt(k, n))
        c.requires_all(0, k, lambda i: le(E(x, i + I(1)), q * E(x, n)))
        c.requires(or_(lt(q * E(x, n), E(x, k + I(1))), eq(k, n - I(1))))
        def g(rng, env):
            xs = env["x"]; lim = env["q"] * sum(v * v for v in xs); acc = 0
            for i, v in enumerate(xs):
                acc += v * v
                if acc > lim: break
            env["k"] = i
        c.gen(g)
        c.call(x, n, q)
        c.ensures("relative position of the first sample above the limit", lambda p: eq(p.ret * N(n), N(k)))
