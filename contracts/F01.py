from vcg.contract import *
H = "H/oscillator.cpp"
def frac(x): return x - toreal(floor(x))
def w_sin(A, f, t, p): return A * fn("sin", scale(PI, 2) * f * t + p)
def w_square(A, f, t, p): return ite(lt(frac(f * t), p), A, neg(A))
def w_saw(A, f, t, p):
    u = frac(f * t)
    return ite(lt(u, p), A * (scale(u, 2) / p - ONE), A * (ONE - scale(u - p, 2) / (ONE - p)))
def w_tri(A, f, t, p): return w_saw(A, f, t, R(F(1, 2)))
KINDS = {"sin": w_sin, "square": w_square, "saw": w_saw, "tri": w_tri}
for kind, wave in KINDS.items():
    def params(c, kind=kind):
        A = c.real("A"); sr = c.real("sr", [1.0, 2.0, 8.0, 44100.0]); f = c.real("f", [1.0, 0.5, 3.0, 440.0])
        c.requires(lt(ZERO, sr)); c.requires(lt(ZERO, f))
        c.rounds = True; c.sane(le(f, scale(sr, 8))); c.sane(le(fn("fabs", A), num(1000)))
        p = None
        if kind != "tri":
            p = c.real("p", [0.0, 1.0, 0.5, 0.25, 0.3])
            if kind != "sin": c.requires(le(ZERO, p)); c.requires(le(p, ONE))
        return A, sr, f, p, [A, sr, f] + ([p] if p is not None else [])
    def parts(c, name, args, extra, before, after, kind=kind):
        n = c.int("n", 0, 2**40); m = c.int("m", 0, 2**40); c.requires(le(m, n)); y = c.output("y", n)
        c.call(*args, *extra, n, m, y)
        c.ensures_all("waveform before the change", 0, m, lambda p, i: eq(p.get(y, i), before(i)))
        c.ensures_all("waveform after the change", m, n, lambda p, i: eq(p.get(y, i), after(i, m)))
    for h in ("", "_make"):
        @contract("F01", H, "h_%s%s" % (kind, h))
        def _(c, params=params, wave=wave):
            A, sr, f, p, args = params(c); n = c.int("n", 0, 2**40); y = c.output("y", n)
            c.call(*args, n, y)
            c.ensures_all("waveform", 0, n, lambda q, i: eq(q.get(y, i), wave(A, f, i / sr, p)))
    @contract("F01", H, "h_%s_at" % kind)
    def _(c, params=params, wave=wave):
        A, sr, f, p, args = params(c); t0 = c.real("t0", [0.0, 0.5, 1.25]); c.requires(le(ZERO, t0)); c.sane(le(t0 * f, num(1000))); n = c.int("n", 0, 2**40); y = c.output("y", n)
        c.call(*args, t0, n, y)
        c.ensures_all("waveform", 0, n, lambda q, i: eq(q.get(y, i), wave(A, f, t0 + i / sr, p)))
    @contract("F01", H, "h_%s_reset" % kind)
    def _(c, params=params, wave=wave, parts=parts):
        A, sr, f, p, args = params(c)
        parts(c, "", args, [], lambda i: wave(A, f, i / sr, p), lambda i, m: wave(A, f, (i - m) / sr, p))
    @contract("F01", H, "h_%s_copy" % kind)
    def _(c, params=params, wave=wave, parts=parts):
        A, sr, f, p, args = params(c)
        parts(c, "", args, [], lambda i: wave(A, f, i / sr, p), lambda i, m: wave(A, f, i / sr, p))
    @contract("F01", H, "h_%s_amplitude" % kind)
    def _(c, params=params, wave=wave, parts=parts):
        A, sr, f, p, args = params(c); v = c.real("v")
        parts(c, "", args, [v], lambda i: wave(A, f, i / sr, p), lambda i, m: wave(v, f, i / sr, p))
    @contract("F01", H, "h_%s_frequency" % kind)
    def _(c, params=params, wave=wave, parts=parts):
        A, sr, f, p, args = params(c); v = c.real("v", [1.0, 2.0, 3.0]); c.requires(lt(ZERO, v)); c.sane(le(v, scale(sr, 8)))
        parts(c, "", args, [v], lambda i: wave(A, f, i / sr, p), lambda i, m: wave(A, v, i / sr, p))
    @contract("F01", H, "h_%s_sample_rate" % kind)
    def _(c, params=params, wave=wave, parts=parts):
        A, sr, f, p, args = params(c); v = c.real("v", [1.0, 2.0, 3.0]); c.requires(lt(ZERO, v)); c.sane(le(f, scale(v, 8)))
        parts(c, "", args, [v], lambda i: wave(A, f, i / sr, p), lambda i, m: wave(A, f, m / sr + (i - m) / v, p))
    @contract("F01", H, "h_%s_get" % kind)
    def _(c, params=params):
        A, sr, f, p, args = params(c); g = c.output("g", I(5)); c.call(*args, g)
        for k, v in enumerate([A, sr, f, ZERO, inv(sr)]): c.ensures("parameter %d" % k, lambda q, k=k, v=v: eq(q.get(g, k), v))
    @contract("F01", H, "h_%s_getset" % kind)
    def _(c, params=params):
        A, sr, f, p, args = params(c); g = c.output("g", I(5)); a, s, v, t = [c.real(x) for x in "a s v t".split()]
        c.requires(lt(ZERO, s)); c.requires(lt(ZERO, v)); c.requires(le(ZERO, t))
        c.call(*args, a, s, v, t, g)
        for k, v in enumerate([a, s, v, t, inv(s)]): c.ensures("parameter %d" % k, lambda q, k=k, v=v: eq(q.get(g, k), v))
    @contract("F01", H, "h_%s_time" % kind)
    def _(c, params=params):
        A, sr, f, p, args = params(c); n = c.int("n", 0, 2**40); y = c.output("y", n); c.call(*args, n, y); c.returns(n / sr)
    @contract("F01", H, "h_%s_time0" % kind)
    def _(c, params=params):
        A, sr, f, p, args = params(c); n = c.int("n", 0, 2**40); y = c.output("y", n); c.call(*args, n, y); c.returns(ZERO)
    if kind in ("sin", "square", "saw"):
        nm = {"sin": "phase", "square": "duty", "saw": "width"}[kind]
        @contract("F01", H, "h_%s_%s" % (kind, nm))
        def _(c, params=params, wave=wave, parts=parts, kind=kind):
            A, sr, f, p, args = params(c); v = c.real("v", [0.0, 1.0, 0.5])
            if kind != "sin": c.requires(le(ZERO, v)); c.requires(le(v, ONE))
            parts(c, "", args, [v], lambda i: wave(A, f, i / sr, p), lambda i, m: wave(A, f, i / sr, v))
        @contract("F01", H, "h_%s_get_%s" % (kind, nm))
        def _(c, params=params):
            A, sr, f, p, args = params(c); c.call(*args); c.returns(p)
        @contract("F01", H, "h_%s_getset_%s" % (kind, nm))
        def _(c, params=params, kind=kind):
            A, sr, f, p, args = params(c); v = c.real("v", [0.0, 1.0, 0.5])
            if kind != "sin": c.requires(le(ZERO, v)); c.requires(le(v, ONE))
            ex = [v]
            if kind == "square": q = c.real("q"); c.requires(lt(ZERO, q)); ex.append(q)
            c.call(*args, *ex); c.returns(v)
@contract("F01", H, "h_tri_get_width")
def _(c):
    A, sr, f = [c.real(x) for x in ("A", "sr", "f")]; c.requires(lt(ZERO, sr)); c.requires(lt(ZERO, f)); c.call(A, sr, f); c.returns(R(F(1, 2)))
