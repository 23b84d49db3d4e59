from vcg.contract import *
H = "H/envelope.cpp"
TINY = const(2.2250738585072014e-308)        # DBL_MIN: smaller results are denormal
def gain(t, fs): return ite(lt(ZERO, t), fn("exp", R(-1000) / (t * fs)), ZERO)
def rectified(rect, v): return ite(eq(rect, I(0)), v, fn("fabs", v))
def step(prev, r, ga, gr, y):
    """one-pole step towards r; denormal results are flushed to zero"""
    g = ite(lt(prev, r), ga, gr)
    cur = (ONE - g) * r + g * prev
    return eq(y, ite(lt(fn("fabs", cur), TINY), ZERO, cur))
def params(c, case=(None, 1, 1)):
    """case: (rectification or None, attack > 0, release > 0)"""
    fs = c.real("fs", [1.0, 100.0, 1000.0, 44100.0]); at = c.real("at", [0.0, 1.0, 10.0, 1000.0]); rt = c.real("rt", [0.0, 1.0, 10.0, 1000.0]); rect = c.int("rect", 0, 1)
    c.requires(lt(ZERO, fs))
    for t, pos in ((at, case[1]), (rt, case[2])): c.requires(lt(ZERO, t) if pos else eq(t, ZERO))
    if case[0] is not None: c.requires(eq(rect, I(case[0])))
    return fs, at, rt, rect
def clauses(c, lo, hi, x, get, ga, gr, rect, zero):
    prev = lambda p, i: ite(eq(i, zero), ZERO, get(p, i - I(1)))
    c.ensures_all("difference equation", lo, hi, lambda p, i: step(prev(p, i), rectified(rect, x(i)), ga, gr, get(p, i)))
def both(name):
    """one contract per rectification setting (and one for the limiting case of zero times)"""
    def deco(f):
        for tag, case in (("rectified", (1, 1, 1)), ("signed", (0, 1, 1)), ("instant attack", (None, 0, 1)), ("instant release", (None, 1, 0))):
            if tag[:7] == "instant" and name not in ("h_ar_reset", "h_ar_default"): continue
            contract("F02", H, name, name="%s: %s" % (name, tag))(lambda c, case=case: f(c, case))
    return deco
for h in ("h_ar", "h_ar_apply"):
    @both(h)
    def _(c, case):
        fs, at, rt, rect = params(c, case); n = c.int("n", 0, 2**40); x = c.input("x", n); y = c.output("y", n)
        c.call(fs, at, rt, rect, x, n, y)
        clauses(c, 0, n, x, lambda p, i: p.get(y, i), gain(at, fs), gain(rt, fs), rect, I(0))
@both("h_ar_inplace")
def _(c, case):
    fs, at, rt, rect = params(c, case); n = c.int("n", 0, 2**40); x = c.inout("x", n)
    c.call(fs, at, rt, rect, x, n)
    clauses(c, 0, n, x, lambda p, i: p.get(x, i), gain(at, fs), gain(rt, fs), rect, I(0))
@contract("F02", H, "h_ar_default")
def _(c):
    fs, at, rt, rect = params(c, (0, 1, 1)); n = c.int("n", 0, 2**40); x = c.input("x", n); y = c.output("y", n)
    c.call(fs, at, rt, x, n, y)
    clauses(c, 0, n, x, lambda p, i: p.get(y, i), gain(at, fs), gain(rt, fs), I(0), I(0))
for h in ("copy", "reset", "attack", "release", "rate", "rectify"):
    # one sample reaches any state, so one sample before the change and two after it are a history of any length
    @both("h_ar_" + h)
    def _(c, case, h=h):
        fs, at, rt, rect = params(c, case); x = c.input("x", I(4)); y = c.output("y", I(4))
        ex = []; f2, a2, r2, e2, z2 = fs, at, rt, rect, True
        if h in ("attack", "release", "rate"):
            v = c.real("v", [0.0, 1.0, 10.0, 1000.0]); c.requires(lt(ZERO, v)); ex = [v]
            if h == "attack": a2 = v
            elif h == "release": r2 = v
            else: f2 = v
        elif h == "rectify": e2 = c.int("v", 0, 1); ex = [e2]; z2 = False
        elif h == "copy": z2 = False
        c.call(fs, at, rt, rect, *ex, x, y)
        st = lambda q, prev, i, e2=e2, f2=f2, a2=a2, r2=r2: step(prev, rectified(e2, x(i)), gain(a2, f2), gain(r2, f2), q.get(y, i))
        c.ensures("sample before the change", lambda q: st(q, ZERO, 0, rect, fs, at, rt))
        c.ensures("first sample after the change", lambda q: st(q, ZERO if z2 else q.get(y, 0), 1))
        c.ensures("second sample after the change", lambda q: st(q, q.get(y, 1), 2))
        if h == "copy": c.ensures("the copy does not share its state", lambda q: st(q, q.get(y, 0), 3))
@contract("F02", H, "h_ar_get")
def _(c):
    fs, at, rt, rect = params(c); g = c.output("g", I(4)); c.call(fs, at, rt, rect, g)
    for k, v in enumerate([fs, at, rt, rect]): c.ensures("parameter %d" % k, lambda q, k=k, v=v: eq(q.get(g, k), toreal(v)))
    # lemma: with a gain in [0,1) the step of the difference equation stays between the previous value and the input
    u, r, k = [c.real(z) for z in ("prev", "input", "gain")]
    for t in (at, rt): c.ensures("gain in [0,1)", lambda q, t=t: and_(le(ZERO, gain(t, fs)), lt(gain(t, fs), ONE)))
    v = (ONE - k) * r + k * u; ok = and_(le(ZERO, k), lt(k, ONE))
    c.ensures("rising step stays between", lambda q: implies(and_(ok, lt(u, r)), and_(le(u, v), le(v, r))))
    c.ensures("falling step stays between", lambda q: implies(and_(ok, le(r, u)), and_(le(r, v), le(v, u))))
@contract("F02", H, "h_ar_getset")
def _(c):
    fs, at, rt, rect = params(c); g = c.output("g", I(4)); s, a, r = [c.real(k) for k in "sar"]; v = c.int("v", 0, 1)
    c.requires(lt(ZERO, s)); c.requires(le(ZERO, a)); c.requires(le(ZERO, r))
    c.call(fs, at, rt, rect, s, a, r, v, g)
    for k, t in enumerate([s, a, r, v]): c.ensures("parameter %d" % k, lambda q, k=k, t=t: eq(q.get(g, k), toreal(t)))

# ------------------------------------------------------------------ ADSR
def fmin(a, b): return ite(le(a, b), a, b)
def fmax(a, b): return ite(le(a, b), b, a)
G = [0.0, 0.125, 0.25, 0.5, 0.75, 0.9375, 1.0]
def level(c, s="s", lo=ZERO):
    v = c.real(s, G); c.requires(le(lo, v)); c.requires(le(v, ONE)); return v
def rate(c, s):
    v = c.real(s, [0.0, 0.0625, 0.25, 0.5, 1.0, 1.5]); c.requires(lt(ZERO, v)); return v
def sane(c, *lv):
    """levels never leave [0,1]"""
    for v in lv: c.ensures("level within [0,1]", lambda q, v=v: and_(le(ZERO, v), le(v, ONE)))
def outs(c, y, x, *lv):
    for i, v in enumerate(lv): c.ensures("sample %d" % i, lambda q, i=i, v=v: eq(q.get(y, i), v * x(i)))
    sane(c, *lv)
for h in ("attack", "apply"):
    @contract("F02", H, "h_adsr_" + h)
    def _(c):
        s = level(c); v = rate(c, "v"); c.requires(lt(v, ONE)); a = rate(c, "a"); d = rate(c, "d"); x = c.input("x", I(2)); y = c.output("y", I(2))
        c.call(s, v, a, d, x, y)
        l0 = fmin(ONE, v + a)
        outs(c, y, x, l0, ite(lt(l0, ONE), fmin(ONE, l0 + a), fmax(s, ONE - d)))
@contract("F02", H, "h_adsr_decay")
def _(c):
    s = level(c); w = level(c, "w"); c.requires(lt(s, w)); c.requires(lt(w, ONE)); d = rate(c, "d"); x = c.input("x", I(2)); y = c.output("y", I(2))
    c.call(s, w, d, x, y)
    l0 = fmax(s, w - d); outs(c, y, x, l0, fmax(s, l0 - d))
@contract("F02", H, "h_adsr_sustain")
def _(c):
    s = level(c); d = rate(c, "d"); n = c.int("n", 0, 2**40); x = c.input("x", n); y = c.output("y", n); c.requires(lt(s, ONE))
    c.call(s, d, x, n, y)
    c.ensures_all("held at the sustain level", 0, n, lambda q, i: eq(q.get(y, i), s * x(i)))
for h in ("idle", "released"):
    @contract("F02", H, "h_adsr_" + h)
    def _(c):
        s = level(c); n = c.int("n", 0, 2**40); x = c.input("x", n); y = c.output("y", n); c.requires(lt(s, ONE))
        c.call(s, x, n, y)
        c.ensures_all("silent", 0, n, lambda q, i: eq(q.get(y, i), ZERO))
@contract("F02", H, "h_adsr_release_attack")
def _(c):
    s = level(c); v = rate(c, "v"); c.requires(lt(v, ONE)); r = rate(c, "r"); x = c.input("x", I(2)); y = c.output("y", I(2))
    c.call(s, v, r, x, y)
    l0 = fmax(ZERO, v - r); outs(c, y, x, l0, fmax(ZERO, l0 - r))
@contract("F02", H, "h_adsr_release_decay")
def _(c):
    s = level(c); w = level(c, "w"); c.requires(lt(s, w)); c.requires(lt(w, ONE)); r = rate(c, "r"); x = c.input("x", I(2)); y = c.output("y", I(2))
    c.call(s, w, r, x, y)
    l0 = fmax(ZERO, w - r); outs(c, y, x, l0, fmax(ZERO, l0 - r))
@contract("F02", H, "h_adsr_release_sustain")
def _(c):
    s = level(c); c.requires(lt(s, ONE)); r = rate(c, "r"); x = c.input("x", I(2)); y = c.output("y", I(2))
    c.call(s, r, x, y)
    l0 = fmax(ZERO, s - r); outs(c, y, x, l0, fmax(ZERO, l0 - r))
@contract("F02", H, "h_adsr_retrigger")
def _(c):
    s = level(c); v = rate(c, "v"); c.requires(lt(v, ONE)); r = rate(c, "r"); a = rate(c, "a"); x = c.input("x", I(2)); y = c.output("y", I(2))
    c.call(s, v, r, a, x, y)
    l0 = fmax(ZERO, v - r); outs(c, y, x, l0, fmin(ONE, l0 + a))
def times(c):
    s = level(c); c.requires(lt(ZERO, s)); c.requires(lt(s, ONE)); fs = c.real("fs", [1.0, 8.0, 64.0]); c.requires(lt(ZERO, fs)); return s, fs
@contract("F02", H, "h_adsr_times")
def _(c):
    s, fs = times(c); at, dt, rt = [c.real(k, [0.125, 0.5, 1.0, 4.0]) for k in ("at", "dt", "rt")]; x = c.input("x", I(3)); y = c.output("y", I(3))
    for t in (at, dt, rt): c.requires(lt(ONE, t * fs))          # every segment lasts longer than a sample
    c.call(s, fs, at, dt, rt, x, y)
    d = (ONE - s) / (dt * fs); l1 = fmax(s, ONE - d)
    outs(c, y, x, ONE / (at * fs), l1, l1 - l1 / (rt * fs))     # full scale, scale down to the sustain level, and current level in their times
@contract("F02", H, "h_adsr_rate")
def _(c):
    s, fs = times(c); g = c.real("g", [1.0, 8.0, 64.0]); c.requires(lt(ZERO, g)); a, d, r = [rate(c, k) for k in "adr"]; x = c.input("x", I(3)); y = c.output("y", I(3))
    k = fs / g; c.requires(lt(a * k, ONE))
    c.call(s, fs, g, a, d, r, x, y)
    l1 = fmax(s, ONE - d * k); outs(c, y, x, a * k, l1, fmax(ZERO, l1 - r * k))
@contract("F02", H, "h_adsr_get")
def _(c):
    s = level(c); a, d, r, fs = [rate(c, k) for k in ("a", "d", "r", "fs")]; g = c.output("g", I(5))
    c.call(s, a, d, r, fs, g)
    for i, v in enumerate((s, a, d, r, fs)): c.ensures("parameter %d" % i, lambda q, i=i, v=v: eq(q.get(g, i), v))
