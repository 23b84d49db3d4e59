from vcg.contract import *
H = "H/design.cpp"
TWO = R(2)
NAMES = ("a0", "a1", "a2", "b0", "b1", "b2")
S2 = fn("sqrt", TWO)
def setup(c):
    fc, fs, Q, g = [c.real(n, p) for n, p in (("fc", [10.0, 1000.0, 4410.0, 11025.0, 20000.0]), ("fs", [44100.0, 48000.0]), ("Q", [0.3, 0.70710678, 1.0, 5.0]), ("g", [-12.0, -6.0, 0.0, 3.0, 6.0, 24.0]))]
    for t in (lt(ZERO, fc), lt(TWO * fc, fs), lt(ZERO, Q)): c.requires(t)
    return fc, fs, Q, g
def rbj(kind, fc, fs, Q, g):
    """Audio-EQ cookbook coefficients (a0, a1, a2, b0, b1, b2)"""
    w = TWO * PI * fc / fs; s, k = fn("sin", w), fn("cos", w); al = s / (TWO * Q)
    A = fn("sqrt", fn("pow", R(10), g / R(20))); be = fn("sqrt", A) / Q
    plain = (ONE + al, R(-2) * k, ONE - al)
    if kind == "low": return plain + ((ONE - k) / TWO, ONE - k, (ONE - k) / TWO)
    if kind == "high": return plain + ((ONE + k) / TWO, -(ONE + k), (ONE + k) / TWO)
    if kind == "band": return plain + (Q * al, ZERO, -Q * al)
    if kind == "all": return plain + (ONE - al, R(-2) * k, ONE + al)
    if kind == "lowshelf":
        return ((A + ONE) + (A - ONE) * k + be * s, R(-2) * ((A - ONE) + (A + ONE) * k), (A + ONE) + (A - ONE) * k - be * s,
                A * ((A + ONE) - (A - ONE) * k + be * s), TWO * A * ((A - ONE) - (A + ONE) * k), A * ((A + ONE) - (A - ONE) * k - be * s))
    return ((A + ONE) - (A - ONE) * k + be * s, TWO * ((A - ONE) - (A + ONE) * k), (A + ONE) - (A - ONE) * k - be * s,
            A * ((A + ONE) + (A - ONE) * k + be * s), R(-2) * A * ((A - ONE) + (A + ONE) * k), A * ((A + ONE) + (A - ONE) * k - be * s))
def zol(kind, fc, fs, Q, g):
    """Zoelzer (DAFX) coefficients; V is the shelf gain as a magnitude >= 1"""
    K = fn("tan", PI * fc / fs); D = (ONE + K / Q + K * K, TWO * (K * K - ONE), ONE - K / Q + K * K)
    if kind == "low": return D + (K * K, TWO * K * K, K * K)
    if kind == "high": return D + (ONE, R(-2), ONE)
    if kind == "band": return D + (K / Q, ZERO, -K / Q)
    V = fn("pow", R(10), fn("fabs", g) / R(20)); r = fn("sqrt", TWO * V)
    flat = (ONE + S2 * K + K * K, TWO * (K * K - ONE), ONE - S2 * K + K * K)
    if kind == "lowshelf": up = (ONE + r * K + V * K * K, TWO * (V * K * K - ONE), ONE - r * K + V * K * K)
    else: up = (V + r * K + K * K, TWO * (K * K - V), V - r * K + K * K)
    boost, cut = flat + up, up + flat
    return tuple(ite(le(ZERO, g), b, u) for b, u in zip(boost, cut))
def trig(c, who, fc, fs):
    if who == "rbj": c.lemma(lt(ZERO, fn("sin", TWO * PI * fc / fs)))     # 0 < angle < pi
    else: c.lemma(lt(ZERO, fn("tan", PI * fc / fs)))                       # 0 < angle < pi/2
GAIN = lambda g: fn("pow", R(10), g / R(20))
# gain at DC and at Nyquist
GAINS = {"low": (lambda g: ONE, lambda g: ZERO), "high": (lambda g: ZERO, lambda g: ONE), "band": (lambda g: ZERO, lambda g: ZERO),
         "all": (lambda g: ONE, lambda g: ONE), "lowshelf": (GAIN, lambda g: ONE), "highshelf": (lambda g: ONE, GAIN)}
for who, f, kinds in (("rbj", rbj, ("low", "high", "band", "all", "lowshelf", "highshelf")), ("zol", zol, ("low", "high", "band", "lowshelf", "highshelf"))):
    for kind in kinds:
        @contract("G03", H, "h_%s_%s" % (who, kind))
        def _(c, who=who, f=f, kind=kind):
            fc, fs, Q, g = setup(c); trig(c, who, fc, fs); o = c.output("o", I(6))
            c.call(fc, fs, Q, g, o)
            want = f(kind, fc, fs, Q, g)
            for j in range(6): c.ensures("published coefficient " + NAMES[j], lambda p, j=j: eq(p.get(o, I(j)) * want[0], want[j]))
            dc, ny = GAINS[kind]
            c.ensures("gain at DC", lambda p: eq(p.get(o, I(3)) + p.get(o, I(4)) + p.get(o, I(5)), dc(g) * (p.get(o, I(0)) + p.get(o, I(1)) + p.get(o, I(2)))))
            c.ensures("gain at Nyquist", lambda p: eq(p.get(o, I(3)) - p.get(o, I(4)) + p.get(o, I(5)), ny(g) * (p.get(o, I(0)) - p.get(o, I(1)) + p.get(o, I(2)))))
            if kind == "all":
                c.ensures("unit magnitude everywhere: the numerator is the reversed denominator", lambda p: and_(eq(p.get(o, I(3)), p.get(o, I(2))), eq(p.get(o, I(4)), p.get(o, I(1))), eq(p.get(o, I(5)), p.get(o, I(0)))))
        @contract("G03", H, "h_%s_%s_stable" % (who, kind))
        def _(c, who=who):
            fc, fs, Q, g = setup(c); trig(c, who, fc, fs); c.call(fc, fs, Q, g); c.sane(le(fn("fabs", g), num(60)))
            c.ensures("both poles lie inside the unit circle", lambda p: eq(p.ret, I(1)))
