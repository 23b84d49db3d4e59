from vcg.contract import *
H = "H/io.cpp"
BIG = 2**40
def record(c):
    """a: what the back end answers; w: what it was asked (see harness/io.cpp)"""
    a = c.input("a", I(8), "L"); w = c.output("w", I(16), "L")
    return a, w
def balanced(c, w):
    c.ensures("no call uses a missing or closed handle", lambda p: eq(p.get(w, 0), I(0)))
    c.ensures("every handle that was opened is closed exactly once", lambda p: eq(p.get(w, 1), p.get(w, 2)))
def flag(cond): return ite(cond, I(1), I(0))
for kind in ("decoder", "encoder"):
    for state in ("fresh", "open", "closed"):
        for op in ("nothing", "open", "close"):
            @contract("K01", H, "h_%s_%s_%s" % (kind, state, op))
            def _(c, state=state, op=op):
                a, w = record(c)
                c.call(a, w)
                ok = lambda k: ne(a(k), I(0))
                first = ok(0) if state != "fresh" else FALSE            # a handle was obtained by the first open
                second = ite(first, flag(ok(1)), flag(ok(0))) if op == "open" else I(0)
                balanced(c, w)
                c.ensures("handles opened", lambda p: eq(p.get(w, 1), flag(first) + second))
                if state == "open":
                    c.ensures("open reports whether it obtained a handle", lambda p: eq(p.get(w, 9), flag(first)))
                    c.ensures("the coder is open exactly when it holds a handle", lambda p: eq(p.get(w, 10), flag(first)))
                if state == "closed": c.ensures("a closed coder is not open", lambda p: eq(p.get(w, 10), I(0)))
                if op == "open": c.ensures("reopening reports whether it obtained a handle", lambda p: eq(p.get(w, 11), second))
                c.ensures("open at the end exactly when a handle is live", lambda p: eq(p.get(w, 8), second if op == "open" else flag(first) if op == "nothing" and state == "open" else I(0)))
def opened(c):
    a, w = record(c)
    c.requires(ne(a(0), I(0)))
    c.gen(lambda rng, env: env["a"].__setitem__(0, 1))
    return a, w
def bounded_info(c, a):
    c.requires(and_(le(I(0), a(4)), le(a(4), I(2**40)), le(I(0), a(5)), le(a(5), I(2**10)), le(I(0), a(6)), le(a(6), I(2**30))))
@contract("K01", H, "h_decoder_info")
def _(c):
    a, w = opened(c); bounded_info(c, a); c.call(a, w); balanced(c, w)
    c.ensures("frames, channels, sample rate and samples are the file's", lambda p: and_(eq(p.get(w, 8), a(4)), eq(p.get(w, 9), a(5)), eq(p.get(w, 10), a(6)), eq(p.get(w, 11), a(4) * a(5))))
@contract("K01", H, "h_encoder_info")
def _(c):
    a, w = opened(c); r, ch = c.int("rate", 1, 2**31 - 1), c.int("channels", 1, 1024)
    c.call(a, r, ch, w); balanced(c, w)
    c.ensures("the file is opened with the encoder's sample rate and channels", lambda p: and_(eq(p.get(w, 5), r), eq(p.get(w, 6), ch), eq(p.get(w, 9), r), eq(p.get(w, 8), ch)))
@contract("K01", H, "h_decoder_seek")
def _(c):
    a, w = opened(c); pos = c.int("pos", 0, BIG)
    c.call(a, pos, w); balanced(c, w)
    c.ensures("absolute seek to the caller's position", lambda p: and_(eq(p.get(w, 3), pos), eq(p.get(w, 4), I(0))))
    c.returns(a(3))
@contract("K01", H, "h_decoder_current")
def _(c):
    a, w = opened(c)
    c.call(a, w); balanced(c, w)
    c.ensures("asks for the current position without moving", lambda p: and_(eq(p.get(w, 3), I(0)), eq(p.get(w, 4), I(1))))
    c.returns(a(3))
@contract("K01", H, "h_decoder_read", name="h_decoder_read: chunk of one sample")
def _(c):
    a, w = opened(c); n = c.int("n", 0, BIG); m = c.int("m", 1, BIG); at = c.int("at", 0, BIG); c.requires(le(at, n))
    x = c.input("x", n); y = c.output("y", m)
    c.call(a, x, at, n, y, m, w); balanced(c, w)
    got = ite(lt(n - at, m), n - at, m)
    c.returns(got)
    c.ensures("the file advances by what was read", lambda p: eq(p.get(w, 8), at + got))
    c.ensures_all("samples arrive in order", 0, got, lambda p, i: eq(p.get(y, i), x(at + i)))
@contract("K01", H, "h_encoder_write")
def _(c):
    a, w = opened(c); n = c.int("n", 1, BIG); x = c.input("x", n); lo, hi = c.int("lo", 0, BIG), c.int("hi", 0, BIG)
    c.requires(le(lo, hi)); c.requires(le(hi, n))
    c.call(a, x, lo, hi, w); balanced(c, w)
    c.ensures("the whole range is handed over with its exact length", lambda p: and_(eq(p.get(w, 8), lo), eq(p.get(w, 3), hi - lo)))
    c.returns(a(3))
