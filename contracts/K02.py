from vcg.contract import *
from contracts.K01 import record, balanced
H = "H/io.cpp"
BIG = 2**40
def config(c):
    a, w = record(c)
    c.requires(ne(a(0), I(0)))
    c.gen(lambda rng, env: env["a"].__setitem__(0, 1))
    return a, w, c.int("ch", 1, 1024), c.int("q", 0, 4), c.real("ratio", [0.5, 1.0, 2.0, 0.25, 3.0, 1.5])
@contract("K02", H, "h_resampler_life")
def _(c):
    a, w, ch, q, ratio = config(c)
    c.call(a, ch, q, ratio, w); balanced(c, w)
    c.ensures("one engine state", lambda p: eq(p.get(w, 1), I(1)))
    c.ensures("created for the requested quality and channels", lambda p: and_(eq(p.get(w, 3), q), eq(p.get(w, 4), ch)))
    c.ensures("one engine reset per reset", lambda p: eq(p.get(w, 5), I(1)))
    c.ensures("accessors read back the settings", lambda p: and_(eq(p.get(w, 8), ch), eq(p.get(w, 9), q), eq(p.get(w, 10), I(1)), eq(p.get(w, 11), I(0))))
@contract("K02", H, "h_resampler_process")
def _(c):
    a, w, ch, q, ratio = config(c); c.requires(lt(ZERO, ratio)); c.requires(le(ratio, R(256)))
    n = c.int("n", 1, BIG); x = c.input("x", n, "F"); y = c.output("y", 1, "F"); g = c.output("g", 1)
    c.call(a, ch, q, ratio, x, n, y, w, g); balanced(c, w)
    frames = trunc(toreal(n) / toreal(ch))
    c.ensures("the caller's buffers are handed over from their beginning", lambda p: and_(eq(p.get(w, 10), I(0)), eq(p.get(w, 11), I(0))))
    c.ensures("input is the number of whole frames", lambda p: eq(p.get(w, 12), frames))
    c.ensures("output capacity is ratio times the input frames", lambda p: eq(p.get(w, 13), trunc(ratio * toreal(frames))))
    c.ensures("the configured ratio is used", lambda p: eq(p.get(g, 0), ratio))
    c.ensures("the stream does not end with a block", lambda p: eq(p.get(w, 14), I(0)))
    c.ensures("frames consumed and produced are the engine's", lambda p: and_(eq(p.get(w, 8), a(1)), eq(p.get(w, 9), a(2))))
@contract("K02", H, "h_resampler_valid")
def _(c):
    ratio = c.real("ratio", [0.0, -1.0, 1.0, 2.0])
    c.call(ratio)
    c.returns(lambda p: ite(lt(ZERO, ratio), I(1), I(0)))
