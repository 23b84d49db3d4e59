from vcg.contract import *
from contracts.E01 import WINDOWS, U
NONNEG = ("rectangular", "boxcar", "triangular", "bartlett", "welch", "hanning", "hamming", "blackman", "blackman_harris", "blackman_nutall")
TOP = {"flattop": F("1.000000003")}
for w in WINDOWS:
    @contract("E02", U, w)
    def _(c, w=w):
        n = c.size("n", 1 if w in ("rectangular", "boxcar") else 2); y = c.output("y", n)
        c.call(y, n)
        c.ensures_all("symmetric", 0, n, lambda p, i: eq(p.get(y, i), p.get(y, n - I(1) - i)))
        c.ensures_all("never above one", 0, n, lambda p, i: le(p.get(y, i), R(TOP.get(w, 1))))
        if w in NONNEG: c.ensures_all("never negative", 0, n, lambda p, i: le(ZERO, p.get(y, i)))
    @contract("E02", U, w, w + " at its centre")
    def _(c, w=w):
        n = c.size("n", 3); y = c.output("y", n); m = c.int("m", 1, 2**30 - 1)
        c.requires(eq(n, I(2) * m + I(1)))
        c.gen(lambda rng, env: env.__setitem__("m", (env["n"] - 1) // 2))
        c.call(y, n)
        c.ensures("the centre of an odd window is its peak value", lambda p: eq(p.get(y, m), R(TOP.get(w, 1))))
