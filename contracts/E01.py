from vcg.contract import *
U = "REPO/bindings/c/src/windowing.c"
N = toreal
PI = fn("pi")
cosine = lambda *a: (lambda i, n: add(ZERO, *[mul(R(str((-1) ** k * F(str(c)))), fn("cos", scale(PI * N(i) / (N(n) - ONE), 2 * k))) for k, c in enumerate(a)]))
half = lambda n: (N(n) - ONE) / R(2)
def triang(i, n):
    odd = eq(imod(n, 2), I(1))
    L = N(n) + ite(odd, ONE, ZERO)
    return ONE - fn("fabs", (N(i) - half(n)) / (L / R(2)))
WINDOWS = {
    "rectangular": lambda i, n: ONE, "boxcar": lambda i, n: ONE,
    "triangular": triang,
    "bartlett": lambda i, n: ONE - fn("fabs", (N(i) - half(n)) / half(n)),
    "welch": lambda i, n: ONE - ipow((N(i) - half(n)) / half(n), 2),
    "hanning": cosine(".5", ".5"), "hamming": cosine(".54", ".46"), "blackman": cosine(".42", ".5", ".08"),
    "blackman_harris": cosine(".35875", ".48829", ".14128", ".01168"), "blackman_nutall": cosine(".3635819", ".4891775", ".1365995", ".0106411"),
    "flattop": cosine(".21557895", ".41663158", ".277263158", ".083578947", ".006947368"),
}
for w, f in WINDOWS.items():
    @contract("E01", U, w)
    def _(c, w=w, f=f):
        n = c.size("n", 1 if w in ("rectangular", "boxcar") else 2); y = c.output("y", n)
        c.call(y, n)
        c.ensures_all("position i holds the formula's value", 0, n, lambda p, i: eq(p.get(y, i), f(i, n)))
