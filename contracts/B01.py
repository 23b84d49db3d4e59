from vcg.contract import *
U = "REPO/bindings/c/src/converter.cpp"
H = "H/convert.cpp"
def scalar(fn_, spec, pos=False, unit=U, name=None, req=None, prop="B01", sane=None):
    @contract(prop, unit, fn_, name)
    def _(c):
        v = c.real("v", [0.5, 1.0, 2.0, 10.0, 100.0, 1e-3] if pos else [-3.0, 0.0, 1.0, 20.0, 180.0])
        if pos: c.requires(lt(ZERO, v))
        if req: c.requires(req(v))
        if sane: c.sane(sane(v))
        c.call(v); c.ensures("the value is the documented formula", lambda p: eq(p.ret, spec(v)))
TEN = num(10)
scalar("mag2db", lambda v: num(20) * fn("log10", v), pos=True)
scalar("pow2db", lambda v: TEN * fn("log10", v), pos=True)
scalar("db2mag", lambda v: fn("pow", TEN, v / num(20)))
scalar("db2pow", lambda v: fn("pow", TEN, v / num(10)))
scalar("rad2deg", lambda v: v * num(180) / PI)
scalar("deg2rad", lambda v: v * PI / num(180))
for a, b, p in (("mag2db", "db2mag", False), ("db2mag", "mag2db", True), ("pow2db", "db2pow", False), ("db2pow", "pow2db", True), ("rad2deg", "deg2rad", False), ("deg2rad", "rad2deg", False)):
    scalar("h_%s_%s" % (a, b), lambda v: v, pos=p, unit=H, name="%s after %s is the identity" % (a, b))
