from vcg.contract import *
from contracts.scales import *
from contracts.B01 import scalar
REGISTRY.pop("B01", None)
H = "H/convert.cpp"
def sc(f, spec, **k): scalar(f, spec, unit=H, prop="B02", **k)
aud = lambda v: and_(lt(ZERO, v), lt(v, num(10**6)))
NZ = dict()
sc("h_hertz2mel", hz2mel, req=lambda v: lt(num(-700), v))
sc("h_mel2hertz", lambda m: num(700) * (fn("exp", m / D("1127.01048")) - ONE))
sc("h_hertz2bark", hz2bark, req=lambda v: le(ZERO, v))
def bk2hz(z):
    b = ite(lt(z, num(2)), (num(20) * z - num(6)) / num(17), ite(lt(D("20.1"), z), (num(50) * z + D("221.1")) / num(61), z))
    return num(1960) * (b + D("0.53")) / (D("26.28") - b)
# Bark values of finite non-negative frequencies
barkdom = lambda z: and_(le(D("-0.1505"), z), lt(z, D("27.6396")))
sc("h_bark2hertz", bk2hz, req=barkdom)
sc("h_hertz2erb", hz2erb, req=lambda v: le(ZERO, v))
sc("h_erb2hertz", lambda e: (fn("pow", num(10), e / D("21.4")) - ONE) * num(1000) / D("4.37"))
sc("h_hertz2cent", hz2cent, pos=True)
sc("h_cent2hertz", lambda z: num(440) * fn("exp", (z - num(5700)) / num(1200) * fn("ln", num(2))), pos=True)
ident = lambda v: v
sc("h_mel2hertz_hertz2mel", ident, req=lambda v: lt(num(-700), v), name="mel2hertz after hertz2mel is the identity")
sc("h_hertz2mel_mel2hertz", ident, name="hertz2mel after mel2hertz is the identity")
sc("h_bark2hertz_hertz2bark", ident, req=lambda v: le(ZERO, v), name="bark2hertz after hertz2bark is the identity")
sc("h_hertz2bark_bark2hertz", ident, req=barkdom, name="hertz2bark after bark2hertz is the identity")
sc("h_erb2hertz_hertz2erb", ident, req=lambda v: le(ZERO, v), name="erb2hertz after hertz2erb is the identity")
sc("h_hertz2erb_erb2hertz", ident, sane=lambda v: le(fn("fabs", v), num(60)), name="hertz2erb after erb2hertz is the identity")
# the cent scale is odd-extended by the code: it is invertible where its value is positive (above about 16.35 Hz)
sc("h_cent2hertz_hertz2cent", ident, req=lambda v: and_(lt(ZERO, v), lt(ZERO, hz2cent(v))), name="cent2hertz after hertz2cent is the identity")
sc("h_hertz2cent_cent2hertz", ident, pos=True, name="hertz2cent after cent2hertz is the identity")
