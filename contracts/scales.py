"""Published auditory scale formulas."""
from vcg.contract import *
def D(s): return num(F(s))
def bark_raw(f): return D("26.81") * f / (D("1960") + f) - D("0.53")
def hz2bark(f):
    b = bark_raw(f)
    return ite(lt(b, num(2)), b + D("0.15") * (num(2) - b), ite(lt(D("20.1"), b), b + D("0.22") * (b - D("20.1")), b))
def hz2mel(f): return D("1127.01048") * fn("ln", ONE + f / num(700))
def hz2erb(f): return D("21.4") * fn("log10", ONE + D("4.37") * f / num(1000))
def hz2cent(f): return num(1200) * fn("log2", f / num(440)) + num(5700)
