"""The memory, frame and termination part of every contract on an array-processing function: same preconditions as the
functional contract, no postcondition but the frame.  The obligations are the bounds of every access, the const-ness of every
written object, the lifetime of every heap block and the ranking of every loop.  A second contract instantiates the functions
that accept an empty range at length zero, where only the value (0/0) is undefined."""
import importlib, re
from vcg.contract import *
from vcg import contract as CT
SOURCES = "A01 A02 A03 A04 B03 C01 C02 C03 D01 D02 D03 D04 D05 E01 G01 G05 I01 I02".split()
EMPTY = "silence mean geometric_mean harmonic_mean variance standard_deviation h_power h_rms h_spread h_weighted_spread h_spectral_spread h_flatness h_spectral_flatness h_entropy h_spectral_entropy h_variation h_spectral_variation".split() + ["moment of order %d" % k for k in range(1, 9)]
FRAME = re.compile("unchanged|left alone|no plan is misused|destroyed")
def memory_only(build, empty=False):
    def b(c):
        if empty:
            o = c.int
            c.int = lambda name, lo, hi: I(0) if name == "n" else o(name, lo, hi)
            c.size = lambda name, lo=0, hi=2**31 - 1: c.int(name, lo, hi)
            c.drop = ("definedness",)
        build(c)
        c.ens = [e for e in c.ens if FRAME.search(e[1])]
        c.using = {k: () for k in c.using}
        c.ensures("the call returns", lambda p: TRUE)
    return b
_seen = set()
for p in SOURCES:
    importlib.import_module("contracts." + p)
    for d in list(CT.REGISTRY.get(p, [])):
        if p == "G01" and "set_" in d.fn or p == "G01" and "get_" in d.fn: continue
        name = "%s (%s)" % (d.name, p) if d.name in _seen else d.name
        _seen.add(d.name)
        R_ = CT.REGISTRY.setdefault("N01", [])
        R_.append(CT.ContractDef("N01", d.unit, d.fn, memory_only(d.build), name, d.bounded))
        if d.name in EMPTY: R_.append(CT.ContractDef("N01", d.unit, d.fn, memory_only(d.build, True), name + ": empty range", d.bounded))
