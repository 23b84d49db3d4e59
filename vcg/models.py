"""Contracts assumed for functions outside the library: LLVM intrinsics, libm, libc memory, operator new/delete."""
import re
from .term import *
from .irparse import *
from .solve import feasible, Fact

def _m1(f):
    return lambda sx, st, a, ins: ("v", dom(sx, st, f, a))
def dom(sx, st, f, a):
    a = [x if isinstance(x, T) else fresh("undef", "R") for x in a]
    if f == "sqrt": sx.oblige(st, "definedness", "sqrt argument >= 0", le(ZERO, a[0]))
    if f in ("ln", "log10", "log2"): sx.oblige(st, "definedness", "logarithm argument > 0", lt(ZERO, a[0]))
    if f == "asin": sx.oblige(st, "definedness", "asin argument in [-1,1]", and_(le(num(-1), a[0]), le(a[0], ONE)))
    if f == "pow":
        r = fn("pow", a[0], a[1])
        y = a[1]
        if not (y.op == "num" and y.a[0].denominator == 1 or (y.op != "num" and int_valued(y))):
            sx.oblige(st, "definedness", "base of a real power >= 0", le(ZERO, a[0]))
        return r
    if f in ("fmod", "remainder"): sx.oblige(st, "definedness", "divisor non-zero", ne(a[1], ZERO))
    return fn(f, *a)

LIBM = {"sin": "sin", "cos": "cos", "tan": "tan", "exp": "exp", "log": "ln", "log10": "log10", "log2": "log2", "log1p": "log1p", "expm1": "expm1",
        "exp2": "exp2", "exp10": "exp10", "pow": "pow", "sqrt": "sqrt", "fabs": "fabs", "atan": "atan", "atan2": "atan2", "sinh": "sinh", "cosh": "cosh",
        "tanh": "tanh", "asinh": "asinh", "asin": "asin", "cbrt": "cbrt", "fmod": "fmod", "remainder": "remainder", "hypot": "hypot", "copysign": "copysign", "powi": "pow"}
RND = {"floor": floor, "ceil": ceil, "trunc": trunc, "round": round_away, "rint": rint, "nearbyint": rint, "roundeven": rint}

CONTRACT_FIRST = re.compile(r"_ZSt(?:11nth_element|4sort)I\w+|_ZN4edsp4meta(?:7expects|7ensures|6ensure)EbRKN6nonstd7sv_lite\w+|_ZN4edsp4core6logger(?:C[12]ENS1_6levelsE|D[12]Ev|ls\w+)")
def intrinsic(sx, st, name, a, ins):
    m = re.fullmatch(r'llvm\.([a-z0-9_]+(?:\.[a-z_]+)*?)((?:\.(?:f64|f32|f80|i\d+|p0|v\d\w+|p0i8))*)', name)
    b = m.group(1) if m else name
    if m and isinstance(a[0] if a else None, type(None)): pass
    if b in LIBM and (m or name in LIBM):
        sx.assumed.add("libm:" + b)
        return ("v", dom(sx, st, LIBM[b], [toreal(x) if isinstance(x, T) else x for x in a[:2 if b in ("pow", "powi", "fmod", "remainder", "hypot", "copysign", "atan2") else 1]]))
    if name == "cabs":
        sx.assumed.add("libm:cabs")
        return ("v", dom(sx, st, "sqrt", [add(mul(a[0], a[0]), mul(a[1], a[1]))]))
    if name == "carg":
        sx.assumed.add("libm:carg")
        return ("v", dom(sx, st, "atan2", [a[1], a[0]]))
    if b in RND and (m or name in RND): return ("v", toreal(RND[b](a[0])))
    if b in ("lround", "llround", "lrint", "llrint"):
        r = round_away(a[0]) if "round" in b else rint(a[0])
        return ("v", r)
    if not m:
        if name == "fmin": return ("v", ite(lt(a[1], a[0]), a[1], a[0]))
        if name == "fmax": return ("v", ite(lt(a[0], a[1]), a[1], a[0]))
        return None
    if b in ("lifetime.start", "lifetime.end", "experimental.noalias.scope.decl", "assume", "dbg.value", "dbg.declare", "donothing", "prefetch", "invariant.start", "invariant.end", "stacksave", "stackrestore", "va_start", "va_end"):
        return ("v", None)
    if b in ("expect", "launder.invariant.group", "strip.invariant.group", "annotation", "ssa.copy"): return ("v", a[0])
    if b in ("minnum", "minimum"): return ("v", ite(lt(a[1], a[0]), a[1], a[0]))
    if b in ("maxnum", "maximum"): return ("v", ite(lt(a[0], a[1]), a[1], a[0]))
    if b == "fmuladd" or b == "fma": return ("v", add(mul(a[0], a[1]), a[2]))
    if b in ("smax", "smin"):
        c = lt(a[0], a[1]) if b == "smax" else lt(a[1], a[0])
        d = sx.decide(st, c)
        return ("v", a[1] if d is True else a[0] if d is False else ite(c, a[1], a[0]))
    if b in ("umax", "umin"):
        n = ins.ty.n
        x, y = sx.unsigned(st, a[0], n), sx.unsigned(st, a[1], n)
        c = lt(x, y) if b == "umax" else lt(y, x)
        d = sx.decide(st, c)
        return ("v", a[1] if d is True else a[0] if d is False else ite(c, a[1], a[0]))
    if b == "abs": return ("v", ite(le(I(0), a[0]), a[0], neg(a[0])))
    if b in ("usub.sat",):
        n = ins.ty.n
        x, y = sx.unsigned(st, a[0], n), sx.unsigned(st, a[1], n)
        return ("v", ite(lt(x, y), I(0), sub(x, y)))
    if b in ("ctpop",):
        return ("v", app("ctpop", a[0], I(ins.ty.n), s="I"))
    if b in ("umul.with.overflow", "uadd.with.overflow", "smul.with.overflow", "sadd.with.overflow"):
        from .symex import Agg
        r = mul(a[0], a[1]) if "mul" in b else add(a[0], a[1])
        return ("v", Agg([r, FALSE]))
    if b in ("memcpy", "memmove", "memcpy.inline"): return memcpy(sx, st, a)
    if b == "memset": return memset(sx, st, a)
    if b == "trap": return trap(sx, st)
    if b in ("objectsize",): return ("v", I(-1))
    if b == "is.constant": return ("v", FALSE)
    if b == "is.fpclass": return ("v", FALSE)
    return None

def trap(sx, st):
    sx.oblige(st, "reachability", "trap is not reached", FALSE)
    return []

def _elems(sx, st, o, n, default=8):
    S = o.S or default
    if o.S is None: o.S = S
    d = pd(n)
    if any((c / S).denominator != 1 for c in d.values()): return None
    return mkpoly({m: c / S for m, c in d.items()}, "I")

def flat(sx, o):
    """flat scalar layout of an object element: list of (offset, Ty)"""
    return sorted(o.fields.items())

def memcpy(sx, st, a):
    from .symex import Unsupported, Ptr, Layer, Write, Base, Agg
    d, s, n = a[0], a[1], a[2]
    if n.op == "num" and n.a[0] == 0: return ("v", None)
    if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Unsupported("memcpy operands")
    if d.o is None or s.o is None:
        if sx.decide(st, eq(n, I(0))) is True: return ("v", None)
        # length zero is the only defined case
        sx.oblige(st, "memory", "memcpy with a null operand has zero length", eq(n, I(0)))
        st.assume(eq(n, I(0)))
        return ("v", None)
    od, os_ = st.objs[d.o], st.objs[s.o]
    if od.S is None and os_.S is not None: od.S = os_.S
    if os_.S is None and od.S is not None: os_.S = od.S
    S = od.S or 8
    if n.op == "num" and int(n.a[0]) <= 512 and (os_.fields or od.fields or od.S != os_.S or od.S > 8 or od.kind == "stack"):
        # constant-size copy: field by field
        N = int(n.a[0])
        offs = set()
        for (o, base) in ((os_, s), (od, d)):
            for (nm, f) in list(st.mem):
                if nm == o.name:
                    bo = pd(base.off).get((), F(0))
                    r = int((f - bo) % o.S)
                    while r < N: offs.add(r); r += o.S
            for f in o.fields:
                r = int((f - pd(base.off).get((), F(0))) % o.S)
                while r < N: offs.add(r); r += o.S
            for lo, hi, part in getattr(o, "subs", None) or ():
                bo = int(pd(base.off).get((), F(0)))
                offs |= set(x - bo for x in range(lo, hi, st.objs[part].S) if 0 <= x - bo < N)
        if not offs: offs = set(range(0, N, 8))
        vals = []
        for r in sorted(offs):
            ty = field_ty(sx, st, os_, od, s, d, r)
            vals.append((r, ty, sx.load(st, Ptr(s.o, add(s.off, I(r))), ty)))
        for r, ty, v in vals: sx.store(st, Ptr(d.o, add(d.off, I(r))), v, ty)
        return ("v", None)
    if od.S != os_.S and n.op != "num" and all((c / 8).denominator == 1 for c in pd(n).values()):
        # a few words between differently laid out objects: one case per length
        if sx.decide(st, and_(le(I(0), n), le(n, I(16)))) is not True: raise Unsupported("memcpy between layouts %s/%s" % (od.S, os_.S))
        outs = []
        for k in (0, 8, 16):
            s2 = st.fork(); s2.assume(eq(n, I(k)))
            if not feasible(s2.ctx(), TRUE, 4.0): continue
            if k: memcpy(sx, s2, [d, s, I(k)])
            outs.append(("ret", None, s2))
        return outs
    if od.S != os_.S: raise Unsupported("memcpy between layouts %s/%s" % (od.S, os_.S))
    cnt = _elems(sx, st, od, n, S)
    if cnt is None: raise Unsupported("memcpy size")
    fields = sorted(set(f for (nm, f) in st.mem if nm in (d.o, s.o)) | set(os_.fields) | set(od.fields)) or [0]
    ty0 = DBL if S == 8 else int_ty(8 * S) if S in (1, 2, 4) else DBL
    pos = st.fork()
    z = sx.decide(st, eq(cnt, I(0)))
    if z is True: return ("v", None)
    _, fd, di = sx.cell(st, d, ty0, "write"); _, fs, si = sx.cell(st, s, ty0, "read")
    Ld, Ls = od.length(), os_.length()
    if z is None: pos.assume(lt(I(0), cnt))
    if Ls is not None: sx.oblige(pos, "bounds", "block read of %s within its range" % os_.name, and_(le(I(0), si), le(add(si, cnt), Ls)))
    if Ld is not None: sx.oblige(pos, "bounds", "block write of %s within its range" % od.name, and_(le(I(0), di), le(add(di, cnt), Ld)))
    sx.oblige(pos, "arith", "block length is not negative", le(I(0), cnt))
    if not od.writable: sx.oblige(pos, "frame", "write to the read-only range %s" % od.name, FALSE)
    if fd != 0 or fs != 0: raise Unsupported("memcpy at field offset")
    kv = fresh("m", "I")
    for f in fields:
        ty = os_.fields.get(f) or od.fields.get(f) or ty0
        if (s.o, f) not in st.mem and (d.o, f) in st.mem:
            c = st.mem[(d.o, f)]
            while not isinstance(c, Base): c = c.prev
            ty = DBL if c.s == "R" else ty
        src = sx.content(st, os_, f, ty)
        tmp = st.fork(); tmp.assume(le(I(0), kv)); tmp.assume(lt(kv, cnt))
        v = sx.read(tmp, src, add(si, kv), ty)
        dst = sx.content(st, od, f, ty)
        st.mem[(d.o, f)] = Layer(dst, kv, cnt, [(add(di, kv), TRUE, v)])
        st.stores.append(((d.o, f), ("range", di, cnt), None))
    return ("v", None)

def field_ty(sx, st, os_, od, s, d, r):
    from .symex import Base
    for o, p in ((os_, s), (od, d)):
        f = int((pd(p.off).get((), F(0)) + r) % o.S)
        if f in o.fields: return o.fields[f]
        c = st.mem.get((o.name, f))
        while c is not None and not isinstance(c, Base): 
            from .symex import Write
            if isinstance(c, Write):
                v = c.val
                from .symex import Ptr
                if isinstance(v, Ptr): return PTR
                if isinstance(v, T): return DBL if v.s == "R" else int_ty(64)
            c = c.prev
        if c is not None: return DBL if c.s == "R" else int_ty(64)
    return DBL

def memset(sx, st, a):
    from .symex import Unsupported, Ptr, Layer, Write, Base
    d, v, n = a[0], a[1], a[2]
    if n.op == "num" and n.a[0] == 0: return ("v", None)
    if not isinstance(d, Ptr) or d.o is None: raise Unsupported("memset operand")
    od = st.objs[d.o]
    if v.op != "num" and od.S != 1: raise Unsupported("memset value")
    if od.S is None: od.S = 8
    S = od.S
    if S != 1 and v.a[0] != 0: raise Unsupported("memset non-zero")
    if n.op == "num" and (od.kind == "stack" or od.fields or od.S > 8) and int(n.a[0]) <= 512:
        N = int(n.a[0]); base = pd(d.off).get((), F(0))
        fs = set(od.fields) | set(f for (nm, f) in st.mem if nm == d.o) or set(range(0, S, 8))
        done = set()
        if not od.fields: fs |= set(int((base + r) % S) for r in range(0, N, 8))
        for f in sorted(fs):
            r = int((f - base) % S)
            while r < N:
                ty = od.fields.get(f, int_ty(64))
                sx.store(st, Ptr(d.o, add(d.off, I(r))), I(0), ty)
                r += S
        return ("v", None)
    cnt = _elems(sx, st, od, n, S)
    if cnt is None: raise Unsupported("memset size %r for element size %d" % (n, S))
    ty0 = DBL if S == 8 else int_ty(8 * S)
    z = sx.decide(st, eq(cnt, I(0)))
    if z is True: return ("v", None)
    _, fd, di = sx.cell(st, d, ty0, "write")
    L = od.length()
    pos = st.fork()
    if z is None: pos.assume(lt(I(0), cnt))
    if L is not None: sx.oblige(pos, "bounds", "block write of %s within its range" % od.name, and_(le(I(0), di), le(add(di, cnt), L)))
    sx.oblige(pos, "arith", "block length is not negative", le(I(0), cnt))
    if not od.writable: sx.oblige(pos, "frame", "write to the read-only range %s" % od.name, FALSE)
    kv = fresh("m", "I")
    for f in sorted(set(f for (nm, f) in st.mem if nm == d.o) | set(od.fields)) or [0]:
        dst = sx.content(st, od, f, od.fields.get(f, ty0))
        st.mem[(d.o, f)] = Layer(dst, kv, cnt, [(add(di, kv), TRUE, v)])
        st.stores.append(((d.o, f), ("range", di, cnt), None))
    return ("v", None)

# ------------------------------------------------------------------ C++ runtime
def op_new(sx, st, a, ins):
    from .symex import Ptr
    k = sum(1 for o in st.objs if o.startswith("heap"))
    nm = "heap%d" % k
    o = sx.newobj(st, nm, kind="heap"); o.bytes = a[0]
    sx.assumed.add("operator new returns a fresh block (allocation does not fail)")
    live = list(st.ghost.get("heap_live", ()))
    st.ghost["heap_live"] = tuple(live + [nm])
    return ("v", Ptr(nm, I(0)))
def op_delete(sx, st, a, ins):
    from .symex import Ptr, Obj
    p = a[0]
    if isinstance(p, Ptr) and p.o is not None:
        o = st.objs[p.o]
        if o.kind == "dead": sx.oblige(st, "memory", "block %s released twice" % p.o, FALSE)
        if o.kind == "heap":
            o2 = Obj(o.name, o.S, o.n, o.writable, "dead", o.fields); o2.bytes = o.bytes
            st.objs[p.o] = o2
            st.ghost["heap_live"] = tuple(x for x in st.ghost.get("heap_live", ()) if x != p.o)
        else:
            k = ("released", p.o)
            if st.ghost.get(k): sx.oblige(st, "memory", "block %s released twice" % p.o, FALSE)
            st.ghost[k] = 1
            o2 = Obj(o.name, o.S, o.n, o.writable, "dead", o.fields); st.objs[p.o] = o2
    return ("v", None)
def throw(sx, st, a, ins):
    if "onthrow" in st.ghost or True:
        return [("throw", None, st)]
def nop(sx, st, a, ins): return ("v", None)

def expects(sx, st, a, ins):
    """meta::expects / meta::ensures: the condition is an obligation at the call (the body only logs)"""
    c = a[0] if a[0].s == "B" else ne(a[0], I(0))
    sx.oblige(st, "expectation", "the library's own expectation holds", c)
    st.assume(c)
    return ("v", None)

def logs(sx, st, a, ins):
    sx.assumed.add("edsp::logger only formats and prints its arguments")
    return ("v", a[0])

def mutex(sx, st, a, ins):
    sx.assumed.add("pthread mutex operations succeed")
    return ("v", I(0))
def zero_bytes(st, c):
    """positions known to hold zero"""
    from .symex import Write, Base
    out, names = [], set()
    while c is not None:
        if isinstance(c, Write):
            if isinstance(c.val, T) and c.val.op == "num" and c.val.a[0] == 0: out.append(c.idx)
        if isinstance(c, Base): names.add(c.name)
        c = getattr(c, "prev", None)
    for x in st.pc:
        if x.op == "eq0":
            for t in subterms(x):
                if t.op == "sel" and t.a[0] in names: out.append(t.a[1])
    return out[:8]
def strlen(sx, st, a, ins):
    """the position of the first zero byte, which the caller must have"""
    from .symex import Ptr, Unsupported
    p = a[0]
    if not isinstance(p, Ptr) or p.o is None: raise Unsupported("strlen operand")
    o = st.objs[p.o]; c = st.mem.get((p.o, 0))
    if o.S not in (None, 1) or o.length() is None: raise Unsupported("strlen of %s" % p.o)
    _, f, i0 = sx.cell(st, p, int_ty(8), "read"); L = o.length()
    cont = sx.content(st, o, f, int_ty(8))
    zeros = [z for z in zero_bytes(st, cont) if sx.decide(st, eq(sx.read(st, cont, z, int_ty(8)), I(0))) is True]
    n = fresh("len", "I"); q = fresh("q", "I")
    # existence: some byte of the object from here on is zero
    sx.oblige(st, "bounds", "a text of %s ends within its range" % p.o, or_(*[and_(le(i0, z), lt(z, L)) for z in zeros]) if zeros else FALSE)
    st.assume(le(I(0), n)); st.assume(lt(add(i0, n), L))
    for z in zeros: st.assume(implies(le(i0, z), le(add(i0, n), z)))
    at = sx.read(st, cont, add(i0, n), int_ty(8)); st.assume(eq(at, I(0)))
    s2 = st.fork(); s2.assume(le(I(0), q)); s2.assume(lt(q, n))
    st.facts.append(Fact(q, I(0), n, ne(sx.read(s2, cont, add(i0, q), int_ty(8)), I(0)), (), "strlen"))
    return ("v", n)

def string_create(sx, st, a, ins):
    """std::string::_M_create: a fresh block for the requested capacity, which at least doubles when it grows"""
    cap = sx.load(st, a[1], int_ty(64)); old = a[2]
    sx.oblige(st, "memory", "a text's length fits the address space", and_(le(I(0), cap), le(cap, I(2**62))))
    new = cap if old.op == "num" and old.a[0] == 0 else ite(and_(lt(old, cap), lt(cap, mul(I(2), old))), mul(I(2), old), cap)
    if new is not cap: sx.store(st, a[1], new, int_ty(64))
    return op_new(sx, st, [add(new, I(1))], ins)

def ctype(f):
    def m(sx, st, a, ins):
        sx.assumed.add("libc:" + f)
        sx.oblige(st, "definedness", "%s is called on a character value" % f, and_(le(I(-1), a[0]), le(a[0], I(255))))
        return ("v", app(f, a[0], s="I"))
    return m
def string_parts(sx, st, this):
    from .symex import Ptr
    p = sx.load(st, this, PTR); n = sx.load(st, Ptr(this.o, add(this.off, I(8))), int_ty(64))
    return p, n
def string_erase(sx, st, a, ins):
    """std::string::_M_erase(pos, n): the characters after pos + n move down, followed by the terminator"""
    from .symex import Ptr, Layer
    this, pos, n = a
    p, L = string_parts(sx, st, this); o = st.objs[p.o]; B = int_ty(8)
    sx.oblige(st, "bounds", "erased characters lie within the text", and_(le(I(0), pos), le(I(0), n), le(add(pos, n), L)))
    _, f, i0 = sx.cell(st, p, B, "write")
    old = sx.content(st, o, f, B); kv = fresh("m", "I"); cnt = sub(L, add(pos, n))
    tmp = st.fork(); tmp.assume(le(I(0), kv)); tmp.assume(lt(kv, cnt))
    v = sx.read(tmp, old, add(i0, pos, n, kv), B)
    st.mem[(o.name, f)] = Layer(old, kv, cnt, [(add(i0, pos, kv), TRUE, v)])
    st.stores.append(((o.name, f), ("range", add(i0, pos), cnt), None))
    sx.store(st, Ptr(this.o, add(this.off, I(8))), sub(L, n), int_ty(64))
    sx.store(st, Ptr(p.o, add(p.off, sub(L, n))), I(0), B)
    sx.assumed.add("std::string::_M_erase removes the given characters")
    return ("v", None)

def selection(everything):
    """std::nth_element / std::sort: the range is rearranged, so that the chosen element (every element) is in its place.
    A collection is represented by the sum of item(value), with item an injection into numbers independent over the rationals."""
    def m(sx, st, a, ins):
        from .symex import Ptr, Layer, Write, Unsupported
        first, last, nth = a[0], a[-1], a[1]
        for p in a:
            if not isinstance(p, Ptr) or p.o != first.o: raise Unsupported("iterators of different ranges")
        z = eq(first.off, last.off)
        if sx.decide(st, z) is True: return ("v", None)
        o, f, i0 = sx.cell(st, first, DBL, "write"); _, f1, i1 = sx.cell(st, last, DBL, "write")
        if f != 0 or f1 != 0 or o.S != 8: raise Unsupported("selection on a range of %s" % o.name)
        cnt = sub(i1, i0); L = o.length()
        sx.oblige(st, "bounds", "rearranged elements lie within %s" % o.name, and_(le(I(0), i0), le(I(0), cnt), le(i1, L)) if L is not None else TRUE)
        if not o.writable: sx.oblige(st, "frame", "write to the read-only range %s" % o.name, FALSE)
        old = sx.content(st, o, f, DBL); kv = fresh("m", "I")
        tmp = st.fork(); tmp.assume(le(I(0), kv)); tmp.assume(lt(kv, cnt))
        known = st.ghost.get(("collection", o.name))
        if known and known[0] is old and known[1] is i0 and known[2] is cnt: M = known[3]       # rearranged again
        else: M = psum(app("item", sx.read(tmp, old, add(i0, kv), DBL), s="R"), kv, cnt)
        P = str(fresh("perm", "R").a[0]); at = lambda i: sel(P, i)
        v = fresh("q", "I")
        if everything: st.facts.append(Fact(v, I(0), cnt, eq(at(v), app("order", v, M, s="R")), (), "sort"))
        else:
            _, _, i2 = sx.cell(st, nth, DBL, "read"); k = sub(i2, i0)
            sx.oblige(st, "bounds", "the selected position lies within the range", and_(le(I(0), k), le(k, cnt)))
            proper = sx.decide(st, lt(k, cnt)); st.assume(implies(lt(k, cnt), eq(at(k), app("order", k, M, s="R"))))
            st.facts.append(Fact(v, I(0), k, le(at(v), at(k)), (), "selection"))
            st.facts.append(Fact(v, k, cnt, le(at(k), at(v)), (), "selection"))
        st.assume(eq(psum(app("item", at(v), s="R"), v, cnt), M))
        new = Layer(old, kv, cnt, [(add(i0, kv), TRUE, app("order", kv, M, s="R") if everything else at(kv))])
        if not everything and proper is True: new = Write(new, i2, app("order", k, M, s="R"))
        st.mem[(o.name, f)] = new; st.ghost[("collection", o.name)] = (new, i0, cnt, M)
        st.stores.append(((o.name, f), ("range", i0, cnt), None))
        sx.assumed.add("std::sort rearranges its range in order" if everything else "std::nth_element rearranges its range around the element of that rank")
        return ("v", None)
    return m

MODELS = [
    (r'_ZSt11nth_elementIN9__gnu_cxx17__normal_iteratorIPdSt6vectorIdSaIdEEEEEvT_S7_S7_|_ZSt11nth_elementIPdEvT_S1_S1_', selection(False)),
    (r'_ZSt4sortIN9__gnu_cxx17__normal_iteratorIPdSt6vectorIdSaIdEEEEEvT_S7_|_ZSt4sortIPdEvT_S1_', selection(True)),
    (r'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE8_M_eraseEmm', string_erase),
    (r'tolower', ctype("tolower")), (r'toupper', ctype("toupper")), (r'isspace', ctype("isspace")),
    (r'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm', string_create),
    (r'pthread_mutex_(?:un)?lock', mutex),
    (r'strlen', strlen),
    (r'_ZN4edsp4core6logger(?:C[12]ENS1_6levelsE|D[12]Ev|ls\w+)', logs),
    (r'_ZN4edsp4meta(?:7expects|7ensures|6ensure)EbRKN6nonstd7sv_lite\w+', expects),
    (r'_Zn[wa]m(RKSt9nothrow_t)?|malloc', op_new),
    (r'_Zd[la]Pv(m|mSt11align_val_t)?|free', op_delete),
    (r'_ZSt\d+__throw_\w+|__cxa_throw|__cxa_rethrow|__cxa_bad_cast|_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE', throw),
    (r'_ZNSt\d+(?:out_of_range|invalid_argument|length_error|runtime_error|domain_error|logic_error)C[12]E(?:PKc|RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE)', lambda sx, st, a, ins: ("v", None)),
    (r'__cxa_allocate_exception', lambda sx, st, a, ins: op_new(sx, st, [a[0]], ins)),
]
