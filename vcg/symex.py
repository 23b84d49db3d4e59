"""Verification-condition generator: symbolic execution of LLVM IR functions with loops summarised by
inferred-and-checked inductive closed forms.  Every step that is not an identity is recorded as an
obligation that the solver has to discharge."""
import re
from .term import *
from .irparse import *
from .solve import *
from . import solve as S_

class Unsupported(Exception): pass
STRING = re.compile(r'"?class\.std::__cxx11::basic_string(?:\.\d+)?"?')

class Ptr:
    __slots__ = ("o", "off")
    def __init__(self, o, off): self.o, self.off = o, off
    def __repr__(self): return "Ptr(%s,%r)" % (self.o, self.off)
NULL = Ptr(None, I(0))
class Lin:
    """integer combination of object addresses plus an offset (pointers that went through ptrtoint)"""
    __slots__ = ("c", "off")
    def __init__(self, c, off): self.c, self.off = c, off
def lin_of(x): return (dict(x.c), x.off) if isinstance(x, Lin) else (({x.o: 1} if x.o is not None else {}, x.off) if isinstance(x, Ptr) else ({}, x))
def lin_add(a, b, sg=1):
    ca, oa = lin_of(a); cb, ob = lin_of(b)
    for k, v in cb.items(): ca[k] = ca.get(k, 0) + sg * v
    ca = {k: v for k, v in ca.items() if v}
    off = add(oa, ob) if sg > 0 else sub(oa, ob)
    if not ca: return off
    if len(ca) == 1 and list(ca.values()) == [1]: return Ptr(list(ca)[0], off)
    return Lin(ca, off)
class Agg:
    __slots__ = ("v",)
    def __init__(self, v): self.v = list(v)
    def __repr__(self): return "Agg%r" % (self.v,)
class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()
class FnPtr:
    def __init__(self, n): self.n = n

class Obj:
    def __init__(self, name, S=None, n=None, writable=True, kind="arg", fields=None):
        self.name, self.S, self.n, self.writable, self.kind = name, S, n, writable, kind
        self.fields = fields or {}      # off -> Ty (for struct-like objects)
        self.bytes = None               # byte size (heap objects, until S is known)
    def length(self):
        if self.n is None and self.bytes is not None and self.S:
            d = pd(self.bytes)
            if all((c / self.S).denominator == 1 for c in d.values()):
                return mkpoly({m: c / self.S for m, c in d.items()}, "I")
        return self.n

# ------------------------------------------------------------------ memory contents (immutable)
class Base:
    def __init__(self, name, s): self.name, self.s = name, s
    def subst(self, mp): return self
class Write:
    def __init__(self, prev, idx, val): self.prev, self.idx, self.val = prev, idx, val
    def subst(self, mp):
        p = self.prev.subst(mp); i = subst(self.idx, mp); v = vsubst(self.val, mp)
        return self if p is self.prev and i is self.idx and v is self.val else Write(p, i, v)
class Layer:
    """iterations kv in [0,K): if cond(kv) then cell idx(kv) := val(kv); later iterations win (idx injective)"""
    def __init__(self, prev, kv, K, stores): self.prev, self.kv, self.K, self.stores = prev, kv, K, stores
    def subst(self, mp):
        mp = {k: v for k, v in mp.items() if k is not self.kv}
        return Layer(self.prev.subst(mp), self.kv, subst(self.K, mp), [(subst(i, mp), subst(c, mp), vsubst(v, mp)) for i, c, v in self.stores])

def vsubst(v, mp):
    if isinstance(v, T): return subst(v, mp)
    if isinstance(v, Ptr):
        o = subst(v.off, mp)
        return v if o is v.off else Ptr(v.o, o)
    if isinstance(v, Agg): return Agg([vsubst(x, mp) for x in v.v])
    if isinstance(v, Lin): return Lin(v.c, subst(v.off, mp))
    return v

class State:
    __slots__ = ("env", "mem", "pc", "facts", "objs", "ghost", "stores", "trace")
    def __init__(self): self.env, self.mem, self.pc, self.facts, self.objs, self.ghost, self.stores, self.trace = {}, {}, [], [], {}, {}, [], []
    def fork(self):
        s = State.__new__(State)
        s.env, s.mem, s.pc, s.facts, s.objs, s.ghost, s.stores, s.trace = dict(self.env), dict(self.mem), list(self.pc), list(self.facts), dict(self.objs), dict(self.ghost), list(self.stores), self.trace
        return s
    def assume(self, c):
        if c is TRUE: return
        if c.op == "and":
            for x in c.a: self.assume(x)
        elif c not in self.pc: self.pc.append(c)
    def ctx(self): return Ctx(self.pc, self.facts)
    def subst(self, mp):
        s = self.fork()
        s.env = {k: vsubst(v, mp) for k, v in self.env.items()}
        s.mem = {k: c.subst(mp) for k, c in self.mem.items()}
        s.pc = []
        for c in self.pc: s.assume(subst(c, mp))
        s.facts = [f.subst(mp) for f in self.facts]
        s.ghost = {k: (vsubst(v, mp) if not isinstance(v, (list, tuple)) else type(v)(vsubst(x, mp) if isinstance(x, (T, Ptr)) else x for x in v)) for k, v in self.ghost.items()}
        s.stores = [(k, tuple(subst(x, mp) if isinstance(x, T) else x for x in i) if isinstance(i, tuple) else subst(i, mp), vsubst(v, mp)) for k, i, v in self.stores]
        return s

class Obl:
    __slots__ = ("kind", "label", "goal", "pc", "facts", "where", "res", "time")
    def __init__(self, kind, label, goal, pc, facts, where=""):
        self.kind, self.label, self.goal, self.pc, self.facts, self.where, self.res, self.time = kind, label, goal, list(pc), list(facts), where, None, 0.0

class LoopInfo:
    def __init__(self, header): self.header, self.body, self.latches = header, set([header]), []

def analyze_loops(f):
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == "br": succ[b] = list(t.x)
        elif t.op == "switch": succ[b] = [t.x[0]] + [c[1] for c in t.x[1]]
        elif t.op == "invoke": succ[b] = [t.x[0]]        # unwind edges: callee assumed not to throw
        else: succ[b] = []
    entry = f.order[0]
    # DFS back edges
    state, back = {}, []
    st = [(entry, iter(succ[entry]))]; state[entry] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if state.get(s) == 1: back.append((b, s))
            elif s not in state:
                state[s] = 1; st.append((s, iter(succ[s]))); break
        else:
            state[b] = 2; st.pop()
    preds = {}
    for b, ss in succ.items():
        if b not in state: continue
        for s in ss: preds.setdefault(s, []).append(b)
    loops = {}
    for l, h in back:
        L = loops.setdefault(h, LoopInfo(h)); L.latches.append(l)
        w = [l]
        while w:
            x = w.pop()
            if x in L.body: continue
            L.body.add(x); w.extend(preds.get(x, []))
    return loops

class Exec:
    def __init__(self, mod, prover=None, models=None, overflow=True, contracts=None):
        self.m = mod; self.obls = []; self.rec = 0
        self.models = dict(models or {}); self.loopcache = {}
        self.nloops = 0; self.loopinv = []
        self.overflow = overflow
        self.assumed = set(); self.called = set()
        self.prover = prover or Prover()
        self.depth = 0
        self.recs = []         # recurrences of the loops met so far
        self.soft = []
        self.hints = []          # extra quantified-invariant templates
        self.frames = []
        self.steps = 0

    # ---------------- obligations
    def oblige(self, st, kind, label, goal, where=""):
        if self.rec > 0: return
        if goal is TRUE and kind in ("overflow",): 
            return
        self.obls.append(Obl(kind, label, goal, st.pc, st.facts, where))
    def decide(self, st, c, timeout=1.0):
        if c is TRUE: return True
        if c is FALSE: return False
        if c in st.pc: return True
        n = not_(c)
        if n in st.pc: return False
        ctx = st.ctx()
        if not feasible(ctx, n, timeout): return True
        if not feasible(ctx, c, timeout): return False
        return None

    # ---------------- memory
    def newobj(self, st, name, **kw):
        o = Obj(name, **kw); st.objs[name] = o
        return o
    def cell(self, st, p, ty, access):
        if not isinstance(p, Ptr): raise Unsupported("memory access through %r" % (p,))
        p = self.subobject(st, p.o, p.off)
        if p.o is None: 
            self.oblige(st, "memory", "%s through a null pointer" % access, FALSE); raise Unsupported("null dereference")
        o = st.objs.get(p.o)
        if o is None: raise Unsupported("unknown object %s" % p.o)
        sz = self.m.sizeof(ty)
        if sz == 8 and getattr(o, "cap", None) and p.off.op == "num" and p.off.a[0] == 0: o = st.objs[o.cap]
        if o.S is None: 
            o.S = sz
        d = pd(p.off); c = d.get((), F(0))
        S = o.S
        for m, q in d.items():
            if m != () and (q / S).denominator != 1:
                raise Unsupported("offset %r in object %s (element size %d)" % (p.off, p.o, S))
        f = int(c) % S
        idx = mkpoly({m: (q / S if m != () else (q - f) / S) for m, q in d.items()}, "I")
        if any(x.op == "ite" and any(y.op == "ite" for y in subterms(x.a[0])) for x in subterms(idx)) and not any(x.op == "app" for x in subterms(idx)): idx = self.collapse(st, idx)
        return o, f, idx
    def collapse(self, st, t):
        """nested conditionals that amount to one of their outcomes (steps around a ring that come back to where they began)"""
        work, leaves = [t], []
        while work and len(leaves) < 5:
            x = work.pop(); i = first_ite(x)
            if i is None:
                if x not in leaves: leaves.append(x)
            else: work += [replace_ite(x, i.a[0], v) for v in (False, True)]
        if not work:
            for x in leaves:
                if not feasible(st.ctx(), not_(eq(t, x)), 1.0): return x
        return t
    # the local buffer of a std::string is an object of its own, with a second view for the capacity it shares storage with
    def split(self, st, o, ty):
        o.subs = []
        def walk(t, off):
            r = self.m.resolve(t)
            if r.k == "array" and r.n >= 2 and self.m.resolve(r.sub[0]).k in ("double", "int", "float"):
                sub = "%s.array%d" % (o.name, off); S = self.m.sizeof(r.sub[0])
                self.newobj(st, sub, S=S, n=I(r.n), kind="stack"); o.subs.append((off, off + S * r.n, sub)); return
            if r.k != "struct": return
            offs, _ = self.m.struct_layout(r)
            if t.k == "named" and STRING.fullmatch(t.n):
                sub = "%s.chars%d" % (o.name, off)
                b = self.newobj(st, sub, S=1, n=I(16), kind="stack"); b.cap = sub + ".cap"
                self.newobj(st, b.cap, S=8, n=I(1), kind="stack")
                o.subs.append((off + 16, off + 32, sub)); return
            for k, x in zip(offs, r.sub): walk(x, off + k)
        walk(ty, 0)
    def subobject(self, st, name, off):
        o = st.objs.get(name) if name is not None else None
        subs = getattr(o, "subs", None) or ()
        if subs and off.op != "num":
            # a variable index: into the array whose element size is the stride (its range is an obligation at the access)
            top = max(st.objs[x[2]].S for x in subs)
            if all((q / top).denominator == 1 for m, q in pd(off).items() if m != ()) and sum(st.objs[x[2]].S == top for x in subs) == 1: subs = [(x[0], x[1], x[2], x[0]) for x in subs if st.objs[x[2]].S == top]
        for lo, hi, sub_, *start in subs:
            c = pd(off).get((), F(0))
            if start: lo = start[0]; c = lo
            if lo <= c < hi: return Ptr(sub_, sub(off, I(lo)))
        return Ptr(name, off)
    def content(self, st, o, f, ty):
        k = (o.name, f)
        c = st.mem.get(k)
        if c is None:
            s = "R" if ty.k in ("double", "float") else ("P" if ty.k == "ptr" else "I")
            c = Base("%s.%d" % (o.name, f) if (o.S or 0) != self.m.sizeof(ty) else o.name, s)
            st.mem[k] = c
        return c
    def coerce_load(self, v, ty):
        if ty.k in ("double", "float"):
            if isinstance(v, T) and v.s != "R": return toreal(v)
            return v
        if ty.k == "ptr" and isinstance(v, T) and v.op == "num": return NULL
        if ty.k == "int" and ty.n == 1 and isinstance(v, T) and v.s != "B": return ne(v, I(0))
        return v
    def read(self, st, c, idx, ty):
        """value of a content at an element index"""
        if isinstance(c, Base):
            if c.s == "P":
                return self.ptr_cell(st, c.name, idx)
            if ty.k == "ptr": return self.ptr_cell(st, c.name, idx)
            if ty.k == "int" and ty.n == 1: return sel(c.name, idx, "B")
            want = "R" if ty.k in ("double", "float") else "I"
            return sel(c.name, idx, c.s if c.s in ("R", "I") and c.s == want else want)
        if isinstance(c, Write):
            e = eq(c.idx, idx)
            r = self.decide(st, e)
            if r is True: return c.val
            if r is False: return self.read(st, c.prev, idx, ty)
            a = c.val; b = self.read(st, c.prev, idx, ty)
            return self.vite(e, self.coerce_load(a, ty), self.coerce_load(b, ty))
        if isinstance(c, Layer):
            out = None
            res = []
            for (ix, cond, val) in c.stores:
                li = linear_in(ix, c.kv)
                if li is None:
                    if c.kv not in fv(ix):
                        raise Unsupported("loop store at an invariant cell")
                    raise Unsupported("loop store at non-affine index %r" % ix)
                a, b = li
                q = sub(idx, b)
                d = pd(q)
                if any((x / a).denominator != 1 for m, x in d.items()):
                    if all((x / a).denominator == 1 for m, x in d.items() if m != ()): continue
                    # general: exists k' with a*k'+b == idx
                    if a < 0: raise Unsupported("stride")
                    kk = idiv(q, int(a))
                    w = and_(eq(imod(q, int(a)), I(0)), le(I(0), kk), lt(kk, c.K), subst(cond, {c.kv: kk}))
                else:
                    kk = mkpoly({m: x / a for m, x in d.items()}, "I")
                    w = and_(le(I(0), kk), lt(kk, c.K), subst(cond, {c.kv: kk}))
                r = self.decide(st, w)
                if r is False: continue
                v = self.coerce_load(vsubst(val, {c.kv: kk}), ty)
                if r is True:
                    res.append((TRUE, v)); break
                res.append((w, v))
            if not res or res[-1][0] is not TRUE:
                out = self.read(st, c.prev, idx, ty)
            for w, v in reversed(res):
                out = v if w is TRUE else self.vite(w, v, self.coerce_load(out, ty))
            return out
        raise Unsupported("content")
    def ptr_cell(self, st, name, idx):
        v = st.ghost.get(("ptrcell", name))
        if v is not None: return v
        return Ptr(None, app("ptrval:" + name, idx, s="I")) if False else self._opaque_ptr(st, name, idx)
    def _opaque_ptr(self, st, name, idx):
        raise Unsupported("load of an unspecified pointer from %s[%r]" % (name, idx))
    def load(self, st, p, ty):
        ty = self.m.resolve(ty)
        if ty.k in ("struct", "array"):
            raise Unsupported("aggregate load")
        if ty.k == "vec":
            n = ty.n; es = self.m.sizeof(ty.sub[0])
            return Agg([self.load(st, Ptr(p.o, add(p.off, I(i * es))), ty.sub[0]) for i in range(n)])
        o, f, idx = self.cell(st, p, ty, "read")
        self.bounds(st, o, idx, "read")
        c = self.content(st, o, f, ty)
        for mk_ in (st.ghost.get("onread"),):
            if mk_: mk_(st, o, f, idx)
        return self.coerce_load(self.read(st, c, idx, ty), ty)
    def bounds(self, st, o, idx, what):
        if o.kind == "dead":
            self.oblige(st, "memory", "%s of %s after it was released" % (what, o.name), FALSE)
            return
        L = o.length()
        if L is None: return
        self.oblige(st, "bounds", "%s of %s[%s] within its range" % (what, o.name, show(idx, 80)), and_(le(I(0), idx), lt(idx, L)))
    def store(self, st, p, v, ty):
        ty = self.m.resolve(ty)
        if ty.k == "vec":
            es = self.m.sizeof(ty.sub[0])
            for i in range(ty.n): self.store(st, Ptr(p.o, add(p.off, I(i * es))), v.v[i] if isinstance(v, Agg) else v, ty.sub[0])
            return
        if ty.k in ("struct", "array"): raise Unsupported("aggregate store")
        o, f, idx = self.cell(st, p, ty, "write")
        self.bounds(st, o, idx, "write")
        if not o.writable:
            self.oblige(st, "frame", "write to the read-only range %s" % o.name, FALSE)
        c = self.content(st, o, f, ty)
        if ty.k == "int" and ty.n == 1 and isinstance(v, T) and v.s == "B": v = ite(v, I(1), I(0))
        self.setcell(st, o, f, idx, v, c)
    def setcell(self, st, o, f, idx, v, c):
        st.stores.append(((o.name, f), idx, v))
        while isinstance(c, Write) and c.idx is idx: c = c.prev
        st.mem[(o.name, f)] = Write(c, idx, v)

    # ---------------- values
    def vite(self, c, a, b):
        if c is TRUE: return a
        if c is FALSE: return b
        if a is b: return a
        if isinstance(a, Undef): return b
        if isinstance(b, Undef): return a
        if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: return Ptr(a.o, ite(c, a.off, b.off))
        if isinstance(a, Agg) and isinstance(b, Agg): return Agg([self.vite(c, x, y) for x, y in zip(a.v, b.v)])
        raise Unsupported("merge of %r and %r" % (a, b))
    def val(self, st, v):
        k = v.k
        if k == "local": 
            if v.v not in st.env: raise Unsupported("undefined SSA value %s" % v.v)
            return st.env[v.v]
        if k == "int":
            ty = v.ty
            if ty.k == "int" and ty.n == 1: return TRUE if v.v else FALSE
            n = v.v
            if ty.k == "int" and n >= 1 << (ty.n - 1): n -= 1 << ty.n
            return I(n)
        if k == "float": return const(v.v)
        if k == "null": return NULL
        if k == "undef": return UNDEF
        if k == "zero": return self.zero(v.ty)
        if k == "agg": return Agg([self.val(st, x) for x in v.v])
        if k == "global":
            n = self.m.aliases.get(v.v, v.v)
            if n in self.m.funcs or n in self.m.decls: return FnPtr(n)
            return self.globalptr(st, n)
        if k == "cexpr": 
            st2 = st
            return self.pure(st2, v.v)
        if k in ("meta", "str"): return UNDEF
        raise Unsupported("operand %r" % v)
    def zero(self, ty):
        ty = self.m.resolve(ty)
        if ty.k == "int": return FALSE if ty.n == 1 else I(0)
        if ty.k in ("double", "float"): return ZERO
        if ty.k == "ptr": return NULL
        if ty.k == "struct": return Agg([self.zero(x) for x in ty.sub])
        if ty.k in ("array", "vec"): return Agg([self.zero(ty.sub[0]) for _ in range(ty.n)])
        raise Unsupported("zero")
    def globalptr(self, st, n):
        on = "@" + n
        if on not in st.objs:
            t, iv = parse_global_init(self.m, n)
            const_ = " constant " in self.m.globals.get(n, "")
            if t is None:
                o = self.newobj(st, on, kind="global", writable=not const_); 
                return Ptr(on, I(0))
            rt = self.m.resolve(t)
            if rt.k == "array": S, cnt = self.m.sizeof(rt.sub[0]), rt.n
            else: S, cnt = self.m.sizeof(rt), 1
            o = self.newobj(st, on, S=S, n=I(cnt), kind="global", writable=not const_)
            if iv is not None and const_:
                def put(ty, v, off):
                    ty = self.m.resolve(ty)
                    if ty.k == "array":
                        es = self.m.sizeof(ty.sub[0])
                        if v.k == "agg":
                            for i, x in enumerate(v.v): put(ty.sub[0], x, off + i * es)
                        elif v.k == "zero":
                            for i in range(ty.n): put(ty.sub[0], Val("zero", None, ty.sub[0]), off + i * es)
                        elif v.k == "str":
                            bs = cstr_bytes(v.v)
                            for i, b in enumerate(bs): 
                                st.mem[(on, 0)] = Write(st.mem.get((on, 0), Base(on, "I")), I(off + i), I(b if b < 128 else b - 256))
                    elif ty.k == "struct":
                        offs, _ = self.m.struct_layout(ty)
                        for i, s in enumerate(ty.sub):
                            put(s, v.v[i] if v.k == "agg" else Val("zero", None, s), off + offs[i])
                    else:
                        f, idx = off % S, off // S
                        c = st.mem.get((on, f), Base(on + ".%d" % f, "I"))
                        try: st.mem[(on, f)] = Write(c, I(idx), self.val(st, v))
                        except Unsupported: pass
                if self.m.sizeof(rt) <= 4096: put(t, iv, 0)
        return Ptr(on, I(0))

    def irange(self, st, t, n, what, flags=True):
        """machine-range obligation for a mathematical integer result"""
        if not self.overflow: return
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if t.op == "num" and lo <= t.a[0] <= hi: return
        if self.rec: return
        g = and_(le(I(lo), t), le(t, I(hi)))
        if g is TRUE: return
        self.obls.append(Obl("overflow", "%s fits in %d bits" % (what, n), g, st.pc, st.facts))

    def unsigned(self, st, t, n):
        if t.op == "num": return t if t.a[0] >= 0 else add(t, I(1 << n))
        r = self.decide(st, le(I(0), t))
        if r is True: return t
        if r is False: return add(t, I(1 << n))
        return ite(le(I(0), t), t, add(t, I(1 << n)))

    def pure(self, st, i):
        """evaluate a side-effect free instruction"""
        op = i.op
        if op in BIN and op[0] == "f":
            a, b = self.val(st, i.a[0]), self.val(st, i.a[1])
            if isinstance(a, Agg):
                return Agg([self.fbin(st, op, x, y) for x, y in zip(a.v, b.v)])
            return self.fbin(st, op, a, b)
        if op in BIN:
            return self.ibin(st, i)
        if op == "fneg":
            a = self.val(st, i.a[0])
            return Agg([neg(x) for x in a.v]) if isinstance(a, Agg) else neg(a)
        if op in CAST: return self.cast(st, i)
        if op == "icmp": return self.icmp(st, i)
        if op == "fcmp":
            a, b = self.val(st, i.a[0]), self.val(st, i.a[1])
            p = i.x
            if p == "true": return TRUE
            if p in ("false", "uno"): return FALSE
            if p == "ord": return TRUE
            k = p[1:]
            return {"eq": eq, "ne": ne, "lt": lt, "le": le, "gt": gt, "ge": ge}[k](a, b)
        if op == "select":
            c = self.val(st, i.a[0]); a = self.val(st, i.a[1]); b = self.val(st, i.a[2])
            if isinstance(c, Undef): c = fresh("undef", "B")
            return self.vite(c, a, b)
        if op == "getelementptr":
            p = self.val(st, i.a[0])
            if not isinstance(p, Ptr): raise Unsupported("gep on %r" % (p,))
            ty = i.x; off = p.off
            idxs = [self.val(st, x) for x in i.a[1:]]
            off = add(off, scale(idxs[0], self.m.sizeof(ty)))
            for ix in idxs[1:]:
                ty = self.m.resolve(ty)
                if ty.k == "struct":
                    k = int(ix.a[0]); offs, _ = self.m.struct_layout(ty)
                    off = add(off, I(offs[k])); ty = ty.sub[k]
                elif ty.k in ("array", "vec"):
                    ty = ty.sub[0]; off = add(off, scale(ix, self.m.sizeof(ty)))
                else: raise Unsupported("gep into %r" % ty)
            return self.subobject(st, p.o, off)
        if op == "extractvalue":
            v = self.val(st, i.a[0])
            for k in i.x:
                if isinstance(v, Undef): return UNDEF
                v = v.v[k]
            return v
        if op == "insertvalue":
            v = self.val(st, i.a[0]); w = self.val(st, i.a[1])
            def ins(v, ty, path):
                if isinstance(v, Undef):
                    ty = self.m.resolve(ty)
                    n = len(ty.sub) if ty.k == "struct" else ty.n
                    v = Agg([UNDEF] * n)
                v = Agg(v.v); k = path[0]
                if len(path) == 1: v.v[k] = w
                else: v.v[k] = ins(v.v[k], (self.m.resolve(ty).sub[k] if self.m.resolve(ty).k == "struct" else self.m.resolve(ty).sub[0]), path[1:])
                return v
            return ins(v, i.ty, i.x)
        if op == "freeze": return self.val(st, i.a[0])
        if op == "extractelement":
            v = self.val(st, i.a[0]); k = self.val(st, i.a[1])
            if isinstance(v, Undef): return UNDEF
            return v.v[int(k.a[0])]
        if op == "insertelement":
            v = self.val(st, i.a[0]); w = self.val(st, i.a[1]); k = int(self.val(st, i.a[2]).a[0])
            n = i.ty.n; l = [UNDEF] * n if isinstance(v, Undef) else list(v.v)
            l[k] = w; return Agg(l)
        if op == "shufflevector":
            a, b, mk_ = self.val(st, i.a[0]), self.val(st, i.a[1]), self.val(st, i.a[2])
            n = i.a[0].ty.n
            la = a.v if isinstance(a, Agg) else [UNDEF] * n
            lb = b.v if isinstance(b, Agg) else [UNDEF] * n
            l = la + lb
            if isinstance(mk_, Undef): return UNDEF
            return Agg([UNDEF if isinstance(x, Undef) else l[int(x.a[0])] for x in mk_.v])
        raise Unsupported("instruction %s" % i.op)
    def fbin(self, st, op, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return fresh("undef", "R")
        if op == "fadd": return add(a, b)
        if op == "fsub": return sub(a, b)
        if op == "fmul": return mul(a, b)
        if op == "fdiv":
            if b.op == "num" and b.a[0] == 0:
                self.oblige(st, "definedness", "divisor is non-zero", FALSE); return app("div0", a)
            if b.op != "num": self.oblige(st, "definedness", "divisor %s is non-zero" % show(b, 120), ne(b, ZERO))
            return div(a, b)
        if op == "frem":
            self.oblige(st, "definedness", "divisor is non-zero", ne(b, ZERO))
            return toreal(fn("fmod", a, b))
    def ibin(self, st, i):
        op = i.op; n = i.ty.n if i.ty.k == "int" else 64
        a, b = self.val(st, i.a[0]), self.val(st, i.a[1])
        if isinstance(a, Agg): raise Unsupported("vector integer op")
        if isinstance(a, Undef) or isinstance(b, Undef): return fresh("undef", "I" if n > 1 else "B")
        if isinstance(a, (Ptr, Lin)) or isinstance(b, (Ptr, Lin)):
            # pointer arithmetic through integers
            if op in ("add", "sub"): return lin_add(a, b, 1 if op == "add" else -1)
            raise Unsupported("integer op on pointers")
        if n == 1:
            if op == "and": return and_(a, b)
            if op == "or": return or_(a, b)
            if op == "xor": return not_(iff(a, b)) if b is not TRUE else not_(a)
            if op in ("add", "sub"): return not_(iff(a, b))
            raise Unsupported("i1 " + op)
        if op in ("add", "sub", "mul"):
            r = add(a, b) if op == "add" else sub(a, b) if op == "sub" else mul(a, b)
            if op in ("add", "sub") and "nsw" not in i.x and b.op == "num" and abs(b.a[0]) >= 1 << (n - 2):
                return sub(imod(add(r, I(1 << (n - 1))), 1 << n), I(1 << (n - 1)))      # a bit pattern, not a quantity: wraps
            self.irange(st, r, n, "%s" % op)
            return r
        if op == "shl":
            if b.op == "num":
                r = scale(a, 1 << int(b.a[0])); self.irange(st, r, n, "shl"); return r
            return app("shl%d" % n, a, b, s="I")
        if op in ("lshr", "ashr", "udiv", "urem"):
            if op != "ashr" and not (op == "lshr" and b.op == "num" and b.a[0] == 0): a = self.unsigned(st, a, n)
            if b.op == "num":
                k = int(b.a[0])
                if op in ("lshr", "ashr"): return idiv(a, 1 << k)
                if k > 2 and k & (k - 1) and a.op != "num":
                    if self.decide(st, and_(le(I(0), a), lt(a, b))) is True: return I(0) if op == "udiv" else a
                    if self.decide(st, and_(le(b, a), lt(a, scale(b, 2)))) is True: return I(1) if op == "udiv" else sub(a, b)
                if k > 0:
                    return idiv(a, k) if op == "udiv" else imod(a, k)
            b = self.unsigned(st, b, n)
            if op in ("udiv", "urem"):
                self.oblige(st, "definedness", "integer divisor non-zero", ne(b, I(0)))
                d = self.decide(st, lt(a, b))
                if d is True: return I(0) if op == "udiv" else a
                if self.decide(st, lt(a, scale(b, 2))) is True:
                    c = FALSE if d is False else lt(a, b)
                    return ite(c, I(0), I(1)) if op == "udiv" else ite(c, a, sub(a, b))
                q = app("udiv", a, b, s="I")
                st.assume(implies(lt(I(0), b), and_(le(mul(q, b), a), lt(a, add(mul(q, b), b)), le(I(0), q))))
                return q if op == "udiv" else sub(a, mul(q, b))
            return app(op, a, b, s="I")
        if op in ("sdiv", "srem"):
            if b.op == "num" and b.a[0] > 0:
                k = int(b.a[0])
                r = self.decide(st, le(I(0), a))
                if r is True: q = idiv(a, k)
                else: q = ite(le(I(0), a), idiv(a, k), neg(idiv(neg(a), k)))
                return q if op == "sdiv" else sub(a, scale(q, k))
            self.oblige(st, "definedness", "integer divisor non-zero", ne(b, I(0)))
            q = app("sdiv", a, b, s="I")
            ab = ite(le(I(0), b), b, neg(b))
            st.assume(implies(ne(b, I(0)), and_(implies(le(I(0), a), and_(le(I(0), sub(a, mul(q, b))), lt(sub(a, mul(q, b)), ab))),
                                                implies(lt(a, I(0)), and_(le(sub(a, mul(q, b)), I(0)), lt(neg(ab), sub(a, mul(q, b))))))))
            return q if op == "sdiv" else sub(a, mul(q, b))
        if op in ("and", "or", "xor") and a.op == "num" and b.op == "num":
            x, y = int(a.a[0]), int(b.a[0])
            return I(x & y if op == "and" else x | y if op == "or" else x ^ y)
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if y.op == "num":
                    k = int(y.a[0])
                    if k == 0: return I(0)
                    if k == -1: return x
                    if k > 0 and (k & (k + 1)) == 0: return imod(x, k + 1)      # low bits (two's complement agrees with floor mod)
                    if k < 0 and ((-k) & (-k - 1)) == 0: return sub(x, imod(x, -k))
                    if k > 0:
                        p2 = k & -k
                        if (k // p2) & (k // p2 + 1) == 0:                      # contiguous mask
                            w = k // p2 + 1
                            return scale(imod(idiv(x, p2), w), p2)
            r = app("and", *sorted((a, b), key=key), s="I")
            return r
        if op == "or":
            if b.op == "num" and b.a[0] == 0: return a
            if "disjoint" in (i.x or ()): return add(a, b)
            return app("or", *sorted((a, b), key=key), s="I")
        if op == "xor":
            if b.op == "num" and b.a[0] == -1: return sub(neg(a), I(1))
            for x, y in ((a, b), (b, a)):
                if y.op == "num" and y.a[0] == 0: return x
                if y.op == "num" and y.a[0] > 0 and int(y.a[0]) & (int(y.a[0]) - 1) == 0:
                    k = int(y.a[0])                                             # flip one bit
                    return sub(add(x, I(k)), scale(imod(idiv(x, k), 2), 2 * k))
            return app("xor", *sorted((a, b), key=key), s="I")
        raise Unsupported("int op " + op)
    def cast(self, st, i):
        op = i.op; v = self.val(st, i.a[0]); ft = i.x; tt = i.ty
        if isinstance(v, Undef): return UNDEF
        if isinstance(v, Agg):
            raise Unsupported("vector cast")
        if op == "zext":
            if ft.n == 1: return ite(v, I(1), I(0))
            return self.unsigned(st, v, ft.n)
        if op == "sext":
            if ft.n == 1: return ite(v, I(-1), I(0))
            return v
        if op == "trunc":
            n = tt.n
            if n == 1: return eq(imod(v, 2), I(1))
            if v.op == "num":
                x = int(v.a[0]) % (1 << n)
                return I(x - (1 << n) if x >= 1 << (n - 1) else x)
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            inr = and_(le(I(lo), v), le(v, I(hi)))
            r = self.decide(st, inr)
            if r is True: return v
            return ite(inr, v, sub(imod(add(v, I(1 << (n - 1))), 1 << n), I(1 << (n - 1))))
        if op in ("sitofp",):
            if isinstance(v, T) and v.s == "B": return toreal(ite(v, I(-1), I(0)))
            return toreal(v)
        if op == "uitofp":
            if v.s == "B": return toreal(ite(v, I(1), I(0)))
            return toreal(self.unsigned(st, v, ft.n))
        if op in ("fptosi", "fptoui"):
            t = trunc(v)
            n = tt.n
            if not self.rec:
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1)
                if not (t.op == "num"): self.soft.append(Obl("conversion", "real-to-integer conversion in range", and_(le(I(lo), t), le(t, I(hi))), st.pc, st.facts))
            return t
        if op == "fptrunc": return app("f32", v)
        if op == "fpext": return v
        if op == "ptrtoint": return v if isinstance(v, Ptr) and v.o is not None else (v.off if isinstance(v, Ptr) else v)
        if op == "inttoptr":
            if isinstance(v, Ptr): return v
            if isinstance(v, T) and v.op == "num": return Ptr(None, v)
            raise Unsupported("inttoptr")
        if op == "bitcast":
            if ft.k == tt.k and (ft.k != "int" or ft.n == tt.n): return v
            return app("bitcast", v, s="I" if tt.k == "int" else "R")
        raise Unsupported(op)
    def icmp(self, st, i):
        p = i.x; a, b = self.val(st, i.a[0]), self.val(st, i.a[1])
        ty = i.a[0].ty
        if isinstance(a, Undef) or isinstance(b, Undef): return fresh("undef", "B")
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.n == b.n
            return TRUE if same == (p == "eq") else FALSE
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                # pointer-as-integer compared with a number
                x, y = (a, b) if isinstance(a, Ptr) else (b, a)
                if y.op == "num" and y.a[0] == 0 and x.o is not None: return FALSE if p == "eq" else TRUE
                raise Unsupported("pointer/integer comparison")
            if a.o == b.o:
                a, b = a.off, b.off
                if p[0] == "u": p = "s" + p[1:]
            else:
                nb = st.ghost.get(("maybe_null", a.o if b.o is None else b.o))
                if nb is not None and (a.o is None or b.o is None):
                    return nb if p == "eq" else not_(nb)
                if p == "eq": return FALSE
                if p == "ne": return TRUE
                if a.o is None or b.o is None:
                    x = p[1:]; 
                    return (TRUE if (a.o is None) == (x in ("lt", "le")) else FALSE)
                raise Unsupported("ordering of unrelated pointers")
        if isinstance(a, T) and a.s == "B":
            if not isinstance(b, T) or b.s != "B": raise Unsupported("icmp i1")
            if p == "eq": return iff(a, b)
            if p == "ne": return not_(iff(a, b))
            x, y = ite(a, I(1), I(0)), ite(b, I(1), I(0))
            return {"ult": lt, "ugt": gt, "ule": le, "uge": ge, "slt": gt, "sgt": lt, "sle": ge, "sge": le}[p](x, y)
        if p == "eq": return eq(a, b)
        if p == "ne": return ne(a, b)
        n = ty.n if ty.k == "int" else 64
        if p[0] == "u":
            a, b = self.unsigned_cmp(st, a, b, n)
        return {"lt": lt, "gt": gt, "le": le, "ge": ge}[p[1:]](a, b)
    def unsigned_cmp(self, st, a, b, n):
        return self.unsigned(st, a, n), self.unsigned(st, b, n)

    # ---------------- execution
    def loops_of(self, f):
        r = self.loopcache.get(f.name)
        if r is None: r = analyze_loops(f); self.loopcache[f.name] = r
        return r
    def call_fn(self, st, name, args):
        """execute a defined function; returns list of (state, retval) / ('throw', state)"""
        f = self.m.funcs[name]
        if self.depth > 40: raise Unsupported("recursion in %s" % name)
        self.called.add(name)
        saved = st.env
        st = st.fork(); st.env = {}
        for (ty, nm, at), v in zip(f.params, args): st.env[nm] = v
        self.depth += 1
        try: outs = self.region(f, f.order[0], None, st, None)
        finally: self.depth -= 1
        res = []
        for o in outs:
            if o[0] == "ret": o[2].env = dict(saved); res.append(("ret", o[1], o[2]))
            elif o[0] == "throw": o[2].env = dict(saved); res.append(("throw", None, o[2]))
        return res
    def region(self, f, block, prev, st, loop, skip_phi=False):
        """run from block until return or until leaving/re-entering `loop`; list of outcomes"""
        outs = []
        work = [(block, prev, st, skip_phi)]
        loops = self.loops_of(f)
        while work:
            b, pv, s, sp = work.pop()
            if b in loops and not sp:
                for o in self.run_loop(f, loops[b], pv, s):
                    if o[0] == "edge":
                        _, fr, to, s2 = o
                        if loop is not None and (to == loop.header or to not in loop.body): outs.append(o)
                        else: work.append((to, fr, s2, False))
                    else: outs.append(o)
                continue
            if not sp: self.do_phis(f, b, pv, s)
            for o in self.block(f, b, s):
                if o[0] == "goto":
                    _, to, s2 = o
                    if loop is not None and (to == loop.header or to not in loop.body): outs.append(("edge", b, to, s2))
                    else: work.append((to, b, s2, False))
                else: outs.append(o)
            if len(outs) + len(work) > 3000: raise Unsupported("path explosion")
        return outs
    def do_phis(self, f, b, pv, s):
        new = {}
        for i in f.blocks[b]:
            if i.op != "phi": break
            for v, bb in i.x:
                if bb == pv: new[i.res] = self.val(s, v); break
            else: raise Unsupported("phi without edge %s" % pv)
        s.env.update(new)
    def block(self, f, b, st):
        insts = f.blocks[b]
        states = [(st, 0)]
        outs = []
        while states:
            s, i = states.pop()
            n = len(insts)
            while i < n:
                ins = insts[i]; op = ins.op
                self.steps += 1
                if op == "phi": i += 1; continue
                if op == "br":
                    if not ins.a: outs.append(("goto", ins.x[0], s)); break
                    c = self.val(s, ins.a[0])
                    if isinstance(c, Undef): c = fresh("undef", "B")
                    for tgt, cc in ((ins.x[0], c), (ins.x[1], not_(c))):
                        if cc is FALSE: continue
                        if cc is not TRUE and not feasible(s.ctx(), cc): continue
                        s2 = s.fork(); s2.assume(cc)
                        outs.append(("goto", tgt, s2))
                    break
                if op == "switch":
                    v = self.val(s, ins.a[0]); d, cases = ins.x
                    bits = ins.a[0].ty.n
                    rest = []
                    groups = {}
                    for cv, tgt in cases:
                        if cv >= 1 << (bits - 1): cv -= 1 << bits
                        if isinstance(v, T) and v.s == "B": e = v if cv else not_(v)
                        else: e = eq(v, I(cv))
                        rest.append(not_(e)); groups.setdefault(tgt, []).append(e)
                    for tgt, es in groups.items():
                        for e in es:      # one state per case value: keeps equalities usable
                            if feasible(s.ctx(), e):
                                s2 = s.fork(); s2.assume(e); outs.append(("goto", tgt, s2))
                    c = and_(*rest)
                    if feasible(s.ctx(), c):
                        s2 = s.fork(); s2.assume(c); outs.append(("goto", d, s2))
                    break
                if op == "ret":
                    outs.append(("ret", self.val(s, ins.a[0]) if ins.a else None, s)); break
                if op == "unreachable":
                    if feasible(s.ctx(), TRUE):
                        self.oblige(s, "reachability", "unreachable code is not reached (%s)" % f.name[:60], FALSE)
                    break
                if op == "resume": outs.append(("throw", None, s)); break
                if op in ("call", "invoke"):
                    rs = self.call(s, ins)
                    if op == "invoke":
                        for r in rs:
                            if r[0] == "ret":
                                if ins.res: r[2].env[ins.res] = r[1]
                                outs.append(("goto", ins.x[0], r[2]))
                            else: outs.append(r)
                        break
                    nxt = []
                    for r in rs:
                        if r[0] == "ret":
                            if ins.res: r[2].env[ins.res] = r[1]
                            nxt.append(r[2])
                        else: outs.append(r)
                    if not nxt: break
                    s = nxt[0]
                    for x in nxt[1:]: states.append((x, i + 1))
                    i += 1; continue
                if op == "load":
                    p = self.val(s, ins.a[0])
                    s.env[ins.res] = self.load(s, p, ins.ty)
                elif op == "store":
                    v = self.val(s, ins.a[0]); p = self.val(s, ins.a[1])
                    self.store(s, p, v, ins.a[0].ty)
                elif op == "alloca":
                    nm = "%s@%s.%d" % (ins.res, f.name[:20], len(s.objs))
                    t = self.m.resolve(ins.x)
                    if t.k == "array" and self.m.resolve(t.sub[0]).k in ("double", "int", "float", "ptr"):
                        S, cnt = self.m.sizeof(t.sub[0]), t.n
                    else: S, cnt = self.m.sizeof(t), 1
                    o = self.newobj(s, nm, S=S, n=I(cnt), kind="stack")
                    if t.k == "struct": self.split(s, o, ins.x)
                    s.env[ins.res] = Ptr(nm, I(0))
                elif op == "select":
                    c, x, y = (self.val(s, z) for z in ins.a[:3])
                    d = None if isinstance(c, (Undef, Agg)) or isinstance(x, T) and isinstance(y, T) or isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o else self.decide(s, c)
                    if d is None and isinstance(c, T) and (isinstance(x, Ptr) or isinstance(y, Ptr)) and not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o):
                        s2 = s.fork(); s2.assume(not_(c)); s2.env[ins.res] = y; states.append((s2, i + 1))
                        s.assume(c); s.env[ins.res] = x
                    elif d is not None: s.env[ins.res] = x if d else y
                    else: s.env[ins.res] = self.pure(s, ins)
                elif op == "landingpad": s.env[ins.res] = UNDEF
                elif op.startswith("unsupported") or op == "asm":
                    raise Unsupported(op + " " + ins.text[:80])
                else:
                    s.env[ins.res] = self.pure(s, ins)
                i += 1
        return outs

    # ---------------- calls
    def call(self, st, ins):
        cal = ins.a[0]
        if cal.k == "global": name = self.m.aliases.get(cal.v, cal.v)
        else:
            v = self.val(st, cal)
            if not isinstance(v, FnPtr): raise Unsupported("indirect call")
            name = v.n
        args = [self.val(st, a) for a in ins.a[1:]]
        from .models import MODELS, intrinsic, CONTRACT_FIRST
        if name in self.models: return self.norm(st, self.models[name](self, st, args, ins))
        if name in self.m.funcs and not CONTRACT_FIRST.fullmatch(name): return self.call_fn(st, name, args)
        r = intrinsic(self, st, name, args, ins)
        if r is not None: return self.norm(st, r)
        for pat, fnc in MODELS:
            if re.fullmatch(pat, name): return self.norm(st, fnc(self, st, args, ins))
        # unmodelled external call: only acceptable on infeasible paths
        if not feasible(st.ctx(), TRUE, 5.0): return []
        raise Unsupported("call of external function %s" % name)
    def norm(self, st, r):
        if isinstance(r, list): return r
        if isinstance(r, tuple) and r and r[0] == "v": return [("ret", r[1], st)]
        return [("ret", r, st)]

    # ---------------- loops
    def run_loop(self, f, L, pv, st0):
        from .loops import summarise
        return summarise(self, f, L, pv, st0)

def cstr_bytes(s):
    s = s[s.index('"') + 1:-1]
    out = []; i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\": out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return out
