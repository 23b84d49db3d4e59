"""Loop rule.  A loop is replaced by an inductive description: for every loop-carried value a closed form in
the iteration number k (or a function symbol defined by its recurrence), for every array written in the loop a
layer describing which iteration wrote which cell, plus quantified invariants found by a Houdini procedure over
templates read off the loop's own conditions.  Initiation and consecution of all of it are obligations."""
import itertools
DBG = False
from . import term as TM
from .term import *
from .solve import *
from .symex import *
from .irparse import *

def _fresh_after(t, n):
    out = []
    for v in fv(t):
        if v.op == "var":
            s = str(v.a[0])
            if "!" in s:
                try:
                    if int(s.rsplit("!", 1)[1]) > n: out.append(v)
                except ValueError: pass
    return out
def arrays(t):
    return set(x.a[0] for x in subterms(t) if x.op == "sel")

def absorb(c):
    """the stores of the last iteration, if they continue the layer below them, become part of it"""
    ws, l = [], c
    while isinstance(l, Write): ws.append(l); l = l.prev
    if not ws or not isinstance(l, Layer) or len(ws) < len(l.stores): return c
    m = len(l.stores)
    if len(ws) > m: return c
    want = {}
    for ix, cond, val in l.stores:
        if cond is not TRUE: return c
        want[subst(ix, {l.kv: l.K})] = vsubst(val, {l.kv: l.K})
    if len(want) != m: return c
    for w in ws:
        if w.idx not in want or want[w.idx] is not w.val: return c
    return Layer(l.prev, l.kv, add(l.K, I(1)), l.stores)

class Path:
    __slots__ = ("conds", "nexts", "stores", "facts", "st", "kind", "out")

def phi_insts(f, h):
    r = []
    for i in f.blocks[h]:
        if i.op != "phi": break
        r.append(i)
    return r

def parts(v):
    """numeric component of a value"""
    if isinstance(v, T): return v
    if isinstance(v, Ptr): return v.off
    return None
def with_part(v, t):
    return Ptr(v.o, t) if isinstance(v, Ptr) else t

def summarise(sx, f, L, pv, st0):
    sx.nloops += 1
    phis = phi_insts(f, L.header)
    init = {}
    for i in phis:
        for v, bb in i.x:
            if bb == pv: init[i.res] = sx.val(st0, v); break
        else: raise Unsupported("phi edge")
    tag = "L%d" % sx.nloops
    n = len(sx.obls); keep = st0.fork(); rec = sx.rec
    try: return Loop(sx, f, L, st0, phis, dict(init), tag).run()
    except Unsupported as e:
        # a loop outside the description language may still run a fixed number of times
        del sx.obls[n:]; sx.rec = rec
        try: r = Loop(sx, f, L, keep, phis, init, tag).unroll(12, 24)
        except Unsupported: raise e
        return r

class Loop:
    def __init__(self, sx, f, L, st0, phis, init, tag):
        self.sx, self.f, self.L, self.st0, self.phis, self.init, self.tag = sx, f, L, st0, phis, init, tag
        self.k = fresh("k" + tag, "I")
        self.sym = {}; self.closed = {}; self.const = {}; self.unit = {}
        for i in phis:
            v = init[i.res]
            if isinstance(v, T): v = init[i.res] = self.settle(v)
            if isinstance(v, Undef):
                v = sx.zero(i.ty) if i.ty.k != "ptr" else v
                if isinstance(v, Undef): raise Unsupported("undefined pointer phi")
                init[i.res] = v
            if isinstance(v, Ptr):
                if v.o is None: self.const[i.res] = v; self.sym[i.res] = None
                else: self.sym[i.res] = self.ptr_sym(("phi", i.res), v, i.res + tag)
            elif isinstance(v, T): self.sym[i.res] = fresh(i.res + tag, v.s if v.s == "B" else ("R" if i.ty.k in ("double", "float") else "I"))
            else: self.const[i.res] = v
        self.cells = {}        # (key, idx) -> symbol   (loop-invariant cells written in the loop)
        self.cell_init = {}
        self.layer = {}        # key -> list of (idx(k), cond(k), V name, sort, val or None)
        self.opaque = {}       # key -> Base
        self.recdef = {}       # id -> next(k)
        self.inv = []          # houdini candidates kept: functions k -> (Fact or term)
        self.modified = []
        self.idxknown = False
        self.early = []; self.early_done = False; self.spec = self.spec2 = False; self.bent = set()
        self.twin = {}         # carried value -> the value it always equals

    def settle(self, t, st=None):
        """decide the conditionals of an initial value that the entry state already settles"""
        seen = set()
        while True:
            its = [x for x in subterms(t) if x.op == "ite" and x.a[0].id not in seen and not any(v.op == "bv" for v in fv(x.a[0]))]
            if not its or len(seen) > 6: return t
            c = min(its, key=lambda x: x.id).a[0]; seen.add(c.id)
            d = self.sx.decide(st or self.st0, c)
            if d is not None: t = replace_ite(t, c, d)
    def speculate(self):
        """values that never change as long as none of them has changed are constants"""
        S = [c for c in self.carried() if c not in self.closed]
        if not S or self.spec: return False
        self.spec = True
        saved = self.closed
        try:
            while S:
                self.closed = dict(saved); self.closed.update({c: self.initof(c) for c in S})
                back, _ = self.run_body(self.start_state(self.k))
                keep = [c for c in S if all(p.nexts.get(c) is self.initof(c) or (isinstance(p.nexts.get(c), T) and self.sx.decide(p.st, eq(p.nexts[c], self.initof(c))) is True) for p in back)]
                if len(keep) == len(S): saved = self.closed; return True
                S = keep
        except Unsupported as e_: 
            if DBG: print("DBG", e_)
        finally: self.closed = saved
        return False

    def unbend(self):
        """contents given up because an index was not linear: it may be, now that more is known"""
        for x in self.bent: self.opaque.pop(x, None)
        self.bent = set()
    def speculate_counters(self, back):
        """integers that advance evenly as long as all of them have done so"""
        S = [c for c in self.carried() if c not in self.closed and self.symof(c).s == "I"]
        if not S or len(S) > 5 or len(back) < 2 and not any(x.op == "app" and x.a[0] == "udiv" or x.op == "idiv" for p in back for c in S for x in subterms(p.nexts[c])) or self.spec2: return False
        self.spec2 = True
        steps = []
        for p in back:
            d = [sub(p.nexts[c], self.symof(c)) for c in S]
            steps.append([[int(x.a[0])] if x.op == "num" else [1, -1] for x in d])
        combos = []
        for l in steps:
            for t in itertools.product(*l):
                if any(t) and t not in combos: combos.append(t)
        saved = self.closed; k1 = add(self.k, I(1))
        for t in combos[:8]:
            guess = {c: add(self.initof(c), scale(self.k, d)) for c, d in zip(S, t)}
            try:
                self.closed = dict(saved); self.closed.update(guess)
                again, _ = self.run_body(self.start_state(self.k))
                if again and all(isinstance(p.nexts.get(c), T) and self.sx.decide(p.st, eq(p.nexts[c], subst(guess[c], {self.k: k1}))) is True for p in again for c in S):
                    saved = self.closed; self.unbend(); return True
            except Unsupported as e_: 
                if DBG: print("DBG", e_)
            finally: self.closed = saved
        return False

    # ---- names of carried values: phi names and ("cell", key, idx)
    def carried(self):
        return [("phi", n) for n in self.sym if n not in self.const] + [("cell",) + c for c in self.cells]
    def symof(self, c):
        return self.part(c, self.sym[c[1]] if c[0] == "phi" else self.cells[c[1:]])
    def initof(self, c):
        return self.part(c, self.init[c[1]] if c[0] == "phi" else self.cell_init[c[1:]])
    def ptr_sym(self, c, v, name):
        """pointers are carried as element numbers:  offset = c0 + S * q"""
        o = self.st0.objs[v.o]
        S = o.S or self.guess_size(c)
        c0 = int(pd(v.off).get((), F(0))) % S
        self.unit[c] = (S, c0)
        try: self.part(c, v)
        except Unsupported: self.unit[c] = (1, 0)
        S, c0 = self.unit[c]
        return Ptr(v.o, add(scale(fresh(name, "I"), S), I(c0)))
    def guess_size(self, c):
        sizes = []
        for b in self.L.body:
            for i in self.f.blocks[b]:
                if i.op == "getelementptr" and i.a[0].k == "local" and i.a[0].v == c[1]: sizes.append(self.sx.m.sizeof(i.x))
                if i.op == "load" and i.a[0].k == "local" and i.a[0].v == c[1]: return self.sx.m.sizeof(i.ty)
                if i.op == "store" and i.a[1].k == "local" and i.a[1].v == c[1]: return self.sx.m.sizeof(i.a[0].ty)
        sizes = [x for x in sizes if x > 1] or sizes
        return min(sizes) if sizes else 8
    def part(self, c, v):
        if isinstance(v, T): return v
        if isinstance(v, Ptr):
            S, c0 = self.unit[c]
            d = pd(sub(v.off, I(c0)))
            if any((x / S).denominator != 1 for x in d.values()): raise Unsupported("pointer step is not a multiple of the element size")
            return mkpoly({m: x / S for m, x in d.items()}, "I")
        return None
    def whole(self, c, v, t):
        if isinstance(v, Ptr):
            S, c0 = self.unit[c]
            return Ptr(v.o, add(scale(t, S), I(c0)))
        return t

    def start_state(self, k):
        """state at the beginning of iteration k with everything known so far"""
        sx = self.sx
        st = self.st0.fork()
        st.assume(le(I(0), k))
        for K in self.early: st.assume(le(k, K))
        for n in self.sym:
            if n in self.const: st.env[n] = self.const[n]; continue
            c = ("phi", n); v = self.sym[n]
            st.env[n] = self.whole(c, v, self.value_at(c, k))
        for key_ in self.modified:
            o, fo = key_
            base = self.st0.mem.get(key_)
            if key_ in self.opaque:
                st.mem[key_] = self.opaque[key_]
            elif key_ in self.layer:
                if base is None: base = self.base_of(key_)
                kv = self.kv_of(key_)
                ents = [(subst(ix, {self.k: kv}), subst(c, {self.k: kv}), (vsubst(val, {self.k: kv}) if val is not None else sel(vn, kv, s))) for ix, c, vn, s, val in self.layer[key_]]
                st.mem[key_] = Layer(base, kv, k, ents)
        for (key_, idx), s in self.cells.items():
            base = st.mem.get(key_) or self.base_of(key_)
            st.mem[key_] = Write(base, idx, self.whole(("cell", key_, idx), s, self.value_at(("cell", key_, idx), k)))
        return st
    def kv_of(self, key_):
        if not hasattr(self, "_kv"): self._kv = {}
        if key_ not in self._kv: self._kv[key_] = fresh("kv" + self.tag, "I")
        return self._kv[key_]
    def base_of(self, key_):
        o = self.st0.objs[key_[0]]
        s = self.sorts.get(key_, "R")
        if key_ not in self.st0.mem:
            sz = {"R": 8, "I": None}.get(s)
            nm = o.name if o.S == 8 and key_[1] == 0 and not o.fields else "%s.%d" % key_
            if self.names.get(key_): nm = self.names[key_]
            self.st0.mem[key_] = Base(nm, s)
        return self.st0.mem[key_]
    def value_at(self, c, k):
        if c in self.closed: return subst(self.closed[c], {self.k: k})
        return self.symof(c)

    def run_body(self, st):
        """execute one iteration; returns (back paths, exit paths)"""
        sx = self.sx
        base_pc = set(x.id for x in st.pc); base_facts = set(id(x) for x in st.facts); ns = len(st.stores)
        live0 = st.ghost.get("heap_live", ())
        outs = sx.region(self.f, self.L.header, None, st, self.L, skip_phi=True)
        back, exits = [], []
        for o in outs:
            p = Path(); p.out = o; s = o[3] if o[0] == "edge" else o[2]
            p.st = s
            p.conds = [c for c in s.pc if c.id not in base_pc]
            p.facts = [x for x in s.facts if id(x) not in base_facts]
            p.stores = s.stores[ns:]
            if o[0] == "edge" and o[2] == self.L.header:
                p.kind = "back"; p.nexts = {}
                if s.ghost.get("heap_live", ()) != live0: raise Unsupported("heap blocks carried across loop iterations")
                for i in self.phis:
                    for v, bb in i.x:
                        if bb == o[1]:
                            nv = sx.val(s, v); break
                    else: raise Unsupported("phi edge")
                    if i.res in self.const:
                        c = self.const[i.res]
                        if isinstance(nv, Ptr) and isinstance(c, Ptr) and nv.o == c.o and nv.off is c.off: continue
                        raise Unsupported("loop-carried value %s changes kind" % i.res)
                    sy = self.sym[i.res]
                    if isinstance(nv, Undef): nv = sy
                    if isinstance(sy, Ptr):
                        if not isinstance(nv, Ptr) or nv.o != sy.o: raise Unsupported("pointer %s moves between objects" % i.res)
                    p.nexts[("phi", i.res)] = self.part(("phi", i.res), nv)
                for (key_, idx), s_ in self.cells.items():
                    c = s.mem[key_]
                    cv = sx.read(s, c, idx, self.cellty[(key_, idx)])
                    if isinstance(s_, Ptr) and (not isinstance(cv, Ptr) or cv.o != s_.o): raise Unsupported("pointer cell moves between objects")
                    p.nexts[("cell", key_, idx)] = self.part(("cell", key_, idx), cv)
                back.append(p)
            else:
                p.kind = "exit"; exits.append(p)
        return back, exits

    def run(self):
        sx = self.sx
        self.sorts, self.names, self.cellty = {}, {}, {}
        ok = False
        sx.rec += 1
        try:
            for rounds in range(24):
                n0 = TM._fresh[0]
                st = self.start_state(self.k)
                back, exits = self.run_body(st)
                if self.learn_memory(st, back + exits): continue
                if self.learn_values(back, n0):
                    if self.early_done: self.unbend()
                    continue
                if self.early_bounds(exits): continue
                if self.speculate() or self.speculate_counters(back): continue
                ok = True
                break
        finally: sx.rec -= 1
        if not ok: raise Unsupported("loop analysis does not stabilise")
        if not back:
            # body never repeats
            self.closed = {c: self.initof(c) for c in self.carried()}
            return self.first_only()
        self.n0 = n0
        c = self.constant_trip(back, exits)
        if c is not None: return self.unroll(c)
        # recurrences for whatever is left; values that start equal and step alike share one
        rep = self.alike(back)
        for c in self.carried():
            if c not in self.closed and rep.get(c, c) == c: self.make_rec(c, back, n0)
        for c in self.carried():
            if c not in self.closed: self.closed[c] = self.closed[rep[c]]; self.twin[c] = rep[c]
        if self.fresh_group: sx.recs.append({("old", self.recname[c]): e for c, e in self.fresh_group.items()})
        # values stored but depending on unsolved things are now functions of k
        self.finish_layers(back)
        self.find_invariants(back, exits)
        return self.final()

    # ------------------------------------------------------------ learning
    def learn_memory(self, st, paths):
        changed = False
        objs0 = self.st0.objs
        per = {}
        for p in paths:
            for key_, idx, val in p.stores:
                if key_[0] not in objs0: continue
                per.setdefault(key_, []).append((p, idx, val))
        for key_, lst in per.items():
            if key_ in self.opaque: continue
            if key_ not in self.sorts:
                # sort of the contents
                v = next((x for _, _, x in lst if x is not None), None)
                c = st.mem.get(key_) or self.st0.mem.get(key_) 
                self.sorts[key_] = v.s if isinstance(v, T) and v.s != "B" else ("P" if isinstance(v, Ptr) else "R")
                cc = lst[0][0].st.mem.get(key_)
                while cc is not None and not isinstance(cc, Base): cc = cc.prev
                if cc is not None: self.names[key_] = cc.name; self.sorts[key_] = cc.s if cc.s != "P" else "P"
            if key_ not in self.modified: self.modified.append(key_); changed = True
            inv = all(isinstance(ix, T) and not self.variant(ix) for _, ix, _ in lst)
            if inv:
                for p, ix, v in lst:
                    if (key_, ix) in self.cells: continue
                    if key_ in self.layer: self.make_opaque(key_); changed = True; break
                    base = self.st0.mem.get(key_) or self.base_of(key_)
                    o = objs0[key_[0]]
                    # all other cells of this key must be provably different
                    bad = False
                    for (k2, i2) in self.cells:
                        if k2 == key_ and self.sx.decide(self.st0, eq(i2, ix)) is not False: bad = True
                    if bad: self.make_opaque(key_); changed = True; break
                    ty = PTR if isinstance(v, Ptr) else (DBL if (isinstance(v, T) and v.s == "R") else (int_ty(1) if isinstance(v, T) and v.s == "B" else int_ty(64)))
                    self.cellty[(key_, ix)] = ty
                    iv = self.sx.coerce_load(self.sx.read(self.st0, base, ix, ty), ty)
                    if isinstance(iv, Ptr):
                        if iv.o is None or not isinstance(v, Ptr) or v.o != iv.o: self.make_opaque(key_); changed = True; break
                        s = self.ptr_sym(("cell", key_, ix), iv, "c" + self.tag)
                    else:
                        if isinstance(iv, Undef): iv = fresh("undef", v.s)
                        if iv.s != v.s and isinstance(v, T):
                            if iv.s == "I" and v.s == "R": iv = toreal(iv)
                        s = fresh("c" + self.tag, "R" if ty is DBL else iv.s)
                    self.cells[(key_, ix)] = s; self.cell_init[(key_, ix)] = iv
                    changed = True
                continue
            if any(k2 == key_ for (k2, _) in self.cells):
                for c in [c for c in self.cells if c[0] == key_]: del self.cells[c]; self.closed.pop(("cell",) + c, None)
                self.make_opaque(key_); changed = True; continue
            # wait until index phis are solved
            if any(not isinstance(ix, T) for _, ix, _ in lst):
                self.make_opaque(key_); changed = True; continue
            unsolved = set(self.symof(c) for c in self.carried() if c not in self.closed)
            if any(fv(ix) & unsolved for _, ix, _ in lst):
                if self.idxknown: self.make_opaque(key_); self.bent.add(key_); changed = True
                elif key_ not in self.layer: self.pending = True
                continue
            bl = [(p, ix, v) for p, ix, v in lst if p.kind == "back"]
            if key_ in self.layer and not self.layer_changed(key_, bl): continue
            if self.make_layer(key_, bl): changed = True
        return changed
    def variant(self, t):
        syms = set(self.symof(c) for c in self.carried()) | {self.k}
        if fv(t) & syms: return True
        if arrays(t) & self.volatile_arrays(): return True
        return bool(_fresh_after(t, self.n0start))
    @property
    def n0start(self):
        s = str(self.k.a[0])
        return int(s.rsplit("!", 1)[1])
    def volatile_arrays(self):
        r = set(b.name for b in self.opaque.values())
        for ents in self.layer.values():
            for e in ents: r.add(e[2])
        return r
    def make_opaque(self, key_):
        self.layer.pop(key_, None)
        for c in [c for c in self.cells if c[0] == key_]:
            del self.cells[c]; self.closed.pop(("cell",) + c, None)
        self.opaque[key_] = Base("H%s!%d.%s.%d" % (self.tag, TM._fresh[0], key_[0], key_[1]), self.sorts.get(key_, "R"))
        TM._fresh[0] += 1
        # values solved from this content stay valid only if they do not mention it (checked by consecution)
    def layer_changed(self, key_, bl):
        ents = self.layer[key_]
        want = self.entries(bl)
        if want is None or len(want) != len(ents): return True
        for (ix, c, v), (ix2, c2, vn, s, val) in zip(want, ents):
            if ix is not ix2: return True
            if c is not c2: return True
            if val is not None and v is not val: return True
            if val is None and self.known(v): return True
        return False
    def known(self, t):
        """term depends on the iteration number only through solved things"""
        if not isinstance(t, T):
            t = parts(t)
            if t is None: return False
        unsolved = set(self.symof(c) for c in self.carried() if c not in self.closed)
        if fv(t) & unsolved: return False
        if arrays(t) & self.volatile_arrays(): return False
        return not [v for v in _fresh_after(t, self.n0start) ]
    def cond_of(self, p):
        return and_(*p.conds)
    def entries(self, bl):
        """merge the stores of all back paths: (idx, cond, val)"""
        byp = {}
        for p, ix, v in bl: byp.setdefault(id(p), (p, []))[1].append((ix, v))
        npaths = len(self.cur_back)
        last = {}
        order = []
        common = set(self.cur_back[0].conds) if self.cur_back else set()
        for p in self.cur_back: common &= set(p.conds)
        for p, l in byp.values():
            d = {}
            for ix, v in l: d[ix] = v            # last store to the same cell wins
            for ix, v in d.items():
                if ix not in last: last[ix] = []; order.append(ix)
                last[ix].append((p, v))
        out = []
        for ix in order:
            l = last[ix]
            if len(l) == npaths:
                val = l[-1][1]
                for p, v in reversed(l[:-1]):
                    try: val = self.sx.vite(and_(*[x for x in p.conds if x not in common]), self.num(v), self.num(val))
                    except Unsupported: return None
                out.append((ix, TRUE, val))
            else:
                val = l[-1][1]
                for p, v in reversed(l[:-1]): val = self.sx.vite(self.cond_of(p), self.num(v), self.num(val))
                out.append((ix, or_(*[self.cond_of(p) for p, _ in l]), val))
        return out
    def num(self, v): return v
    def make_layer(self, key_, bl):
        es = self.entries(bl)
        if es is None: self.make_opaque(key_); self.bent.add(key_); return True
        lin = []
        for ix, c, v in es:
            li = linear_in(ix, self.k)
            if li is None: self.make_opaque(key_); self.bent.add(key_); return True
            if not self.known(c): self.make_opaque(key_); self.bent.add(key_); return True
            if not isinstance(v, T): self.make_opaque(key_); return True
            lin.append((li, ix, c, v))
        a0 = lin[0][0][0] if lin else 1
        if any(l[0][0] != a0 for l in lin): self.make_opaque(key_); return True
        for x in range(len(lin)):
            for y in range(x):
                d = sub(lin[x][0][1], lin[y][0][1])
                if d.op != "num": self.make_opaque(key_); return True
        if lin:
            b0 = lin[0][0][1]
            lin.sort(key=lambda l: float(pd(sub(l[0][1], b0)).get((), 0)) * (1 if a0 > 0 else -1))
        old = {e[0]: e for e in self.layer.get(key_, [])}
        ents = []
        for li, ix, c, v in lin:
            kn = self.known(v)
            vn = old[ix][2] if ix in old else "V%s!%d" % (self.tag, TM._fresh[0]); TM._fresh[0] += 1
            ents.append((ix, c, vn, v.s if v.s != "B" else "I", v if kn else None))
        self.layer[key_] = ents
        return True
    def learn_values(self, back, n0):
        self.cur_back = back
        if not back: return False
        if self.learn_from(back) or (self.fold(back) and self.learn_from(back)): return True
        if not self.idxknown:
            self.idxknown = True
            if getattr(self, "pending", False): return True
        return False
    def fold(self, back):
        """steps that a path's conditions make constant"""
        changed = False
        for p in back:
            for c in self.carried():
                if c in self.closed or not isinstance(p.nexts.get(c), T) or p.nexts[c].s != "I": continue
                d = sub(p.nexts[c], self.symof(c))
                its = [x for x in subterms(d) if x.op == "ite"]
                if not its or len(its) > 6: continue
                cands = sorted(set(x.a[0] for i in its for x in i.a[1:] if x.op == "num" and abs(x.a[0]) <= 64) | {1})
                for v in cands + [-v for v in cands]:
                    if self.sx.decide(p.st, eq(d, I(int(v)))) is True: p.nexts[c] = add(self.symof(c), I(int(v))); changed = True; break
        return changed
    def learn_from(self, back):
        changed = False
        nx = self.merged(back)
        unsolved = [c for c in self.carried() if c not in self.closed]
        # integers first
        unsolved.sort(key=lambda c: (self.symof(c).s != "I",))
        for c in unsolved:
            n = nx[c]
            if n is None: continue
            p = self.symof(c)
            ini = self.initof(c)
            mp = {self.symof(d): self.closed[d] for d in self.carried() if d in self.closed}
            if n is p: self.closed[c] = ini; changed = True; continue
            if p.s != "B":
                d = self.delta(n, p)
                if p not in fv(d) and self.known(d):
                    if self.k not in fv(d): self.closed[c] = add(ini, mul(d, self.k))
                    else: self.closed[c] = add(ini, psum(d, self.k, self.k) if True else d)
                    if self.closed[c].s != p.s and p.s == "R": self.closed[c] = toreal(self.closed[c])
                    changed = True; continue
            if p.s == "I" and n.op == "ite":
                # a counter that advances by one until it reaches a bound
                for stay, go, lim in ((n.a[1], n.a[2], n.a[0]), (n.a[2], n.a[1], not_(n.a[0]))):
                    if stay is p and sub(go, p).op == "num" and sub(go, p).a[0] == 1 and lim.op in ("eq0", "le0"):
                        li = linear_in(lim.a[0], p)
                        if not li or abs(li[0]) != 1 or (lim.op == "le0" and li[0] != -1): continue
                        E = scale(li[1], -1 / li[0])
                        if not self.variant(E) and self.sx.decide(self.st0, le(ini, E)) is True:
                            self.closed[c] = ite(le(add(ini, self.k), E), add(ini, self.k), E); changed = True; break
                if c in self.closed: continue
            if p not in fv(n) and self.known(n):
                prev = subst(n, {self.k: sub(self.k, I(1))})
                at0 = subst(n, {self.k: I(-1)})
                if at0 is ini or (isinstance(at0, T) and at0.s != "B" and sub(at0, ini).op == "num" and sub(at0, ini).a[0] == 0): self.closed[c] = prev
                else: self.closed[c] = ite(eq(self.k, I(0)), ini, prev)
                if p.s == "R": self.closed[c] = toreal(self.closed[c])
                changed = True; continue
        return changed
    def delta(self, n, p):
        """n - p, taken inside conditionals that do not depend on p"""
        if n.op == "ite" and p not in fv(n.a[0]) and p in fv(n): return ite(n.a[0], self.delta(n.a[1], p), self.delta(n.a[2], p))
        return sub(n, p)
    def merged(self, back):
        res = {}
        common = set(back[0].conds) if back else set()
        for p in back: common &= set(p.conds)
        for c in self.carried():
            try:
                v = back[-1].nexts[c]
                for p in reversed(back[:-1]):
                    a = p.nexts[c]
                    if a is v: continue
                    v = ite(and_(*[x for x in p.conds if x not in common]), a, v)
                res[c] = v
            except KeyError: res[c] = None
        return res

    # ------------------------------------------------------------ recurrences
    def alike(self, back):
        """coarsest partition of the unsolved values with equal initial values and, within it, equal successors; recurrences
        of loops met before take part, so that two loops computing the same sequence name it alike"""
        nx = self.merged(back)
        mp0 = {self.symof(d): self.closed[d] for d in self.carried() if d in self.closed}
        K0 = var("k!rec", "I"); mp0[self.k] = K0
        U = [c for c in self.carried() if c not in self.closed and nx.get(c) is not None]
        ent = {c: (self.symof(c), self.initof(c), subst(subst(nx[c], mp0), mp0)) for c in U}
        ops = set(b.name for b in self.opaque.values()); usyms = set(e[0] for e in ent.values())
        pure = all(not [v for v in _fresh_after(e[2], self.n0start) if v not in usyms] and not arrays(e[2]) & (ops | self.volatile_arrays()) for e in ent.values())
        old = {}
        if pure:
            for g in self.sx.recs: old.update(g)
        allc = dict(old); allc.update({("new", c): e for c, e in ent.items()})
        sig = {c: (e[0].s, e[1]) for c, e in allc.items()}
        while True:
            first, rep = {}, {}
            for c in allc: rep[c] = first.setdefault(sig[c], c)
            mp = {allc[c][0]: allc[rep[c]][0] for c in allc if rep[c] != c}
            new = {c: (allc[rep[c]][0], subst(allc[c][2], mp)) for c in allc}
            n2 = len(set(new.values()))
            sig = new
            if n2 == len(first): break
        res = {}; self.shared = {}
        lead = {}
        for c in U:
            r = rep[("new", c)]
            if r in old: self.shared[c] = r[1] if r not in lead else None; lead.setdefault(r, c)
            else: lead.setdefault(r, c)
            res[c] = lead[r]
        tw = {ent[c][0]: ent[res[c]][0] for c in U if res[c] != c}
        self.fresh_group = {c: (ent[c][0], ent[c][1], subst(ent[c][2], tw)) for c in U if pure and res[c] == c and c not in self.shared}
        if any(c in self.shared for c in U) and self.fresh_group: self.fresh_group = {}
        return res
    def make_rec(self, c, back, n0):
        p = self.symof(c)
        nm = getattr(self, "shared", {}).get(c)
        if nm is None:
            nm = "r%s.%s" % (str(p.a[0]), TM._fresh[0]); TM._fresh[0] += 1
        self.recname = getattr(self, "recname", {})
        self.recname[c] = nm
        self.closed[c] = sel(nm, self.k, p.s)
    def generalise(self, t):
        """inner fresh symbols become functions of the iteration"""
        mp = {}
        for v in _fresh_after(t, self.n0start):
            if v is self.k or v in self.symset(): continue
            if "kv" in str(v.a[0]) : pass
            mp[v] = sel("sk." + str(v.a[0]), self.k, v.s)
        return subst(t, mp) if mp else t
    def symset(self):
        return set(self.symof(c) for c in self.carried())
    def finish_layers(self, back):
        """a stored value that is also the next value of a carried variable is named by that variable's recurrence"""
        self.recval = set(); nx = self.merged(back)
        rec = {}
        for c, nm in getattr(self, "recname", {}).items():
            if isinstance(nx.get(c), T): rec.setdefault(nx[c], sel(nm, add(self.k, I(1)), self.symof(c).s))
        if not rec: return
        for key_ in list(self.layer):
            bl = [(p, ix, v) for p in back for k2, ix, v in p.stores if k2 == key_]
            es = self.entries(bl) or []
            d = {ix: v for ix, c, v in es}
            out = []
            for ix, c, vn, s, val in self.layer[key_]:
                v = d.get(ix)
                if val is None and c is TRUE and isinstance(v, T) and v in rec and rec[v].s == s:
                    val = rec[v]; self.recval.add((key_, ix))
                out.append((ix, c, vn, s, val))
            self.layer[key_] = out

    # ------------------------------------------------------------ invariants
    def solved_map(self):
        return {self.symof(c): self.closed[c] for c in self.carried()}
    def rec_facts(self, k, back):
        """definitions valid for completed iterations < k"""
        out = []
        rn = getattr(self, "recname", {})
        if rn:
            nx = self.merged(back)
            mp = self.solved_map()
            for c, nm in rn.items():
                n = nx[c]
                if n is None: continue
                n = self.generalise(subst(n, mp))
                kv = fresh("i", "I")
                p = self.symof(c)
                if arrays(n) & set(b.name for b in self.opaque.values()): 
                    continue
                body = eq(sel(nm, add(kv, I(1)), p.s), subst(n, {self.k: kv}))
                out.append(Fact(kv, I(0), k, body, [sub(k, I(1))], "recurrence"))
        for key_, ents in self.layer.items():
            for ix, c, vn, s, val in ents:
                if val is None:
                    v = self.layer_vals.get((key_, ix))
                    if v is None: continue
                    kv = fresh("i", "I")
                    out.append(Fact(kv, I(0), k, eq(sel(vn, kv, s), subst(v, {self.k: kv})), [], "stored values"))
        return out
    def back_cond(self, back):
        mp = self.solved_map()
        cs = []
        for p in back:
            cs.append(and_(*[self.weaken(subst(c, mp)) for c in p.conds]))
        return or_(*cs)
    def weaken(self, c):
        if c.op in ("and", "or"):
            return (and_ if c.op == "and" else or_)(*[self.weaken(x) for x in c.a])
        if arrays(c) & set(b.name for b in self.opaque.values()): return TRUE
        if [v for v in _fresh_after(c, self.n0start) if v is not self.k]: return TRUE
        return c
    def range_facts(self, k, bc):
        """no exit was taken at earlier iterations"""
        out, pcs = [], []
        if bc is TRUE: return out, pcs
        conj = list(bc.a) if bc.op == "and" else [bc]
        for c in conj:
            if self.k not in fv(c): 
                pcs.append(implies(lt(I(0), k), c)); continue
            kv = fresh("i", "I")
            out.append(Fact(kv, I(0), k, subst(c, {self.k: kv}), [sub(k, I(1)), I(0)], "loop guard"))
            if not any(x.op in ("psum", "sel") for x in subterms(c)):
                pcs.append(implies(le(I(1), k), subst(c, {self.k: sub(k, I(1))})))
        return out, pcs

    def prep(self, back, exits):
        """values and conditions as functions of k only"""
        self.layer_vals = {}
        mp = self.solved_map()
        self.cur_back = back
        for key_, ents in self.layer.items():
            bl = []
            for p in back:
                for k2, ix, v in p.stores:
                    if k2 == key_: bl.append((p, ix, v))
            es = self.entries(bl)
            for ix, c, v in es or []:
                v = subst(v, mp)
                v = self.generalise(v)
                if not (arrays(v) & set(b.name for b in self.opaque.values())): self.layer_vals[(key_, ix)] = v
        self.bc = self.back_cond(back)

    def assume_iter(self, st, k, back):
        """everything known at the start of iteration k"""
        fs, pcs = self.range_facts(k, self.bc)
        st.facts += fs
        for c in pcs: st.assume(c)
        st.facts += self.rec_facts(k, back)
        rn = getattr(self, "recname", {})
        for c, nm in rn.items():
            st.assume(eq(sel(nm, I(0), self.symof(c).s), self.initof(c)))
        for K in self.Ks:
            st.assume(le(k, K))
        for mkinv in self.inv:
            x = mkinv(k)
            if isinstance(x, Fact): st.facts.append(x)
            else: st.assume(x)

    def exit_bounds(self, back, exits):
        """iteration counts at which some exit is certainly taken"""
        mp = self.solved_map()
        self.Ks = []
        ex = [and_(*[subst(c, mp) for c in p.conds]) for p in exits]
        anyexit = or_(*ex)
        cands = []
        for c in ex:
            for a in (c.a if c.op == "and" else [c]):
                cands += self.bound_candidates(a)
        st = self.st0.fork()
        seen = set()
        for K in cands:
            if K.id in seen or self.k in fv(K): continue
            if not self.known_inv(K): continue
            seen.add(K.id)
            e = subst(anyexit, {self.k: K})
            if self.sx.decide(st, le(I(0), K), 2.0) is True:
                s2 = st.fork(); s2.assume(le(I(0), K))
                # all conditions of iterations before K may be used as facts
                fs, pcs = self.range_facts(K, self.weaken(self.bc))
                s2.facts += fs
                for c in pcs: s2.assume(c)
                if e is TRUE or Prover(3.0).prove(s2.ctx(), e).ok:
                    self.Ks.append(K)
            else:
                # zero iterations possible:  max(K, 0)
                d = self.sx.decide(st, le(K, I(0)), 2.0)
                K2 = I(0) if d is True else ite(le(I(0), K), K, I(0))
                e = subst(anyexit, {self.k: K2})
                if K2.id not in seen and (e is TRUE or Prover(3.0).prove(st.ctx(), e).ok): self.Ks.append(K2); seen.add(K2.id)
    def early_bounds(self, exits):
        """iteration bounds that follow from the solved index values alone, used while values are being learned (the final
        pass proves the description again)"""
        if self.early_done: return False
        self.early_done = True
        mp = {self.symof(c): self.closed[c] for c in self.carried() if c in self.closed}
        division = lambda c: any(x.op == "app" and x.a[0] in ("udiv", "sdiv") or x.op == "idiv" for x in subterms(c))     # defining properties of quotients
        ex = [and_(*[subst(c, mp) for c in p.conds if not division(c)]) for p in exits]
        anyexit = or_(*ex)
        for c in ex:
            for a in (c.a if c.op == "and" else [c]):
                for K in self.bound_candidates(a):
                    if self.k in fv(K) or not self.known_inv(K) or K in self.early or K.op == "num": continue
                    hit = subst(anyexit, {self.k: K})
                    if self.sx.decide(self.st0, le(I(0), K), 1.0) is True and (hit is TRUE or self.sx.decide(self.st0, hit, 1.0) is True): self.early.append(K)
        if not self.early: return False
        # relearn the values under the bound
        keep = {c: v for c, v in self.closed.items() if self.symof(c).s == "I" and not arrays(v)}
        st = self.start_state(self.k); keep = {c: self.settle(v, st) for c, v in keep.items()}
        bent = [x for x in self.bent if x in self.opaque]
        if keep == self.closed and not self.layer and not bent: return False
        self.unbend()
        self.closed = keep
        return True
    def known_inv(self, K):
        return not [v for v in _fresh_after(K, self.n0start)] and not (arrays(K) & (self.volatile_arrays() | set(getattr(self, "recname", {}).values())))
    def bound_candidates(self, a, depth=0):
        out = []
        if depth < 3 and a.op in ("le0", "lt0", "eq0"):
            c = first_ite(a)
            if c is not None:
                for v in (True, False): out += self.bound_candidates(replace_ite(a, c.a[0], v), depth + 1)
                return out
        if a.op == "or":
            for x in a.a: out += self.bound_candidates(x)
        if a.op == "and":
            for x in a.a: out += self.bound_candidates(x)
        if a.op == "eq0":
            li = linear_in(a.a[0], self.k)
            if li:
                c, r = li
                t = scale(r, -1 / c)
                if t.s == "I" and all(q.denominator == 1 for q in pd(t).values()): out.append(t)
                elif a.a[0].s == "I" and c.denominator == 1: out.append(idiv(scale(r, -1 if c > 0 else 1), int(abs(c))))
        if a.op == "not" and a.a[0].op == "eq0":
            # k != t leaves the loop at once, or after the first iteration when t = 0
            li = linear_in(a.a[0].a[0], self.k)
            if li and li[1].op == "num": out.append(I(1) if li[1].a[0] == 0 else I(0))
        if a.op in ("le0", "lt0"):
            li = linear_in(a.a[0], self.k)
            if li:
                c, r = li
                if c < 0:
                    # k >= r/(-c)
                    t = ceil(toreal(scale(r, F(1) / -c))) if c != -1 else (r if r.s == "I" else ceil(r))
                    if a.op == "lt0": t = add(floor(scale(r, F(1) / -c)), I(1))
                    out.append(t)
        return out

    def find_invariants(self, back, exits):
        self.prep(back, exits)
        self.exit_bounds(back, exits)
        rn = getattr(self, "recname", {})
        if not rn: return
        cands = self.templates(back, exits)
        if not cands: return
        sx = self.sx
        k = self.k; k1 = add(k, I(1))
        mp = self.solved_map()
        nx = self.merged(back)
        # initiation
        def holds(st, x, tmo=2.0):
            if isinstance(x, Fact):
                v = fresh("q", "I"); g = subst(x.body, {x.v: v}); s = st.fork()
                if x.lo is not None: s.assume(le(x.lo, v))
                if x.hi is not None: s.assume(lt(v, x.hi))
                if s.pc and any(c is FALSE for c in s.pc): return True
                return Prover(tmo).prove(s.ctx(), g).ok
            return Prover(tmo).prove(st.ctx(), x).ok
        st = self.st0.fork()
        for c, nm in rn.items(): st.assume(eq(sel(nm, I(0), self.symof(c).s), self.initof(c)))
        for c, (wn, cond, val, p) in getattr(self, "wit", {}).items(): st.assume(eq(sel(wn, I(0), "I"), I(-1)))
        live = [m for m in cands if holds(st, m(I(0)))]
        # consecution
        base = []
        for p in back:
            s = self.st0.fork(); s.assume(le(I(0), k))
            self.inv = []
            self.assume_iter(s, k, back)
            for c in p.conds: s.assume(subst(c, mp))
            s.facts += [x.subst(mp) for x in p.facts]
            for c, nm in rn.items():
                s.assume(eq(sel(nm, k1, self.symof(c).s), subst(p.nexts[c], mp)))
            for c, (wn, cond, val, q) in getattr(self, "wit", {}).items():
                s.assume(eq(sel(wn, k1, "I"), ite(subst(cond, {q: self.closed[c]}), k, sel(wn, k, "I"))))
            base.append(s)
        for _ in range(12):
            bad = []
            for s in base:
                s2 = s.fork()
                for m in live:
                    x = m(k)
                    if isinstance(x, Fact): s2.facts.append(x)
                    else: s2.assume(x)
                for m in live:
                    if m in bad: continue
                    if not holds(s2, m(k1)): bad.append(m)
            if not bad: break
            live = [m for m in live if m not in bad]
        self.inv = live

    def templates(self, back, exits):
        """candidate invariants from the shape of the recurrences and of the loop's own comparisons"""
        rn = getattr(self, "recname", {})
        mp = self.solved_map(); k = self.k
        cands = []
        def at(t, kk): return subst(t, {k: kk})
        ints = []       # integer carried values as functions of k
        for c in self.carried():
            if self.symof(c).s == "I": ints.append(self.closed[c])
        recints = [self.closed[c] for c in rn if self.symof(c).s == "I"]
        scal = [t for t in ints]
        def addterm(t):
            if t is TRUE: return
            cands.append(lambda kk, t=t: at(t, kk))
        inits = [self.initof(c) for c in rn if self.symof(c).s == "I"]
        # end points of the ranges quantified over in the known facts
        ends = []
        for fa in self.st0.facts:
            for e in (fa.lo, fa.hi):
                if e is not None and e.op != "num" and e not in ends and e not in inits and not any(w.op == "bv" for w in fv(e)): ends.append(e)
        ends = ends[:4]
        for t in recints:
            addterm(le(I(0), t))
            for K in self.Ks:
                addterm(le(t, K)); 
            for i_ in inits:
                addterm(le(t, i_)); addterm(le(i_, t))
            addterm(le(t, k)); addterm(lt(t, k))
            for u in ints:
                if u is not t: addterm(le(t, u)); addterm(lt(t, u))
            # element-scaled offsets
            for i_ in self.elem_bounds(t): addterm(i_)
            for e in ends: addterm(le(t, e)); addterm(le(e, t))
        for x in range(len(recints)):
            for y in range(x):
                for e in ends: addterm(le(add(recints[x], recints[y]), e)); addterm(le(e, add(recints[x], recints[y])))
                for i_ in inits + self.Ks:
                    addterm(le(add(recints[x], recints[y]), i_)); addterm(le(i_, add(recints[x], recints[y])))
                    addterm(eq(add(recints[x], recints[y]), i_))
                if recints[x].s == recints[y].s:
                    pass
        for c in rn:
            if self.symof(c).s == "R":
                t = self.closed[c]
                addterm(le(ZERO, t)); addterm(lt(ZERO, t))
                addterm(le(self.initof(c), t)); addterm(le(t, self.initof(c)))
                if self.symof(c).s == "R" and True: addterm(le(t, ONE))
        # selections: next = ite(c(p,k), v(k), p)
        nx = self.merged(back)
        for c in rn:
            p = self.symof(c); n = nx[c]
            sel_ = None
            if n is not None and n.op == "ite":
                if n.a[2] is p and p not in fv(n.a[1]): sel_ = (n.a[0], n.a[1])
                elif n.a[1] is p and p not in fv(n.a[2]): sel_ = (not_(n.a[0]), n.a[2])
            if not sel_: continue
            cond, val = sel_
            mp2 = {q: v for q, v in mp.items() if q is not p}
            cond = subst(cond, mp2); val = subst(val, mp2)
            cur = self.closed[c]
            if not self.fn_of_k(cond, p) or not self.fn_of_k(val, p): continue
            # no earlier iteration would still improve on the current value
            def m1(kk, cond=cond, p=p, cur=cur):
                v = fresh("j", "I")
                return Fact(v, I(0), kk, not_(subst(cond, {k: v, p: at(cur, kk)})), [], "selection")
            cands.append(m1)
            # weaker form: non-strict
            # attained: value = init or v(w) for a witness w
            wn = "w%s.%d" % (str(p.a[0]), TM._fresh[0]); TM._fresh[0] += 1
            self.wit = getattr(self, "wit", {})
            self.wit[c] = (wn, cond, val, p)
            w = lambda kk, wn=wn: sel(wn, kk, "I")
            cands.append(lambda kk, w=w: and_(le(I(-1), w(kk)), lt(w(kk), kk)))
            ini = self.initof(c)
            def m2(kk, w=w, val=val, cur=cur, ini=ini):
                return and_(implies(lt(w(kk), I(0)), eq(at(cur, kk), ini)), implies(le(I(0), w(kk)), eq(at(cur, kk), subst(val, {k: w(kk)}))))
            cands.append(m2)
            def m3(kk, w=w, cond=cond, val=val, p=p):
                v = fresh("j", "I")
                return Fact(v, I(0), w(kk), subst(cond, {p: subst(val, {k: v}), k: w(kk)}), [], "first")
            cands.append(m3)
            def m4(kk, w=w, cond=cond, ini=ini, p=p):
                return implies(le(I(0), w(kk)), subst(cond, {p: ini, k: w(kk)}))
            cands.append(m4)
        # running extreme: a carried value (or the sample at a carried index) bounds every sample seen so far
        sel_ok = set(self.wit) if hasattr(self, "wit") else set()
        exts = []
        for c in rn:
            if c in sel_ok: continue
            cur = self.closed[c]
            for q in back + exits:
                for cc in list(q.conds) + [t for t in (q.nexts.values() if q.kind == "back" else ()) if t is not None]:
                    for x in subterms(subst(cc, mp)):
                        if x.op == "sel" and x.s == "R" and isinstance(x.a[0], str) and x.a[0] not in rn.values() and x.a[0] not in self.volatile_arrays():
                            if self.symof(c).s == "I" and cur is x.a[1]: e = (x, x.a[0], F(1))
                            elif self.symof(c).s == "R" and not self.dep_rec(x): e = (cur, x.a[0], F(1))
                            else: continue
                            if e not in exts: exts.append(e)
        wraps = [lambda t: t] + ([lambda t: fn("fabs", t)] if any(x.op == "app" and x.a[0] == "fabs" for q in back + exits for cc in q.conds for x in subterms(cc)) else [])
        for x, arr, _ in exts[:6]:
            for u in [t for t in ints if not self.dep_rec(t) and k in fv(t)] or [k]:
                for rel in (lambda a, b: le(a, b), lambda a, b: le(b, a)):
                    for wrap in wraps:
                        cands.append(lambda kk, x=x, arr=arr, u=u, rel=rel, wrap=wrap: (lambda v: Fact(v, I(0), at(u, kk), rel(at(wrap(x), kk), wrap(sel(arr, v, "R"))), [], "running extreme"))(fresh("j", "I")))
        # partition predicates from comparisons of array cells
        preds = []
        for q in back + exits:
            for cc in q.conds:
                for a in (cc.a if cc.op in ("and", "or") else [cc]):
                    a = subst(a, mp)
                    for x in subterms(a):
                        if x.op == "sel" and isinstance(x.a[0], str) and x.a[0] not in rn.values() and x.a[0] not in self.volatile_arrays() and x.a[0][0] != "w" and self.dep_rec(x.a[1]):
                            v = fresh("j", "I")
                            b = subst(a, {x: sel(x.a[0], v, x.s)})
                            if self.dep_rec(b) or k in fv(b): continue
                            for bb in (b, not_(b)):
                                if bb.op in ("true", "false"): continue
                                h = key(subst(bb, {v: var("j", "I")}))
                                if h not in [z[0] for z in preds]: preds.append((h, v, bb, x))
        if preds and recints:
            base = lambda t, x: t
            for h, v, b, x in preds[:6]:
                # element index units: offsets may be scaled by the element size
                S = self.scale_of(x, recints)
                bnds = [I(0)] + [self.unscale(t, S) for t in recints] + [self.unscale(i_, S) for i_ in inits if i_.op != "num"]
                for x1 in range(len(recints)):
                    for y1 in range(len(recints)):
                        if x1 != y1: bnds.append(self.unscale2(recints[x1], recints[y1], S))
                bnds = [t for t in bnds if t is not None]
                for lo in bnds:
                    for hi in bnds:
                        if lo is hi or (lo.op == "num" and hi.op == "num"): continue
                        cands.append(lambda kk, lo=lo, hi=hi, v=v, b=b: Fact(v, at(lo, kk), at(hi, kk), b, [], "partition"))
        return cands
    def scale_of(self, x, recints):
        d = pd(x.a[1])
        cs = set()
        for m, c in d.items():
            if m != () : cs.add(c)
        return min((abs(c) for c in cs), default=F(1))
    def unscale(self, t, S):
        return t if S == 1 or True else t
    def unscale2(self, a, b, S): return add(a, b)
    def elem_bounds(self, t): return []
    def dep_rec(self, t):
        return bool(arrays(t) & set(getattr(self, "recname", {}).values()))
    def fn_of_k(self, t, p):
        t0 = subst(t, {p: num(0, p.s) if p.s != "B" else TRUE})
        if arrays(t0) & set(b.name for b in self.opaque.values()): return False
        return not [v for v in _fresh_after(t0, self.n0start) if v is not self.k]

    # ------------------------------------------------------------ final pass
    def final(self):
        sx = self.sx; k = self.k
        st = self.start_state(k)
        back_prev = self.cur_back
        self.assume_iter(st, k, back_prev)
        if any(c is FALSE for c in st.pc): raise Unsupported("inconsistent loop description")
        back, exits = self.run_body(st)
        k1 = add(k, I(1))
        where = "loop %s in %s" % (self.L.header, self.f.name[:60])
        nx = self.merged(back_prev); mp = self.solved_map()
        if sx.rec == 0:
            # initiation
            s0 = self.st0
            for c in self.carried():
                if c in getattr(self, "recname", {}): continue
                sx.oblige(s0, "invariant", "initiation: %s at k=0 (%s)" % (c[1] if c[0] == "phi" else c[1][0], where), self.eqv(self.initof(self.twin[c]) if c in self.twin else subst(self.closed[c], {k: I(0)}), self.initof(c)))
            for p in back:
                for c in self.carried():
                    if c in getattr(self, "recname", {}):
                        want = self.generalise(subst(nx[c], mp)) if nx[c] is not None else None
                        got = self.generalise(p.nexts[c])
                        if want is None: continue
                    elif c in self.twin: want = p.nexts[self.twin[c]]; got = p.nexts[c]
                    else: want = subst(self.closed[c], {k: k1}); got = p.nexts[c]
                    if not (want is got):
                        sx.oblige(p.st, "invariant", "consecution: %s (%s)" % (c[1] if c[0] == "phi" else c[1][0], where), self.eqv(got, want))
                self.check_stores(p, where)
            self.terminates(back, exits, where)
            for m in self.inv:
                sx.loopinv.append((where, m))
        res = []
        for p in exits:
            res += self.exit_states(p)
        return res
    def eqv(self, a, b):
        if a is b: return TRUE
        return eq(a, b)
    def check_stores(self, p, where):
        """the iteration's stores are the ones the layers describe"""
        sx = self.sx
        per = {}
        for key_, ix, v in p.stores:
            if key_[0] not in self.st0.objs: continue
            per.setdefault(key_, {})[ix] = v
        for key_, d in per.items():
            if key_ not in self.modified:
                raise Unsupported("store outside the loop description")
        for key_, ents in self.layer.items():
            d = dict(per.get(key_, {}))
            for ix, c, vn, s, val in ents:
                want = val if val is not None and (key_, ix) not in getattr(self, "recval", ()) else self.layer_vals.get((key_, ix))
                if ix in d:
                    v = d.pop(ix)
                    sx.oblige(p.st, "invariant", "consecution: cell written in %s (%s)" % (key_[0], where), c)
                    if want is not None and want is not v:
                        g = self.generalise(v)
                        if g is not want: sx.oblige(p.st, "invariant", "consecution: value written in %s (%s)" % (key_[0], where), self.eqv(g, want))
                else:
                    sx.oblige(p.st, "invariant", "consecution: no cell written in %s (%s)" % (key_[0], where), not_(c))
            if d: raise Unsupported("store outside the loop description")
    def terminates(self, back, exits, where):
        sx = self.sx
        if self.Ks:
            sx.oblige(self.st0, "termination", "some exit is taken within a bounded number of iterations (%s)" % where, TRUE)
            return
        # ranking function among the integer carried values (or their differences)
        rn = getattr(self, "recname", {})
        ints = [c for c in self.carried() if self.symof(c).s == "I"]
        best = None
        cands = [({c: 1}) for c in ints] + [({c: -1}) for c in ints] + [({c: 1, d: -1}) for c in ints for d in ints if c != d]
        invs = [fv_ for fv_ in ()]
        for cd in cands:
            ok = True
            for p in back:
                cur = add(I(0), *[scale(subst(self.closed[c], {self.k: self.k}), s) for c, s in cd.items()])
                nxt = add(I(0), *[scale(p.nexts[c], s) for c, s in cd.items()])
                s2 = p.st
                if not Prover(1.5).prove(s2.ctx(), lt(nxt, cur)).ok: ok = False; break
                lower = None
                for b in [I(0)] + ([scale(K, -1) for K in self.Ks]):
                    if Prover(1.5).prove(s2.ctx(), le(b, cur)).ok: lower = b; break
                if lower is None:
                    # bounded by a quantity not changed by the loop
                    for c_ in p.conds:
                        for a in (c_.a if c_.op == "and" else [c_]):
                            if a.op in ("le0", "lt0"):
                                # a: t <= 0 ; t + cur free of k ?
                                for sg in (1, -1):
                                    r = add(a.a[0], scale(cur, sg))
                                    if r.s == "I" and not self.variant_final(r) :
                                        # t = r - sg*cur <= 0  -> sg*cur >= r
                                        if sg == 1: lower = r
                    if lower is None: ok = False; break
            if ok: best = cd; break
        if best is not None:
            sx.oblige(self.st0, "termination", "ranking function %s decreases and is bounded below (%s)" % (" ".join("%+d*%s" % (s, c[1] if c[0] == "phi" else c[1][0]) for c, s in best.items()), where), TRUE)
        else:
            sx.oblige(self.st0, "termination", "the loop terminates (%s)" % where, FALSE)
    def variant_final(self, t):
        return bool([v for v in _fresh_after(t, self.n0start)] ) or bool(arrays(t) & (self.volatile_arrays() | set(getattr(self, "recname", {}).values())))

    def constant_trip(self, back, exits):
        """iteration count when it is a small literal and unrolling is needed or cheap"""
        hard = any(c not in self.closed for c in self.carried()) or bool(self.opaque)
        if any(self.symof(c).s != "I" and False for c in self.carried()): return None
        mp = {self.symof(c): self.closed[c] for c in self.carried() if c in self.closed}
        best = None
        for p in exits:
            for c in p.conds:
                c = subst(c, mp)
                for t in self.bound_candidates(c):
                    if t.op == "num" and t.a[0] >= 0: best = t.a[0] if best is None else min(best, t.a[0])
        if best is None: return None
        return int(best) if best <= (70 if hard else 4) else None
    def unroll(self, K, width=4000):
        sx = self.sx; res = []
        st = self.st0.fork()
        for n in self.sym: st.env[n] = self.const[n] if n in self.const else self.init[n]
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            if i > K + 2 or len(work) + len(res) > width: raise Unsupported("unrolling exceeds the iteration count")
            for o in sx.region(self.f, self.L.header, None, s, self.L, skip_phi=True):
                if o[0] == "edge" and o[2] == self.L.header:
                    s2 = o[3]
                    sx.do_phis(self.f, self.L.header, o[1], s2)
                    work.append((s2, i + 1))
                else: res.append(o)
        return res
    def first_only(self):
        sx = self.sx
        st = self.st0.fork()
        for n in self.sym:
            st.env[n] = self.const[n] if n in self.const else self.init[n]
        outs = sx.region(self.f, self.L.header, None, st, self.L, skip_phi=True)
        r = []
        for o in outs:
            if o[0] == "edge" and o[2] == self.L.header:
                raise Unsupported("loop body repeats unexpectedly")
            r.append(o)
        return r

    def exit_states(self, p):
        o = p.out; sx = self.sx
        s = o[3] if o[0] == "edge" else o[2]
        outs = []
        todo = [s]
        for s in todo:
            K = self.solve_k(s)
            for mp, extra in K:
                s2 = s.fork()
                for c in extra: s2.assume(c)
                if mp: s2 = s2.subst(mp)
                if any(c is FALSE for c in s2.pc): continue
                if extra and not feasible(s2.ctx()): continue
                for key_ in self.modified:
                    if key_ in self.layer: s2.mem[key_] = absorb(s2.mem[key_])
                self.mark_stores(s2, p)
                if o[0] == "edge": outs.append(("edge", o[1], o[2], s2))
                elif o[0] == "ret": outs.append(("ret", vsubst(o[1], mp) if o[1] is not None and mp else o[1], s2))
                else: outs.append((o[0], None, s2))
        return outs
    def mark_stores(self, s, p):
        pre = len(self.st0.stores)
        own = s.stores[pre:]
        marks = []
        for key_ in self.modified:
            if key_ in self.layer or key_ in self.opaque:
                marks.append((key_, ("loop", None, None), None))
        for (key_, idx), sy in self.cells.items():
            v = s.mem.get(key_)
            try:
                val = sx_read = self.sx.read(s, v, idx, self.cellty[(key_, idx)])
                marks.append((key_, idx, val))
            except Unsupported: marks.append((key_, ("loop", None, None), None))
        s.stores = s.stores[:pre] + marks + own
    def solve_k(self, s):
        """express k on this exit; list of (substitution, extra assumptions)"""
        k = self.k
        base = set(c.id for c in self.st0.pc)
        conds = [c for c in s.pc if c.id not in base and k in fv(c)]
        for c in conds:
            if c.op == "eq0":
                li = linear_in(c.a[0], k)
                if li:
                    q, r = li
                    t = scale(r, -1 / q)
                    if t.s == "I": return [({k: t}, [])]
        for K in self.Ks:
            if Prover(2.0).prove(s.ctx(), eq(k, K)).ok: 
                return [({k: K}, [])] if K.op != "ite" else [({k: K.a[1]}, [K.a[0]]), ({k: K.a[2]}, [not_(K.a[0])])]
        return [({}, [])]
