"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for the real sources."""
import re, struct

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "sub", "packed")
    def __init__(self, k, n=0, sub=(), packed=False):
        self.k, self.n, self.sub, self.packed = k, n, sub, packed
    def __repr__(self):
        if self.k == "int": return "i%d" % self.n
        if self.k == "array": return "[%d x %r]" % (self.n, self.sub[0])
        if self.k == "vec": return "<%d x %r>" % (self.n, self.sub[0])
        if self.k == "struct": return "{" + ", ".join(map(repr, self.sub)) + "}"
        if self.k == "named": return "%" + self.n
        return self.k

VOID, PTR, DBL, FLT, LABEL, META = Ty("void"), Ty("ptr"), Ty("double"), Ty("float"), Ty("label"), Ty("metadata")
INTS = {}
def int_ty(n):
    if n not in INTS: INTS[n] = Ty("int", n)
    return INTS[n]

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 |(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 |(?P<meta>!(?:[\w.]+)?)
 |(?P<attr>\#\d+)
 |(?P<num>-?(?:0x[KMLHR]?[0-9A-Fa-f]+|\d+\.\d*(?:[eE][-+]?\d+)?|\d+(?![\w])))
 |(?P<dots>\.\.\.)
 |(?P<word>[A-Za-z_$][-\w$.]*)
 |(?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"): break
            raise IRError("tokenize: %r" % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out

class Val:
    """operand: kind in local/global/int/float/null/undef/zero/agg/cexpr/true/false/str/meta"""
    __slots__ = ("k", "v", "ty")
    def __init__(self, k, v, ty): self.k, self.v, self.ty = k, v, ty
    def __repr__(self): return "%s:%s" % (self.k, self.v)

class Inst:
    __slots__ = ("op", "res", "ty", "a", "x", "text")
    def __init__(self, op, res=None, ty=None, a=(), x=None, text=""):
        self.op, self.res, self.ty, self.a, self.x, self.text = op, res, ty, a, x, text
    def __repr__(self): return self.text

class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params   # params: [(ty, name, attrs)]
        self.blocks, self.order = {}, []
        self.attrs = set()

class Module:
    def __init__(self):
        self.funcs, self.globals, self.types, self.decls, self.aliases = {}, {}, {}, {}, {}
    # ---- layout
    def sizeof(self, t):
        k = t.k
        if k == "int": return max(1, (t.n + 7) // 8) if t.n not in (24, 48) else (4 if t.n == 24 else 8)
        if k == "double" or k == "ptr": return 8
        if k == "float": return 4
        if k == "x86_fp80": return 16
        if k == "array": return t.n * self.sizeof(t.sub[0])
        if k == "vec": return t.n * self.sizeof(t.sub[0])
        if k == "named": return self.sizeof(self.types[t.n])
        if k == "struct":
            return self.struct_layout(t)[1]
        raise IRError("sizeof %r" % t)
    def alignof(self, t):
        k = t.k
        if k == "array": return self.alignof(t.sub[0])
        if k == "named": return self.alignof(self.types[t.n])
        if k == "struct": return 1 if t.packed else max([self.alignof(x) for x in t.sub] or [1])
        return self.sizeof(t)
    def struct_layout(self, t):
        if t.k == "named": t = self.types[t.n]
        offs, o = [], 0
        for s in t.sub:
            al = 1 if t.packed else self.alignof(s)
            o = (o + al - 1) // al * al
            offs.append(o)
            o += self.sizeof(s)
        al = self.alignof(t)
        return offs, (o + al - 1) // al * al
    def resolve(self, t):
        while t.k == "named": t = self.types[t.n]
        return t

ATTR_PAREN = {"dereferenceable", "dereferenceable_or_null", "byval", "sret", "preallocated", "inalloca", "elementtype", "byref",
              "memory", "allocsize", "allockind", "vscale_range", "uwtable", "range", "nofpclass", "captures", "initializes"}
CC = {"fastcc", "ccc", "coldcc", "tailcc", "swiftcc"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}

class P:
    def __init__(self, toks, mod): self.t, self.i, self.m = toks, 0, mod
    def peek(self, o=0): return self.t[self.i + o] if self.i + o < len(self.t) else ("eof", "")
    def next(self):
        r = self.peek(); self.i += 1; return r
    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != "str": self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v): raise IRError("expected %s got %r in %r" % (v, self.peek(), " ".join(x[1] for x in self.t)[:300]))
    # -- types
    def is_type(self):
        k, v = self.peek()
        if k == "word": return v in ("void", "ptr", "double", "float", "label", "metadata", "half", "x86_fp80", "opaque", "token", "fp128") or re.fullmatch(r"i\d+", v) is not None
        return v in ("[", "{", "<") or k == "loc"
    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "ptr":
                t = PTR
                if self.peek()[1] == "addrspace": self.next(); self.skip_paren()
            elif v == "double": t = DBL
            elif v == "float": t = FLT
            elif v == "void": t = VOID
            elif v == "label": t = LABEL
            elif v == "metadata": t = META
            elif re.fullmatch(r"i\d+", v): t = int_ty(int(v[1:]))
            else: t = Ty(v)
        elif v == "[":
            n = int(self.next()[1]); self.expect("x"); s = self.type(); self.expect("]"); t = Ty("array", n, (s,))
        elif v == "{":
            t = Ty("struct", 0, tuple(self.tylist("}")))
        elif v == "<":
            if self.peek()[1] == "{":
                self.next(); t = Ty("struct", 0, tuple(self.tylist("}")), True); self.expect(">")
            else:
                n = int(self.next()[1]); self.expect("x"); s = self.type(); self.expect(">"); t = Ty("vec", n, (s,))
        elif k == "loc":
            t = Ty("named", v[1:].strip('"'))
        else:
            raise IRError("type? %r in %r" % ((k, v), " ".join(x[1] for x in self.t)[:200]))
        # function type suffix e.g.  i32 (ptr, ...)
        if self.peek()[1] == "(" and self.fnty_ok:
            d = 0
            while True:
                kk, vv = self.next()
                if vv == "(": d += 1
                if vv == ")":
                    d -= 1
                    if d == 0: break
        return t
    fnty_ok = False
    def tylist(self, close):
        r = []
        if self.accept(close): return r
        while True:
            r.append(self.type())
            if self.accept(close): return r
            self.expect(",")
    def skip_paren(self):
        self.expect("("); d = 1
        while d:
            v = self.next()
            if v[0] == "eof": raise IRError("paren")
            if v[1] == "(" and v[0] == "p": d += 1
            if v[1] == ")" and v[0] == "p": d -= 1
    def attrs(self):
        """skip parameter attributes, return set"""
        s = set()
        while True:
            k, v = self.peek()
            if k == "word" and v == "align":
                self.next(); s.add("align")
                if self.peek()[1] == "(": self.skip_paren()
                else: self.next()
            elif k == "word" and v in ATTR_PAREN:
                self.next(); s.add(v)
                if self.peek()[1] == "(": self.skip_paren()
            elif k == "word" and v in ("noundef", "nonnull", "readonly", "readnone", "writeonly", "nocapture", "noalias", "returned", "signext", "zeroext",
                       "inreg", "nest", "immarg", "swiftself", "nofree", "writable", "allocptr", "dead_on_unwind", "allocalign", "noext"):
                self.next(); s.add(v)
            elif k == "attr": self.next()
            elif k == "str":
                self.next()
                if self.accept("="): self.next()
            else: return s
    # -- values
    def value(self, ty):
        k, v = self.next()
        if k == "loc": return Val("local", v[1:].strip('"'), ty)
        if k == "glob": return Val("global", v[1:].strip('"'), ty)
        if k == "num":
            if ty.k in ("double", "float"):
                if v.startswith("0x"):
                    f = struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
                else: f = float(v)
                return Val("float", f, ty)
            if ty.k == "x86_fp80": return Val("fp80", v, ty)
            return Val("int", int(v), ty)
        if k == "word":
            if v == "true": return Val("int", 1, ty)
            if v == "false": return Val("int", 0, ty)
            if v == "null": return Val("null", None, ty)
            if v in ("undef", "poison"): return Val("undef", None, ty)
            if v == "zeroinitializer": return Val("zero", None, ty)
            if v == "none": return Val("undef", None, ty)
            if v in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "trunc", "sub", "add", "icmp", "select", "xor", "mul", "addrspacecast"):
                return self.cexpr(v, ty)
            if v in ("asm",): return Val("asm", None, ty)
            if v == "dso_local_equivalent" or v == "no_cfi": return self.value(ty)
            raise IRError("value word %r" % v)
        if k == "str":
            return Val("str", v, ty)
        if k == "meta":
            # metadata operand: swallow
            d = 0
            while True:
                kk, vv = self.peek()
                if kk == "eof" or (d == 0 and vv in (",", ")")): break
                if vv == "(" or vv == "{": d += 1
                if vv == ")" or vv == "}": d -= 1
                self.next()
            return Val("meta", None, ty)
        if v == "[" or v == "{":
            close = "]" if v == "[" else "}"
            r = []
            if not self.accept(close):
                while True:
                    t = self.type(); r.append(self.value(t))
                    if self.accept(close): break
                    self.expect(",")
            return Val("agg", r, ty)
        if v == "<":
            r = []
            packed = False
            if self.peek()[1] == "{": self.next(); packed = True
            while True:
                t = self.type(); r.append(self.value(t))
                if packed and self.accept("}"): self.expect(">"); break
                if not packed and self.accept(">"): break
                self.expect(",")
            return Val("agg", r, ty)
        raise IRError("value %r" % ((k, v),))
    def cexpr(self, op, ty):
        while self.peek()[1] in ("inbounds", "nsw", "nuw", "inrange", "exact"): 
            self.next()
            if self.peek()[1] == "(" and False: pass
        x = None
        if op == "icmp": x = self.next()[1]
        self.expect("(")
        if op == "getelementptr":
            bt = self.type(); self.expect(",")
            a = []
            while True:
                self.accept("inrange")
                t = self.type(); a.append(self.value(t))
                if self.accept(")"): break
                self.expect(",")
            return Val("cexpr", Inst("getelementptr", None, ty, a, bt), ty)
        a = []
        while True:
            t = self.type(); a.append(self.value(t))
            if self.accept("to"):
                to = self.type(); self.expect(")")
                return Val("cexpr", Inst(op, None, to, a, a[0].ty), ty)
            if self.accept(")"): break
            self.expect(",")
        return Val("cexpr", Inst(op, None, ty, a, x), ty)
    def tv(self):
        t = self.type(); self.attrs(); return self.value(t)

MD_TAIL = re.compile(r'(?:, ![\w.]+ !\d+)+\s*$')

BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptosi", "fptoui", "sitofp", "uitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}

def parse_inst(line, mod):
    text = line.strip()
    line = MD_TAIL.sub("", text)
    p = P(tokenize(line), mod)
    res = None
    if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
        res = p.next()[1][1:].strip('"'); p.next()
    k, op = p.next()
    while op in ("tail", "musttail", "notail"): k, op = p.next()
    if op in BIN:
        fl = set()
        while p.peek()[1] in ("nsw", "nuw", "exact", "disjoint") or p.peek()[1] in FMF: fl.add(p.next()[1])
        t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        return Inst(op, res, t, [a, b], fl, text)
    if op == "fneg":
        while p.peek()[1] in FMF: p.next()
        t = p.type(); return Inst(op, res, t, [p.value(t)], None, text)
    if op in CAST:
        while p.peek()[1] in ("nneg", "nsw", "nuw"): p.next()
        t = p.type(); v = p.value(t); p.expect("to"); to = p.type()
        return Inst(op, res, to, [v], t, text)
    if op in ("icmp", "fcmp"):
        while p.peek()[1] in FMF: p.next()
        pred = p.next()[1]; t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        return Inst(op, res, int_ty(1), [a, b], pred, text)
    if op == "ret":
        if p.accept("void"): return Inst("ret", None, VOID, [], None, text)
        return Inst("ret", None, None, [p.tv()], None, text)
    if op == "br":
        if p.accept("label"): return Inst("br", None, None, [], [p.next()[1][1:].strip('"')], text)
        t = p.type(); c = p.value(t); p.expect(","); p.expect("label"); l1 = p.next()[1][1:].strip('"'); p.expect(","); p.expect("label"); l2 = p.next()[1][1:].strip('"')
        return Inst("br", None, None, [c], [l1, l2], text)
    if op == "switch":
        v = p.tv(); p.expect(","); p.expect("label"); d = p.next()[1][1:].strip('"'); p.expect("[")
        cases = []
        while not p.accept("]"):
            t = p.type(); c = p.value(t); p.expect(","); p.expect("label"); cases.append((c.v, p.next()[1][1:].strip('"')))
        return Inst("switch", None, None, [v], (d, cases), text)
    if op == "unreachable": return Inst(op, text=text)
    if op == "resume": return Inst(op, None, None, [], None, text)
    if op == "alloca":
        p.accept("inalloca"); t = p.type(); n = None
        if p.accept(","):
            if p.peek()[1] != "align": n = p.tv()
        return Inst("alloca", res, PTR, [n] if n else [], t, text)
    if op == "load":
        atomic = p.accept("atomic"); p.accept("volatile"); t = p.type(); p.expect(","); a = p.tv()
        return Inst("load", res, t, [a], None, text)
    if op == "store":
        p.accept("atomic"); p.accept("volatile"); v = p.tv(); p.expect(","); a = p.tv()
        return Inst("store", None, None, [v, a], None, text)
    if op == "getelementptr":
        while p.peek()[1] in ("inbounds", "nusw", "nuw"): p.next()
        bt = p.type(); a = []
        while p.accept(","):
            a.append(p.tv())
        return Inst("getelementptr", res, PTR, a, bt, text)
    if op == "phi":
        while p.peek()[1] in FMF: p.next()
        t = p.type(); inc = []
        while True:
            p.expect("["); v = p.value(t); p.expect(","); b = p.next()[1][1:].strip('"'); p.expect("]"); inc.append((v, b))
            if not p.accept(","): break
        return Inst("phi", res, t, [], inc, text)
    if op == "select":
        while p.peek()[1] in FMF: p.next()
        c = p.tv(); p.expect(","); a = p.tv(); p.expect(","); b = p.tv()
        return Inst("select", res, a.ty, [c, a, b], None, text)
    if op in ("call", "invoke"):
        while p.peek()[1] in FMF or p.peek()[1] in CC: p.next()
        p.attrs()
        P.fnty_ok = False
        rt = p.type()
        fty_variadic = False
        if p.peek()[1] == "(":   # function type given
            p.skip_paren()
        k, v = p.peek()
        if k == "word" and v == "asm":
            return Inst("asm", res, rt, [], None, text)
        callee = p.value(PTR)
        p.expect("("); args = []
        if not p.accept(")"):
            while True:
                args.append(p.tv())
                if p.accept(")"): break
                p.expect(",")
        x = None
        if op == "invoke":
            while not p.accept("to"): p.next()
            p.expect("label"); n = p.next()[1][1:].strip('"'); p.expect("unwind"); p.expect("label"); u = p.next()[1][1:].strip('"')
            x = (n, u)
        return Inst(op, res, rt, [callee] + args, x, text)
    if op == "extractvalue":
        v = p.tv(); idx = []
        while p.accept(","): idx.append(int(p.next()[1]))
        return Inst(op, res, None, [v], idx, text)
    if op == "insertvalue":
        v = p.tv(); p.expect(","); w = p.tv(); idx = []
        while p.accept(","): idx.append(int(p.next()[1]))
        return Inst(op, res, v.ty, [v, w], idx, text)
    if op in ("extractelement", "insertelement"):
        a = [p.tv()]
        while p.accept(","): a.append(p.tv())
        return Inst(op, res, a[0].ty, a, None, text)
    if op == "shufflevector":
        a = [p.tv()]
        while p.accept(","): a.append(p.tv())
        return Inst(op, res, a[0].ty, a, None, text)
    if op == "freeze":
        v = p.tv(); return Inst(op, res, v.ty, [v], None, text)
    if op == "landingpad": return Inst(op, res, None, [], None, text)
    if op in ("cleanup", "catch", "filter"): return None
    return Inst("unsupported:" + op, res, None, [], None, text)

def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith("%") and " = type " in ln:
            nm, rest = ln.split(" = type ", 1)
            p = P(tokenize(rest), m)
            m.types[nm[1:].strip('"')] = p.type()
        elif ln.startswith("@"):
            nm = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)', ln).group(1).strip('"')
            m.globals[nm] = ln
            am = re.search(r'\balias\b.*ptr @("(?:[^"\\]|\\.)*"|[-\w$.]+)', ln)
            if am: m.aliases[nm] = am.group(1).strip('"')
        elif ln.startswith("declare"):
            mm = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', ln)
            m.decls[mm.group(1).strip('"')] = ln
        elif ln.startswith("define"):
            mm = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', ln)
            name = mm.group(1).strip('"')
            # parameters
            toks = tokenize(ln[mm.end() - 1:].rsplit("{", 1)[0])
            p = P(toks, m)
            params = []
            p.expect("(")
            if not p.accept(")"):
                while True:
                    if p.peek()[0] == "dots": p.next(); p.expect(")"); break
                    t = p.type(); at = p.attrs(); nmv = p.next()[1][1:].strip('"')
                    params.append((t, nmv, at))
                    if p.accept(")"): break
                    p.expect(",")
            head = ln[:mm.start()]
            htoks = [x for x in tokenize(head[len("define"):])]
            hp = P(htoks, m)
            rt = None
            while hp.i < len(htoks):
                if hp.is_type():
                    rt = hp.type(); break
                if hp.peek()[1] in ATTR_PAREN or hp.peek()[1] == "align":
                    hp.attrs()
                else: hp.next()
            f = Func(name, rt, params)
            i += 1
            cur = None
            while lines[i] != "}":
                l = lines[i]
                if l and not l.startswith(" ") and not l.startswith(";"):
                    lm = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', l)
                    cur = lm.group(1).strip('"'); f.blocks[cur] = []; f.order.append(cur)
                elif l.strip() and not l.strip().startswith(";"):
                    s = l.strip()
                    if re.match(r'(%\S+ = )?(switch)\b', s) and "]" not in s:
                        while "]" not in lines[i]:
                            i += 1; s += " " + lines[i].strip()
                    if re.match(r'(%\S+ = )?invoke\b', s) and " unwind " not in s:
                        i += 1; s += " " + lines[i].strip()
                    if cur is None:
                        cur = "%entry"; f.blocks[cur] = []; f.order.append(cur)
                    if not re.match(r'(cleanup|catch|filter)\b', s):
                        try:
                            ins = parse_inst(s, m)
                        except (IRError, ValueError, KeyError, IndexError) as e:
                            ins = Inst("unsupported:parse:" + str(e)[:80], (re.match(r'%(\S+) =', s) or [None, None])[1], None, [], None, s)
                        if ins: f.blocks[cur].append(ins)
                i += 1
            m.funcs[name] = f
        i += 1
    return m

def parse_global_init(m, name):
    """returns (type, Val|None) of a global definition"""
    ln = MD_TAIL.sub("", m.globals[name])
    mm = re.search(r'\b(?:constant|global)\s+', ln)
    if not mm or " external " in ln.split("=", 1)[1][:40]: return None, None
    rest = ln[mm.end():]
    rest = re.sub(r', (align|section|comdat|partition).*$', '', rest)
    rest = re.sub(r', comdat.*$', '', rest)
    p = P(tokenize(rest), m)
    t = p.type()
    try: v = p.value(t)
    except IRError: v = None
    return t, v
