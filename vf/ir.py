"""Parser for the textual LLVM-18 IR subset the verifier executes.

The IR is produced on every run by clang from /repo's current source; nothing here is
specific to any property.
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name", "packed")

    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k, self.n, self.el, self.name, self.packed = k, n, el, name, packed

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "vec":
            return "<%d x %r>" % (self.n, self.el)
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.el))
        if self.k == "named":
            return "%" + self.name
        return self.k


VOID, PTR, LABEL, META = Ty("void"), Ty("ptr"), Ty("label"), Ty("metadata")

TOK = re.compile(
    r'\s*(c"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-\w.$]+)|![\w.]*|"(?:[^"\\]|\\.)*"|\.\.\.|'
    r'-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKHLMR]+|-?\d+|[A-Za-z_][\w.]*|#\d+|[()\[\]{}<>,=*:|])')


def tokenize(s):
    out, p, n = [], 0, len(s)
    while p < n:
        m = TOK.match(s, p)
        if not m:
            if s[p:].strip() == "" or s[p:].lstrip().startswith(";"):
                break
            raise IRError("tokenize: %r" % s[p:p + 60])
        if m.group(1) is None:
            break
        out.append(m.group(1))
        p = m.end()
    return out


PARAM_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly",
               "signext", "zeroext", "returned", "inreg", "immarg", "nofree", "nest", "swiftself",
               "dead_on_unwind", "writable", "allocptr", "allocalign"}
CALL_WORDS = {"tail", "musttail", "notail", "fastcc", "ccc", "coldcc"}
FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise IRError("eof in " + " ".join(self.t))
        self.i += 1
        return self.t[self.i - 1]

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        if self.next() != x:
            raise IRError("expected %s at %d in %s" % (x, self.i, " ".join(self.t)))

    def ty(self):
        t = self.next()
        if t == "ptr":
            if self.peek() == "addrspace":
                self.next(); self.exp("("); self.next(); self.exp(")")
            r = PTR
        elif t == "void":
            r = VOID
        elif t == "label":
            r = LABEL
        elif t == "metadata":
            r = META
        elif re.fullmatch(r"i\d+", t):
            r = Ty("int", int(t[1:]))
        elif t in ("float", "double", "x86_fp80", "half", "fp128"):
            r = Ty(t)
        elif t == "[":
            n = int(self.next()); self.exp("x"); e = self.ty(); self.exp("]")
            r = Ty("arr", n, e)
        elif t == "<":
            if self.acc("{"):
                els = self._tys("}"); self.exp(">")
                r = Ty("struct", len(els), els, packed=True)
            else:
                n = int(self.next()); self.exp("x"); e = self.ty(); self.exp(">")
                r = Ty("vec", n, e)
        elif t == "{":
            els = self._tys("}")
            r = Ty("struct", len(els), els)
        elif t[0] == "%":
            r = Ty("named", name=uq(t))
        elif t == "opaque":
            r = Ty("struct", 0, [])
        else:
            raise IRError("type %r in %s" % (t, " ".join(self.t)))
        # function type "T (args)" as in call of variadic
        return r

    def _tys(self, end):
        els = []
        while not self.acc(end):
            els.append(self.ty())
            self.acc(",")
        return els

    def attrs(self):
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.next()
            elif t == "align":
                self.next()
                if self.acc("("):
                    self.next(); self.exp(")")
                else:
                    self.next()
            elif t in ("dereferenceable", "dereferenceable_or_null", "byval", "sret", "byref",
                       "elementtype", "nofpclass", "memory", "inalloca", "preallocated"):
                self.next()
                d = 0
                while True:
                    x = self.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                        if d == 0:
                            break
            else:
                return

    def val(self, ty):
        """operand of given type -> ('reg',name) ('glob',name) ('int',v) ('agg',[..]) ..."""
        t = self.next()
        if t[0] == "%":
            return ("reg", uq(t))
        if t[0] == "@":
            return ("glob", uq(t))
        if t == "true":
            return ("int", 1)
        if t == "false":
            return ("int", 0)
        if t == "null":
            return ("null",)
        if t in ("undef", "poison"):
            return ("undef",)
        if t == "zeroinitializer":
            return ("zero",)
        if t == "splat":
            self.exp("("); et = self.ty(); v = self.val(et); self.exp(")")
            return ("agg", [(et, v)] * ty.n)
        if t == "getelementptr":
            self.acc("inbounds")
            self.exp("(")
            bt = self.ty(); self.exp(",")
            ops = []
            while True:
                if self.acc("inrange"):
                    pass
                pt = self.ty()
                ops.append((pt, self.val(pt)))
                if not self.acc(","):
                    break
            self.exp(")")
            return ("cgep", bt, ops)
        if t in ("bitcast", "inttoptr", "ptrtoint", "trunc", "addrspacecast", "zext", "sext"):
            self.exp("(")
            ft = self.ty(); v = self.val(ft); self.exp("to"); tt = self.ty(); self.exp(")")
            return ("ccast", t, ft, v, tt)
        if t in ("sub", "add", "mul", "and", "or", "xor", "shl"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.exp("(")
            t1 = self.ty(); a = self.val(t1); self.exp(","); t2 = self.ty(); b = self.val(t2); self.exp(")")
            return ("cbin", t, t1, a, b)
        if t in ("{", "[", "<"):
            packed = False
            if t == "<" and self.peek() == "{":
                self.next(); packed = True
                end = "}"
            else:
                end = {"{": "}", "[": "]", "<": ">"}[t]
            els = []
            while not self.acc(end):
                et = self.ty()
                els.append((et, self.val(et)))
                self.acc(",")
            if packed:
                self.exp(">")
            return ("agg", els)
        if t.startswith('c"'):
            bs = []
            s = t[2:-1]
            i = 0
            while i < len(s):
                if s[i] == "\\":
                    bs.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    bs.append(ord(s[i])); i += 1
            return ("agg", [(Ty("int", 8), ("int", b)) for b in bs])
        if re.fullmatch(r"-?\d+", t):
            return ("int", int(t))
        if re.fullmatch(r"-?\d+\.\d+(e[+-]?\d+)?|0x[0-9A-Fa-fKHLMR]+", t):
            return ("fp", t)
        if t == "asm":
            raise IRError("inline asm")
        raise IRError("value %r in %s" % (t, " ".join(self.t)))


def uq(t):
    t = t[1:]
    if t.startswith('"'):
        t = t[1:-1]
    return t


class Ins:
    __slots__ = ("op", "res", "ty", "a", "flags", "x", "line")

    def __init__(self, op, res, ty, a, flags=(), x=None, line=""):
        self.op, self.res, self.ty, self.a, self.flags, self.x, self.line = op, res, ty, a, flags, x, line

    def __repr__(self):
        return self.line.strip()


class Block:
    def __init__(self, name):
        self.name, self.ins = name, []

    def succs(self):
        t = self.ins[-1]
        if t.op == "br":
            return [t.x] if not t.a else [t.x[0], t.x[1]]
        if t.op == "switch":
            return [t.x[0]] + [l for _, l in t.x[1]]
        return []


class Func:
    def __init__(self, name, ret, params, decl):
        self.name, self.ret, self.params, self.decl = name, ret, params, decl
        self.blocks = {}
        self.order = []


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.aliases = {}, {}, {}, {}

    # ---- layout
    def resolve(self, t):
        while t.k == "named":
            if t.name not in self.types:
                raise IRError("opaque type " + t.name)
            t = self.types[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == "int":
            b = (t.n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k == "arr":
            return self.align(t.el)
        if t.k == "vec":
            return self.size(t)
        if t.k == "struct":
            if t.packed or not t.el:
                return 1
            return max(self.align(e) for e in t.el)
        raise IRError("align %r" % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == "int":
            a = self.align(t)
            b = (t.n + 7) // 8
            return (b + a - 1) // a * a
        if t.k in ("ptr", "double"):
            return 8
        if t.k == "float":
            return 4
        if t.k == "x86_fp80":
            return 16
        if t.k in ("arr", "vec"):
            return t.n * self.size(t.el)
        if t.k == "struct":
            o = 0
            for e in t.el:
                if not t.packed:
                    a = self.align(e)
                    o = (o + a - 1) // a * a
                o += self.size(e)
            if not t.packed:
                a = self.align(t)
                o = (o + a - 1) // a * a
            return o
        raise IRError("size %r" % t)

    def field(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, e in enumerate(t.el):
            if not t.packed:
                a = self.align(e)
                o = (o + a - 1) // a * a
            if j == i:
                return o, e
            o += self.size(e)
        raise IRError("field %d of %r" % (i, t))


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi",
         "fpext", "fptrunc", "addrspacecast"}


def strip_md(toks):
    """drop trailing ', !dbg !1, !tbaa !5, align 8' etc"""
    out, d = [], 0
    i = 0
    while i < len(toks):
        t = toks[i]
        if d == 0 and t == "," and i + 1 < len(toks) and toks[i + 1].startswith("!"):
            break
        if t in "([{<":
            d += 1
        elif t in ")]}>":
            d -= 1
        out.append(t)
        i += 1
    return out


def parse(text):
    m = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        s = ln.strip()
        if not s or s[0] in ";!" or s.startswith(("source_filename", "target ", "attributes", "$", "module asm")):
            continue
        if s.startswith("%") and " = type " in s:
            toks = tokenize(s)
            p = P(toks, m)
            nm = uq(p.next()); p.exp("="); p.exp("type")
            if p.peek() == "opaque":
                continue
            m.types[nm] = p.ty()
            continue
        if s.startswith("@"):
            am = re.match(r'@("[^"]*"|\S+) = .*\balias\b.*, ptr @("[^"]*"|\S+)$', s)
            if am:
                m.aliases[am.group(1).strip('"')] = am.group(2).strip('"')
                continue
            try:
                parse_global(m, s)
            except IRError:
                nm = uq(tokenize(s[:400].split("=")[0])[0])
                m.globals[nm] = (None, None, False)
            continue
        if s.startswith("declare"):
            f = parse_header(m, s, True)
            if f:
                m.funcs[f.name] = f
            continue
        if s.startswith("define"):
            body = []
            while lines[i].strip() != "}":
                body.append(lines[i])
                i += 1
            i += 1
            f = parse_header(m, s, False)
            f_body = body
            f.raw = f_body
            m.funcs[f.name] = f
            continue
        raise IRError("toplevel: " + s[:120])
    return m


def parse_global(m, s):
    toks = tokenize(s)
    p = P(strip_md(toks), m)
    nm = uq(p.next()); p.exp("=")
    const = False
    ext = False
    while True:
        t = p.peek()
        if t in ("private", "internal", "linkonce_odr", "weak_odr", "external", "dso_local", "unnamed_addr",
                 "local_unnamed_addr", "global", "constant", "hidden", "linkonce", "weak", "available_externally",
                 "thread_local", "appending", "common", "externally_initialized"):
            p.next()
            if t == "external":
                ext = True
            if t == "thread_local" and p.peek() == "(":
                p.next(); p.next(); p.exp(")")
            if t in ("global", "constant"):
                const = t == "constant"
                break
        elif t == "alias":
            p.next()
            ty = p.ty(); p.exp(",")
            pt = p.ty()
            v = p.val(pt)
            if v[0] == "glob":
                m.aliases[nm] = v[1]
            return
        else:
            raise IRError("global " + s[:100])
    ty = p.ty()
    init = None
    if not ext and p.peek() not in (None, ","):
        init = p.val(ty)
    m.globals[nm] = (ty, init, const)


def parse_header(m, s, decl):
    toks = tokenize(re.sub(r"\{\s*$", "", s) if not decl else s)
    p = P(toks, m)
    p.next()
    # skip linkage words until a type parses followed by @name
    while True:
        t = p.peek()
        if t in ("dso_local", "internal", "linkonce_odr", "weak_odr", "weak", "private", "hidden", "noundef", "zeroext",
                 "signext", "nonnull", "noalias", "fastcc", "available_externally", "external", "linkonce",
                 "unnamed_addr", "local_unnamed_addr", "dso_preemptable", "protected", "coldcc"):
            p.next()
        elif t in ("align", "dereferenceable", "dereferenceable_or_null"):
            p.attrs()
        else:
            break
    ret = p.ty()
    nm = uq(p.next())
    p.exp("(")
    params = []
    while not p.acc(")"):
        if p.acc("..."):
            continue
        t = p.ty()
        p.attrs()
        pn = None
        if p.peek() and p.peek()[0] == "%":
            pn = uq(p.next())
        params.append((t, pn))
        p.acc(",")
    return Func(nm, ret, params, decl)


def body_of(m, f):
    """parse body lazily"""
    if f.order or f.decl:
        return f
    # number of the entry block: implicit label
    cur = None
    cnt = sum(1 for _, pn in f.params if pn and pn.isdigit())
    lines = f.raw
    j = 0
    while j < len(lines):
        ln = lines[j]
        j += 1
        s = ln.strip()
        if not s or s.startswith(";"):
            continue
        mm = re.match(r'^("[^"]*"|[-\w.$]+):', s)
        if mm and not ln.startswith(" "):
            nm = mm.group(1).strip('"')
            cur = Block(nm)
            f.blocks[nm] = cur
            f.order.append(nm)
            continue
        if cur is None:
            # unnamed entry
            nm = str(cnt)
            cur = Block(nm)
            f.blocks[nm] = cur
            f.order.append(nm)
        if re.search(r"\bswitch\b", s) and "[" in s and "]" not in s.split("[", 1)[1]:
            while True:
                nx = lines[j].strip()
                j += 1
                s += " " + nx
                if nx.startswith("]"):
                    break
        cur.ins.append(parse_ins(m, s))
    return f


def parse_ins(m, s):
    toks = strip_md(tokenize(s))
    p = P(toks, m)
    res = None
    if toks[0][0] == "%" and len(toks) > 1 and toks[1] == "=":
        res = uq(p.next()); p.next()
    op = p.next()
    while op in CALL_WORDS:
        op = p.next()
    if op in BINOPS:
        fl = []
        while p.peek() in ("nuw", "nsw", "exact", "disjoint") or p.peek() in FMF:
            fl.append(p.next())
        t = p.ty(); a = p.val(t); p.exp(","); b = p.val(t)
        return Ins(op, res, t, [a, b], tuple(fl), line=s)
    if op in CASTS:
        fl = []
        while p.peek() in ("nneg", "nuw", "nsw"):
            fl.append(p.next())
        t = p.ty(); a = p.val(t); p.exp("to"); t2 = p.ty()
        return Ins(op, res, t2, [a], tuple(fl), x=t, line=s)
    if op in ("icmp", "fcmp"):
        while p.peek() in FMF:
            p.next()
        pred = p.next()
        t = p.ty(); a = p.val(t); p.exp(","); b = p.val(t)
        return Ins(op, res, t, [a, b], x=pred, line=s)
    if op == "fneg":
        while p.peek() in FMF:
            p.next()
        t = p.ty(); a = p.val(t)
        return Ins(op, res, t, [a], line=s)
    if op == "select":
        while p.peek() in FMF:
            p.next()
        ct = p.ty(); c = p.val(ct); p.exp(",")
        t = p.ty(); a = p.val(t); p.exp(",")
        t2 = p.ty(); b = p.val(t2)
        return Ins(op, res, t, [c, a, b], x=ct, line=s)
    if op == "phi":
        while p.peek() in FMF:
            p.next()
        t = p.ty()
        inc = []
        while True:
            p.exp("["); v = p.val(t); p.exp(","); l = uq(p.next()); p.exp("]")
            inc.append((v, l))
            if not p.acc(","):
                break
        return Ins(op, res, t, inc, line=s)
    if op == "br":
        if p.acc("label"):
            return Ins(op, None, None, [], x=uq(p.next()), line=s)
        t = p.ty(); c = p.val(t)
        p.exp(","); p.exp("label"); a = uq(p.next()); p.exp(","); p.exp("label"); b = uq(p.next())
        return Ins(op, None, None, [c], x=(a, b), line=s)
    if op == "switch":
        t = p.ty(); v = p.val(t); p.exp(","); p.exp("label"); d = uq(p.next()); p.exp("[")
        cs = []
        while not p.acc("]"):
            ct = p.ty(); cv = p.val(ct); p.exp(","); p.exp("label"); cs.append((cv[1], uq(p.next())))
        return Ins(op, None, t, [v], x=(d, cs), line=s)
    if op == "ret":
        if p.acc("void"):
            return Ins(op, None, VOID, [], line=s)
        t = p.ty()
        return Ins(op, None, t, [p.val(t)], line=s)
    if op == "unreachable":
        return Ins(op, None, None, [], line=s)
    if op == "alloca":
        p.acc("inalloca")
        t = p.ty()
        cntv = None
        if p.acc(","):
            if p.peek() != "align":
                ct = p.ty(); cntv = p.val(ct)
        return Ins(op, res, t, [cntv], line=s)
    if op == "load":
        p.acc("volatile")
        if p.peek() == "atomic":
            p.next()
        t = p.ty(); p.exp(","); pt = p.ty(); a = p.val(pt)
        return Ins(op, res, t, [a], line=s)
    if op == "store":
        p.acc("volatile")
        if p.peek() == "atomic":
            p.next()
        t = p.ty(); v = p.val(t); p.exp(","); pt = p.ty(); a = p.val(pt)
        return Ins(op, None, t, [v, a], line=s)
    if op == "getelementptr":
        p.acc("inbounds")
        bt = p.ty(); p.exp(",")
        ops = []
        while True:
            t = p.ty()
            ops.append((t, p.val(t)))
            if not p.acc(","):
                break
        return Ins(op, res, bt, ops, line=s)
    if op == "call":
        while p.peek() in FMF:
            p.next()
        while p.peek() in PARAM_ATTRS or p.peek() in ("align", "dereferenceable", "dereferenceable_or_null", "fastcc",
                                                      "nofpclass"):
            if p.peek() == "fastcc":
                p.next()
            else:
                p.attrs()
        t = p.ty()
        if p.peek() == "(":  # function type
            d = 0
            while True:
                x = p.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        break
        callee = p.val(PTR)
        p.exp("(")
        args = []
        while not p.acc(")"):
            at = p.ty()
            p.attrs()
            if at.k == "metadata":
                while p.peek() not in (",", ")"):
                    p.next()
                args.append((at, ("undef",)))
            else:
                args.append((at, p.val(at)))
            p.acc(",")
        return Ins(op, res, t, args, x=callee, line=s)
    if op == "extractvalue":
        t = p.ty(); v = p.val(t)
        idx = []
        while p.acc(","):
            idx.append(int(p.next()))
        return Ins(op, res, t, [v], x=idx, line=s)
    if op == "insertvalue":
        t = p.ty(); v = p.val(t); p.exp(","); et = p.ty(); e = p.val(et)
        idx = []
        while p.acc(","):
            idx.append(int(p.next()))
        return Ins(op, res, t, [v, (et, e)], x=idx, line=s)
    if op == "freeze":
        t = p.ty()
        return Ins(op, res, t, [p.val(t)], line=s)
    if op == "extractelement":
        t = p.ty(); v = p.val(t); p.exp(","); it = p.ty(); ix = p.val(it)
        return Ins(op, res, t, [v, ix], x=it, line=s)
    if op == "insertelement":
        t = p.ty(); v = p.val(t); p.exp(","); et = p.ty(); e = p.val(et); p.exp(","); it = p.ty(); ix = p.val(it)
        return Ins(op, res, t, [v, e, ix], x=(et, it), line=s)
    if op == "shufflevector":
        t = p.ty(); a = p.val(t); p.exp(","); t2 = p.ty(); b = p.val(t2); p.exp(","); mt = p.ty(); mk = p.val(mt)
        return Ins(op, res, t, [a, b], x=(mt, mk), line=s)
    return Ins("unsupported", res, None, [], x=op, line=s)
