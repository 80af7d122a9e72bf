import os
"""Deductive verifier: symbolic execution of LLVM IR with loop cutting at inductive invariants.

Every `vf_check`, every safety condition (bounds, division, shift range, signed overflow) and every
loop-invariant establishment / preservation is an obligation sent to an SMT solver.  Loops without a
concretely determined trip count are cut: state written by the body is havocked, invariants assumed,
body executed once, invariants re-established (Houdini removes candidates that are not inductive).
"""
import time, re, sys
import z3
from . import ir
from .theory import *

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ linear offsets
class Lin:
    """c + sum coef*atom   (atoms: z3 terms of index sort)"""
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=None):
        self.c, self.t = c, t or {}

    def add(self, o):
        t = dict(self.t)
        for k, (co, e) in o.t.items():
            n = t[k][0] + co if k in t else co
            if n == 0:
                t.pop(k, None)
            else:
                t[k] = (n, e)
        return Lin(self.c + o.c, t)

    def addc(self, c):
        return Lin(self.c + c, self.t)

    def mul(self, m):
        if m == 0:
            return Lin(0)
        return Lin(self.c * m, {k: (co * m, e) for k, (co, e) in self.t.items()})

    def const(self):
        return self.c if not self.t else None

    def key(self):
        return (self.c, tuple(sorted((k, co) for k, (co, _) in self.t.items())))

    def z(self, th):
        e = None
        for k in sorted(self.t):
            co, a = self.t[k]
            term = a if co == 1 else a * (z3.BitVecVal(co, 64) if th.kind == "bv" else co)
            e = term if e is None else e + term
        cc = z3.BitVecVal(self.c, 64) if th.kind == "bv" else z3.IntVal(self.c)
        if e is None:
            return cc
        return e if self.c == 0 else e + cc

    def divisible(self, u):
        return all(co % u == 0 for co, _ in self.t.values())

    def quo(self, u):
        """(quotient Lin, const remainder); needs divisible(u)"""
        r = self.c % u
        return Lin((self.c - r) // u, {k: (co // u, e) for k, (co, e) in self.t.items()}), r


def lin_of(e, th):
    if isinstance(e, int):
        return Lin(e)
    if isinstance(e, Lin):
        return e
    if th.kind == "int":
        if z3.is_int_value(e):
            return Lin(e.as_long())
        if z3.is_add(e):
            r = Lin(0)
            for c in e.children():
                r = r.add(lin_of(c, th))
            return r
        if z3.is_sub(e):
            ch = e.children()
            r = lin_of(ch[0], th)
            for c in ch[1:]:
                r = r.add(lin_of(c, th).mul(-1))
            return r
        if z3.is_mul(e) and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if z3.is_int_value(a):
                return lin_of(b, th).mul(a.as_long())
            if z3.is_int_value(b):
                return lin_of(a, th).mul(b.as_long())
    else:
        if z3.is_bv_value(e):
            v = e.as_long()
            return Lin(v - (1 << 64) if v >= 1 << 63 else v)
        if z3.is_app_of(e, z3.Z3_OP_BADD):
            r = Lin(0)
            for c in e.children():
                r = r.add(lin_of(c, th))
            return r
    return Lin(0, {e.get_id(): (1, e)})


def zlin(l, th):
    return l.z(th)


# ------------------------------------------------------------------ memory
class Region:
    N = 0

    def __init__(self, name, unit, dims=0):
        Region.N += 1
        self.id = Region.N
        self.name, self.unit, self.dims = name, unit, dims
        self.elem_range = {}    # (rem,w) -> (lo,hi)
        self.targets = {}       # rem -> list of regions pointers stored there may point to
        self.size = None        # static size in bytes (python int / z3) if known
        self.kind = "alloc"
        self.fields = set()     # (rem,w) seen
        self.site = None

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


class Ptr:
    __slots__ = ("r", "idx", "off")

    def __init__(self, r, idx=(), off=None):
        self.r, self.idx, self.off = r, idx, off if off is not None else Lin(0)

    def __repr__(self):
        return "Ptr(%r,%r,%s)" % (self.r, self.idx, self.off.key())


NULL = Ptr(None)


class FnPtr:
    def __init__(self, name):
        self.name = name


class PUnion:
    """guarded pointer alternatives [(cond, Ptr|FnPtr)]; conditions are exclusive & exhaustive under the path"""

    def __init__(self, alts):
        self.alts = alts


class Dbl:
    """double value.  Constant, or the (possibly rounded) quotient / image of integers; see dbl_* below."""

    def __init__(self, num, den=1, approx=False):
        self.num, self.den, self.approx = num, den, approx


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class DeadPtr:
    """a pointer written by an earlier iteration of a loop: must not be read"""
    def __repr__(self):
        return "deadptr"


DEADPTR = DeadPtr()


NOER = {}


class MBase:
    kind = "base"
    cnt = 0

    def __init__(self, region, tag):
        MBase.cnt += 1
        self.id = MBase.cnt
        self.region, self.tag = region, tag
        self.er = NOER


class MZero(MBase):
    kind = "zero"


class MConst(MBase):
    """constant global array: python list of values by unit index; fields by rem"""
    kind = "const"


class MStore(MBase):
    kind = "store"

    def __init__(self, region, prev, idx, off, w, val):
        super().__init__(region, "st")
        self.prev, self.idx, self.off, self.w, self.val = prev, idx, off, w, val


class MHavocF(MBase):
    """only fields rems havocked"""
    kind = "havocf"

    def __init__(self, region, prev, rems, base):
        super().__init__(region, "hv")
        self.prev, self.rems, self.base = prev, rems, base


class MFill(MBase):
    kind = "fill"

    def __init__(self, region, prev, idx, lo, n, byte):
        super().__init__(region, "fill")
        self.prev, self.idx, self.lo, self.n, self.byte = prev, idx, lo, n, byte


class MFillV(MBase):
    kind = "fillv"

    def __init__(self, region, prev, idx, lo, n, w, val):
        super().__init__(region, "fillv")
        self.prev, self.idx, self.lo, self.n, self.w, self.val = prev, idx, lo, n, w, val


class MCopy(MBase):
    kind = "copy"

    def __init__(self, region, prev, idx, lo, n, snode, sregion, sidx, slo):
        super().__init__(region, "copy")
        self.prev, self.idx, self.lo, self.n = prev, idx, lo, n
        self.snode, self.sregion, self.sidx, self.slo = snode, sregion, sidx, slo


class MRowConst(MBase):
    """every cell holds val"""
    kind = "rowconst"

    def __init__(self, region, val):
        super().__init__(region, "rk")
        self.val = val


class MRowZero(MBase):
    """size cells of rows lo..hi-1 (last row index) are zero"""
    kind = "rowzero"

    def __init__(self, region, prev, idx, lo, hi):
        super().__init__(region, "rz")
        self.prev, self.idx, self.lo, self.hi = prev, idx, lo, hi


class MRowCopy(MBase):
    """rows lo..hi-1 under the index prefix are the rows slo.. of a snapshot"""
    kind = "rowcopy"

    def __init__(self, region, prev, idx, lo, hi, snode, sregion, sidx, slo):
        super().__init__(region, "rc")
        self.prev, self.idx, self.lo, self.hi = prev, idx, lo, hi
        self.snode, self.sregion, self.sidx, self.slo = snode, sregion, sidx, slo


class MIte(MBase):
    kind = "ite"

    def __init__(self, region, cond, a, b):
        super().__init__(region, "ite")
        self.cond, self.a, self.b = cond, a, b


class State:
    __slots__ = ("g", "mem", "ov")

    def __init__(self, g=(), mem=None, ov=None):
        self.g, self.mem, self.ov = g, mem if mem is not None else {}, ov

    def copy(self):
        return State(self.g, dict(self.mem), self.ov)


class Forall:
    """forall k in index sort: fn(k)"""

    def __init__(self, fn, name="", args=1):
        self.fn, self.name, self.args, self.cache = fn, name, args, {}

    def at(self, key, *ts):
        if key not in self.cache:
            self.cache[key] = (self.fn(*ts), ts)   # ts: keeps the terms of the key alive
        return self.cache[key][0]


class Obl:
    def __init__(self, name, kind, status, t, solver, model=None, detail=""):
        self.name, self.kind, self.status, self.t, self.solver, self.model, self.detail = \
            name, kind, status, t, solver, model, detail


class PathEnd(Exception):
    pass


class Loop:
    def __init__(self, header):
        self.header, self.blocks, self.parent, self.latches = header, set(), None, []


def analyze(f):
    """loops, rpo"""
    succ = {b: [s for s in dict.fromkeys(f.blocks[b].succs())] for b in f.order}
    entry = f.order[0]
    post, seen = [], set()
    stack = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    num = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            nd = None
            for p in pred[b]:
                if p in idom:
                    if nd is None:
                        nd = p
                    else:
                        x, y = p, nd
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        nd = x
            if idom.get(b) != nd:
                idom[b] = nd
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise Unsupported("irreducible control flow in " + f.name)
                L = loops.setdefault(s, Loop(s))
                L.latches.append(b)
                L.blocks.add(s)
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        st.extend(pred[x])
    order = sorted(loops.values(), key=lambda L: len(L.blocks))
    for i, L in enumerate(order):
        for M in order[i + 1:]:
            if L.header in M.blocks and L is not M:
                L.parent = M
                break
    f.rpo, f.pred, f.succ, f.loops = rpo, pred, succ, loops
    # loop ordinal by rpo for stable keys
    for i, h in enumerate([b for b in rpo if b in loops]):
        loops[h].ord = i


class View:
    """what an invariant template may look at"""

    def __init__(self, eng, fname, loop, phis, state, entry, written, path):
        self.eng, self.fname, self.loop, self.phis, self.state, self.entry, self.written, self.path = \
            eng, fname, loop, phis, state, entry, written, path
        self.named = eng.named
        self.objs = eng.objs

    def ints(self):
        return [p for p in self.phis if p.ty.k == "int"]

    def rd(self, ptr, byteoff, w, entry=False, raw=False):
        st = self.entry if entry else self.state
        return self.eng.read(st, Ptr(ptr.r, ptr.idx, ptr.off.add(lin_of(byteoff, self.eng.th))), w)

    def rdp(self, ptr, byteoff, entry=False):
        st = self.entry if entry else self.state
        return self.eng.read(st, Ptr(ptr.r, ptr.idx, ptr.off.addc(byteoff)), 64, isptr=True)


class PhiInfo:
    def __init__(self, name, ty, init, cur):
        self.name, self.ty, self.init, self.cur = name, ty, init, cur


class Engine:
    def __init__(self, mod, theory="int", spec=None, timeout=20000, verbose=False):
        self.m = mod
        self.th = IntTh() if theory == "int" else BVTh()
        self.th.prover = self.quick
        self.spec = spec or {}
        if self.spec.get("ufmod"):
            self.th.ufmod = True
        self.timeout = timeout
        self.verbose = verbose
        self.obls = []
        self.facts = []          # z3 formulas (with guards)
        self.foralls = []        # (guard formula, Forall)
        self.silent = 0
        self.nocache = 0
        self.named = {}          # input scalars
        self.inputs = []         # ordered description for counterexample extraction
        self.objs = {}
        self.rowobjs = {}
        self.covers = []
        self.loop_depth = 0
        self.globregs = {}
        self.written = None      # set collector stack
        self.wstack = []
        self.callpath = []
        self.loopcache = {}
        self.rcache = {}
        self.used_contracts = set()
        self.used_externals = set()
        self.funcs_executed = set()
        self.quick_cache = {}
        self.stats = {"queries": 0, "solver_s": 0.0, "houdini_checks": 0, "loops": 0, "unrolled": 0, "cvc5": 0}
        self.loopinfo = []
        self.deadline = None
        self.triggers_cache = {}
        self.names_used = {}
        self.unroll = (spec or {}).get("unroll", 0)
        self.specfns = {}        # decl name -> unfold(args)->formula
        self.qsolver = None
        self.qpos = 0
        self.appcache = {}
        self.last_dbl_lemma = False
        self.ctx = []
        self.brlog = []
        self.cmplog = []
        self.unroll_known = {}
        self.havoc_mark = (0, 0)
        self.bounded = False
        self.cur_state = None
        self.throwcond = False
        self.ghost = {}

    # ---------------------------------------------------------------- facts / solving
    def guardz(self, st):
        return band(*st.g)

    def fact(self, st, f):
        if f is True:
            return
        g = self.guardz(st) if st is not None else True
        r = bimp(g, f)
        if r is not True:
            self.facts.append(zb(r))

    def forall_fact(self, st, fa):
        self.foralls.append((self.guardz(st) if st else True, fa))

    def mark(self):
        return (len(self.facts), len(self.foralls))

    def rollback(self, m):
        del self.facts[m[0]:]
        del self.foralls[m[1]:]

    def quick(self, goal):
        """cheap proof attempt under the current path and facts (used for wrap elimination)"""
        st = self.cur_state
        if st is None:
            return False
        s = z3.Solver()
        s.set("timeout", 400)
        goal = zb(goal)
        key = (goal.get_id(), tuple(x.get_id() for x in st.g if not isinstance(x, bool)), len(self.facts),
               self.facts[-1].get_id() if self.facts else 0)
        if key in self.quick_cache:
            return self.quick_cache[key][0]
        for x in self.th.range_facts:
            s.add(x)
        for x in self.facts:
            s.add(x)
        for x in st.g:
            s.add(zb(x))
        s.add(z3.Not(goal))
        t = time.time()
        r = s.check() == z3.unsat
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.quick_cache[key] = (r, goal, list(st.g))
        return r

    def apps(self, e):
        """uninterpreted applications (decl name -> list of app) in e, cached"""
        i = e.get_id()
        if i in self.appcache:
            return self.appcache[i][1]
        seen, out, st = set(), [], [e]
        while st:
            x = st.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            if z3.is_app(x):
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(x)
                st.extend(x.children())
        self.appcache[i] = (e, out)
        return out

    def fresh_index(self, nm):
        if self.th.kind == "int":
            return z3.Int(self.th.name(nm))
        return z3.BitVec(self.th.name(nm), 64)

    def triggers(self, fa):
        t = getattr(fa, "_trig", None)
        if t is not None:
            return t
        if fa.args == 2:
            return self.triggers2(fa)
        k0 = self.fresh_index("K")
        body = zb(fa.fn(k0))
        trig = []
        for a in self.apps(body):
            for p in range(a.num_args()):
                l = lin_of(a.arg(p), self.th)
                kk = [k for k, (co, e) in l.t.items() if e.eq(k0)]
                if kk and l.t[kk[0]][0] in (1, -1):
                    co = l.t[kk[0]][0]
                    rest = Lin(l.c, {k: v for k, v in l.t.items() if k != kk[0]})
                    if any(k0.get_id() in self._ids(e) for _, e in rest.t.values()):
                        continue
                    others = [(q, a.arg(q)) for q in range(a.num_args()) if q != p]
                    trig.append((a.decl().name(), p, co, rest))
        fa._trig = trig
        return trig

    def triggers2(self, fa):
        """applications that mention both bound variables, each as a whole argument up to sign and offset"""
        ks = [self.fresh_index("K"), self.fresh_index("K")]
        body = zb(fa.fn(*ks))
        trig = []
        fa.single = [[], []]    # applications mentioning one of the two: used in pairs when none mentions both
        for a in self.apps(body):
            m = [None, None]
            for p in range(a.num_args()):
                l = lin_of(a.arg(p), self.th)
                for b in (0, 1):
                    kk = [k for k, (co, e) in l.t.items() if e.eq(ks[b])]
                    if kk and l.t[kk[0]][0] in (1, -1) and m[b] is None:
                        rest = Lin(l.c, {k: v for k, v in l.t.items() if k != kk[0]})
                        if not any(x.get_id() in self._ids(e) for _, e in rest.t.values() for x in ks):
                            m[b] = (p, l.t[kk[0]][0], rest)
            if m[0] and m[1] and m[0][0] != m[1][0]:
                trig.append((a.decl().name(), m))
            else:
                for b in (0, 1):
                    if m[b] and not m[1 - b]:
                        fa.single[b].append((a.decl().name(),) + m[b])
        fa._trig = trig
        return trig

    def _ids(self, e):
        seen, st = set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            st.extend(x.children())
        return seen

    def assemble(self, goal, st, rounds=3, limit=600):
        """QF formula list: facts + negated goal + instantiated universals"""
        n0 = len(self.th.range_facts)
        fs = [zb(x) for x in st.g if x is not True] + list(self.facts)
        fs.append(z3.Not(zb(goal)))
        done = set()
        frontier = list(fs)
        insts = []
        used_apps = {}
        pairs = {}
        for rnd in range(rounds):
            byd = {}
            for f in frontier:
                for a in self.apps(f):
                    if a.get_id() not in used_apps:
                        used_apps[a.get_id()] = a
                        byd.setdefault(a.decl().name(), []).append(a)
            new = []
            for gi, (g, fa) in enumerate(self.foralls):
                if fa.args == 2:
                    if not self.triggers(fa) and fa.single[0] and fa.single[1]:
                        # every pair of known terms
                        ts = pairs.setdefault(gi, ({}, {}))
                        fresh = [{}, {}]
                        for b in (0, 1):
                            for dn, p, co, rest in fa.single[b]:
                                for a in byd.get(dn, []):
                                    t = lin_of(a.arg(p), self.th).add(rest.mul(-1)).mul(co)
                                    if t.key() not in ts[b]:
                                        ts[b][t.key()] = fresh[b][t.key()] = t
                        for k0, t0 in ts[0].items():
                            for k1, t1 in ts[1].items():
                                key = (gi, k0, k1)
                                if k0 not in fresh[0] and k1 not in fresh[1] or k0 == k1 or key in done:
                                    continue
                                if len(done) > limit:
                                    self.truncated = True
                                    continue
                                done.add(key)
                                b = bimp(g, fa.at(key[1:], zlin(t0, self.th), zlin(t1, self.th)))
                                if b is not True:
                                    new.append(zb(b))
                        continue
                    for dn, m in self.triggers(fa):
                        for a in byd.get(dn, []):
                            t = [lin_of(a.arg(p), self.th).add(rest.mul(-1)).mul(co) for p, co, rest in m]
                            key = (gi, t[0].key(), t[1].key())
                            if key in done:
                                continue
                            if len(done) > limit:
                                self.truncated = True
                                continue
                            done.add(key)
                            b = bimp(g, fa.at(key[1:], zlin(t[0], self.th), zlin(t[1], self.th)))
                            if b is not True:
                                new.append(zb(b))
                    continue
                for (dn, pos, co, rest) in self.triggers(fa):
                    for a in byd.get(dn, []):
                        t = lin_of(a.arg(pos), self.th).add(rest.mul(-1)).mul(co)
                        key = (gi, t.key())
                        if key in done:
                            continue
                        if len(done) > limit:
                            self.truncated = True
                            continue
                        done.add(key)
                        b = bimp(g, fa.at(key[1], zlin(t, self.th)))
                        if b is not True:
                            new.append(zb(b))
            for dn, unf in self.specfns.items():
                for a in byd.get(dn, []):
                    key = (dn, a.get_id())
                    if key in done:
                        continue
                    done.add(key)
                    r = unf(a)
                    if r is not None and r is not True:
                        new.append(zb(r))
                        if dn.startswith("cnt_"):   # one level: what an unfolding introduces is not unfolded again
                            for b in self.apps(zb(r)):
                                if b.decl().name() == dn and b.get_id() not in used_apps:
                                    done.add((dn, b.get_id()))
            if not new:
                break
            insts += new
            frontier = new
        fs = fs + insts
        return fs + (self.ranges(fs) if self.spec.get("relevant") else self.th.range_facts[:])

    def ranges(self, fs):
        """the facts of fresh values that concern the formulas (left out: values of passes undone, over constants of no formula)"""
        rel, out = set(), []
        for f in fs:
            rel |= self.consts(f)
        rest = [(k, f, self.consts(f)) for k, f in enumerate(self.th.range_facts)]
        while True:
            keep = []
            for k, f, c in rest:
                if c <= rel or (k not in self.th.arange and c & rel):
                    out.append(f)
                    rel |= c
                else:
                    keep.append((k, f, c))
            if len(keep) == len(rest):
                return out
            rest = keep

    def solve(self, goal, st, timeout=None, want_model=False):
        """('valid'|'invalid'|'unknown', solver, model)"""
        if goal is True:
            return "valid", "const", None
        if self.deadline and time.time() > self.deadline:
            return "unknown", "deadline", None
        timeout = timeout or self.timeout
        t0 = time.time()
        if self.spec.get("anf") and not isinstance(goal, bool):
            from . import anf
            if not hasattr(self, "anf"):
                self.anf = anf.Anf()
            r = anf.decide(goal, self.anf)
            self.stats["queries"] += 1
            self.stats["solver_s"] += time.time() - t0
            # without path conditions a non-constant ANF refutes the goal
            if r == "valid" or (r == "invalid" and not [g for g in st.g if g is not True]):
                return r, "anf", None
        self.truncated = False
        ta=time.time()
        fs = self.assemble(goal, st)
        self.ta=time.time()-ta; self.nfs=len(fs)
        if self.spec.get("slice") and len(fs) > 60:
            # first with only the facts about the goal's own constants (fewer facts: "valid" stands)
            gc = self.consts(goal)
            s = z3.Solver()
            s.set("timeout", self.spec["slice"])
            for f in fs:
                if self.consts(f) <= gc:
                    s.add(f)
            if s.check() == z3.unsat:
                self.stats["queries"] += 1
                self.stats["solver_s"] += time.time() - t0
                return "valid", "z3", None
        s = z3.SolverFor("QF_UFBV") if False else z3.Solver()
        s.set("timeout", timeout)
        for f in fs:
            s.add(f)
        r = s.check()
        self.stats["queries"] += 1
        res = {"unsat": "valid", "sat": "invalid"}.get(str(r), "unknown")
        solver = "z3"
        model = None
        if r == z3.sat:
            model = s.model()
        if r == z3.unknown and timeout >= 4000 and self.th.kind == "int":
            # second attempt: different arithmetic strategy
            s2 = z3.Solver()
            s2.set("timeout", timeout)
            s2.set("smt.arith.solver", 2)
            for f in fs:
                s2.add(f)
            r2 = s2.check()
            if r2 != z3.unknown:
                res = {"unsat": "valid", "sat": "invalid"}[str(r2)]
                model = s2.model() if r2 == z3.sat else None
                solver = "z3(arith2)"
        if res == "unknown" and timeout >= 4000:
            r3 = self.cvc5_check(fs, timeout)
            self.stats["cvc5"] += 1
            if r3 == "unsat":
                res, solver = "valid", "cvc5"
            elif r3 == "sat":
                res, solver = "invalid", "cvc5"
        self.stats["solver_s"] += time.time() - t0
        if (res == "unknown" or res == "invalid" and os.environ.get("VF_DUMPI")) and os.environ.get("VF_DUMPU"):
            self.nu = getattr(self, "nu", 0) + 1
            if self.nu <= 40:
                open("%s/unk%d.txt" % (os.environ["VF_DUMPU"], self.nu), "w").write("\n".join(str(z3.simplify(f)) for f in fs) + "\n----\n" + str(goal))
                open("%s/unk%d.smt2" % (os.environ["VF_DUMPU"], self.nu), "w").write("(set-logic ALL)\n" + s.to_smt2())
        if res == "invalid" and self.truncated:
            # not every universal was instantiated: the model refutes nothing
            res = "unknown"
        return res, solver, model

    def consts(self, f):
        """free constants of a formula"""
        if not hasattr(self, "_consts"):
            self._consts = {}
        if not z3.is_expr(f):
            return set()
        i = f.get_id()
        if i in self._consts:
            return self._consts[i][1]
        out, todo, seen = set(), [f], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                todo.extend(x.children())
        self._consts[i] = (f, out)
        return out

    def cvc5_check(self, fs, timeout):
        import subprocess, tempfile, os
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
            fh.write(txt)
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, fh.name], capture_output=True, text=True,
                               timeout=timeout / 1000 + 5)
            return p.stdout.strip().split("\n")[0]
        except Exception:
            return "unknown"
        finally:
            os.unlink(fh.name)

    def oblige(self, st, kind, name, goal, assume=True):
        goal = goal if not isinstance(goal, bool) else goal
        if goal is True:
            if not self.silent and kind not in ("bounds", "shift", "nsw"):
                self.obls.append(Obl(name, kind, "valid", 0.0, "simplifier"))
            elif not self.silent:
                self.obls.append(Obl(name, kind, "valid", 0.0, "simplifier"))
            return
        if not self.silent:
            t = time.time()
            res, solver, model = self.solve(goal, st)
            if self.verbose:
                print("   obl %-40s %-8s %.2fs %s" % (name, res, time.time() - t, solver), flush=True)
            self.obls.append(Obl(name, kind, res, time.time() - t, solver,
                                 self.extract(model) if model is not None else None,
                                 "" if res == "valid" else str(goal)[:2000]))
            self.lastmodel = model
            if res == "invalid" and model is not None and self.verbose > 2:
                open("/tmp/w/facts%d.txt" % len(self.obls), "w").write("\n----\n".join(str(z3.simplify(f))[:3000] for f in self.assemble(goal, st)))
                for d in sorted(model.decls(), key=str):
                    if d.arity() == 0 and not z3.is_array(model[d]):
                        print("     ", d, model[d])
        if assume:
            self.fact(st, goal)

    def extract(self, model):
        out = {}
        try:
            for kind, nm, x in self.inputs:
                if kind == "u":
                    if isinstance(x, int):
                        out[nm] = x
                    else:
                        v = model.eval(x, model_completion=True)
                        out[nm] = v.as_long()
                elif kind == "arr":
                    ptr, unit, n, w, st = x
                    nv = n if isinstance(n, int) else model.eval(n, model_completion=True).as_long()
                    nv = min(nv, 2000)
                    vals = []
                    for i in range(nv):
                        e = self.read(st, Ptr(ptr.r, ptr.idx, ptr.off.addc(i * unit)), w)
                        vals.append(e if isinstance(e, int) else model.eval(e, model_completion=True).as_long())
                    out[nm] = vals
        except Exception as ex:  # model extraction is best effort
            out["_error"] = repr(ex)
        return out

    # ---------------------------------------------------------------- value helpers
    def vite(self, c, a, b, ty):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, list):
            ts = self.elty(ty)
            return [self.vite(c, x, y, t) for x, y, t in zip(a, b, ts)]
        if isinstance(a, (Ptr, PUnion, FnPtr)):
            return self.pite(c, a, b)
        if isinstance(a, Dbl):
            if not isinstance(b, Dbl):
                raise Unsupported("double merge")
            if same(a.num, b.num) and same(a.den, b.den) and a.approx == b.approx:
                return a
            if isinstance(a.den, int) and isinstance(b.den, int) and a.den == b.den:
                return Dbl(z3.If(c, self.zi(a.num), self.zi(b.num)), a.den, a.approx or b.approx)
            raise Unsupported("double merge")
        if ty is not None and ty.k == "int" and ty.n == 1 or is_b(a) or is_b(b):
            if same(a, b):
                return a
            if a is True and b is False:
                return c
            if a is False and b is True:
                return bnot(c)
            if a is True:
                return bor(c, b)
            if a is False:
                return band(bnot(c), b)
            if b is True:
                return bor(bnot(c), a)
            if b is False:
                return band(c, a)
            return z3.If(c, zb(a), zb(b))
        return self.th.ite(c, a, b, ty.n if ty is not None and ty.k == "int" else self.wof(a, b))

    def zi(self, x):
        return z3.IntVal(x) if isinstance(x, int) else x

    def wof(self, *xs):
        for x in xs:
            if isinstance(x, z3.BitVecRef):
                return x.size()
        return 64

    def elty(self, ty):
        t = self.m.resolve(ty)
        if t.k == "struct":
            return t.el
        return [t.el] * t.n

    def pite(self, c, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.r is not None and len(a.idx) == len(b.idx) \
                and all(same(x, y) for x, y in zip(a.idx, b.idx)):
            if a.off.key() == b.off.key():
                return a
            u = a.r.unit
            if a.off.divisible(u) and b.off.divisible(u):
                qa, ra = a.off.quo(u)
                qb, rb = b.off.quo(u)
                if ra == rb:
                    e = z3.If(c, qa.z(self.th), qb.z(self.th))
                    return Ptr(a.r, a.idx, lin_of(e, self.th).mul(u).addc(ra))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.r is not None and len(a.idx) == len(b.idx) and \
                a.off.key() == b.off.key():
            return Ptr(a.r, tuple(z3.If(c, self.zi(x), self.zi(y)) if not same(x, y) else x
                                  for x, y in zip(a.idx, b.idx)), a.off)
        alts = []
        for cc, p in ((c, a), (bnot(c), b)):
            for (d, q) in (p.alts if isinstance(p, PUnion) else [(True, p)]):
                g = band(cc, d)
                for i, (g0, q0) in enumerate(alts):
                    if isinstance(q0, Ptr) and isinstance(q, Ptr) and q0.r is q.r and (q.r is None or (
                            q0.off.key() == q.off.key() and all(same(x, y) for x, y in zip(q0.idx, q.idx)))):
                        alts[i] = (bor(g0, g), q0)
                        break
                    if isinstance(q0, FnPtr) and isinstance(q, FnPtr) and q0.name == q.name:
                        alts[i] = (bor(g0, g), q0)
                        break
                else:
                    alts.append((g, q))
        if len(alts) == 1:
            return alts[0][1]
        return PUnion(alts)

    def alts(self, p):
        if isinstance(p, PUnion):
            return p.alts
        return [(True, p)]

    # ---------------------------------------------------------------- memory
    def new_region(self, st, name, unit, dims=0, zero=False, kind="alloc"):
        r = Region(name, unit, dims)
        r.kind = kind
        st.mem[r] = MZero(r, name) if zero else MBase(r, name)
        return r

    def note_write(self, r, rem, w, whole=False, off=None, t="i", idx=()):
        if off is not None and any(not isinstance(x, int) and not z3.is_int_value(x) for x in idx):
            off = None
        e = ("all",) if whole else (rem, w, off, t, idx if off is not None else ())
        for ws in self.wstack:
            ws.setdefault(r, set()).add(e)

    def fieldof(self, r, off):
        if not off.divisible(r.unit):
            raise Unsupported("access stride not a multiple of the element size in %r: %s unit %d" % (r, off.key(), r.unit))
        return off.quo(r.unit)

    def write(self, st, ptr, w, val):
        """w: bits; val: value or Ptr/..."""
        if isinstance(ptr, PUnion):
            for c, p in ptr.alts:
                if p is NULL or getattr(p, "r", None) is None:
                    continue
                old = self.read(st, p, w, isptr=isinstance(val, (Ptr, PUnion, FnPtr)), isdbl=isinstance(val, Dbl))
                self.write(st, p, w, self.vite(c, val, old, None))
            return
        if ptr.r is None:
            raise PathEnd("null write")
        r = ptr.r
        u = r.unit
        if w // 8 > u and not isinstance(val, (Ptr, PUnion, FnPtr, Dbl)):
            v = self.asint(val, w)
            for i in range(w // 8 // u):
                self.write(st, Ptr(r, ptr.idx, ptr.off.addc(i * u)), u * 8, self.th.trunc(self.th.lshr(v, 8 * u * i, w), w, u * 8))
            return
        q, rem = self.fieldof(r, ptr.off)
        if isinstance(val, (Ptr, PUnion)):
            tl = r.targets.setdefault(rem, [])
            for _, p in self.alts(val):
                if isinstance(p, Ptr) and p.r is not None and p.r not in tl:
                    tl.append(p.r)
        if getattr(r, "watchreg", None) is not None:
            self.watch_write(st, ptr, w, val)
        r.fields.add((rem, w))
        t = "p" if isinstance(val, (Ptr, PUnion, FnPtr)) else "d" if isinstance(val, Dbl) else "i"
        self.note_write(r, rem, w, off=ptr.off.const(), t=t, idx=ptr.idx)
        st.mem[r] = MStore(r, st.mem[r], ptr.idx, ptr.off, w, val)

    # ghost count: number of elements of a watched vector that equal eng.watch
    def watch_get(self, st, r, idx):
        return self.zi(self.read(st, Ptr(r.watchreg, idx, Lin(0)), 64))

    def watch_put(self, st, r, idx, v):
        if v is None:
            v = self.th.fresh("watch", 64)
            self.th.setr(v, 0, (1 << 62))
        else:
            v = self.th.setr(z3.simplify(v), 0, (1 << 62)) if not isinstance(v, int) else v
        self.write(st, Ptr(r.watchreg, idx, Lin(0)), 64, v)

    def watch_is(self, v, w):
        return z3.If(zb(self.zi(v) == self.zi(self.watch)), z3.IntVal(1), z3.IntVal(0))

    def watch_write(self, st, ptr, w, val):
        r = ptr.r
        if w != r.unit * 8 or isinstance(val, (Ptr, PUnion, FnPtr, Dbl)):
            return self.watch_put(st, r, ptr.idx, None)
        old = self.asint(self.read(st, ptr, w), w)
        self.watch_put(st, r, ptr.idx, self.watch_get(st, r, ptr.idx) + self.watch_is(self.asint(val, w), w) - self.watch_is(old, w))

    def watch_resize(self, st, ptr, n):
        r, idx = ptr.r, ptr.idx
        if isinstance(n, int) and n == 0:
            return self.watch_put(st, r, idx, 0)
        o = self.read(st, Ptr(r.sizereg, idx, Lin(0)), 64)
        dz = z3.simplify(self.zi(n) - self.zi(o))
        d = dz.as_long() if z3.is_int_value(dz) else None
        if d is None:
            for k in (1, 0, -1):
                if self.quick(dz == k):
                    d = k
                    break
        c = self.watch_get(st, r, idx)
        at = lambda k: self.asint(self.read(st, Ptr(r, idx, lin_of(self.th.index(k, 64), self.th).mul(r.unit)), r.unit * 8), r.unit * 8)
        if d == 0:
            return
        if d == 1:
            return self.watch_put(st, r, idx, c + self.watch_is(at(o), 64))
        if d == -1:
            return self.watch_put(st, r, idx, c - self.watch_is(at(n), 64))
        self.watch_put(st, r, idx, None)

    # prefix count: number of t in [0, k) with pred(element t); a function of the memory contents (integer theory)
    def pcount(self, st, r, idx, k, pred):
        """pred: (name, w, rem, fn(value)->formula); elements are r.unit bytes apart"""
        return self._pcount(st.mem[r], r, tuple(idx), self.zi(k) if not isinstance(k, Lin) else k.z(self.th), pred)

    def pis(self, pred, v):
        b = pred[3](self.zi(self.asint(v, pred[1])))
        return z3.If(zb(b), z3.IntVal(1), z3.IntVal(0)) if not isinstance(b, bool) else z3.IntVal(int(b))

    def _pelem(self, node, r, idx, t, pred):
        return self.rnode(node, r, idx, lin_of(t, self.th).mul(r.unit).addc(pred[2]), pred[1])

    def _pcount(self, node, r, idx, k, pred):
        mx = lambda a, b: z3.If(a >= b, a, b)
        mn = lambda a, b: z3.If(a <= b, a, b)
        while True:
            if node.kind == "store":
                q, rem = self.fieldof(r, node.off)
                if rem != pred[2] or node.w != pred[1]:
                    if rem + node.w // 8 <= pred[2] or rem >= pred[2] + pred[1] // 8:
                        node = node.prev
                        continue
                    raise Unsupported("count over a partially written element")
                c = self.idxcmp(node.idx, idx)
                if c is False:
                    node = node.prev
                    continue
                qz = q.z(self.th)
                d = self.pis(pred, node.val) - self.pis(pred, self._pelem(node.prev, r, idx, q, pred))
                return self._pcount(node.prev, r, idx, k, pred) + z3.If(z3.And(zb(c), qz >= 0, qz < k), d, z3.IntVal(0))
            if node.kind == "havocf":
                hit = any(x[0] == "all" or (x[0] == pred[2] and x[1] == pred[1]) for x in node.rems)
                node = node.base if hit else node.prev
                continue
            if node.kind in ("fill", "fillv", "copy"):
                c = self.idxcmp(node.idx, idx)
                if c is False:
                    node = node.prev
                    continue
                ok = lambda l: l.divisible(r.unit) and l.c % r.unit == 0
                nl = node.n if isinstance(node.n, Lin) else lin_of(node.n, self.th)
                if not ok(node.lo) or not ok(nl):
                    raise Unsupported("count over an unaligned bulk operation")
                lo, n = node.lo.quo(r.unit)[0].z(self.th), nl.quo(r.unit)[0].z(self.th)
                hi = lo + mx(n, z3.IntVal(0))
                P = lambda x: self._pcount(node.prev, r, idx, x, pred)
                if node.kind == "copy":
                    if node.sregion.unit != r.unit or not ok(node.slo):
                        raise Unsupported("count over a copy between element types")
                    so = node.slo.quo(r.unit)[0].z(self.th)
                    S = lambda x: self._pcount(node.snode, node.sregion, node.sidx, x, pred)
                    part = S(so + mn(k, hi) - lo) - S(so)
                else:
                    v = node.val if node.kind == "fillv" else self.filled(node.byte, pred[1], False, False)
                    part = (mn(k, hi) - lo) * self.pis(pred, v)
                return z3.If(z3.And(zb(c), k > lo), P(lo) + part + z3.If(k > hi, P(k) - P(hi), z3.IntVal(0)), P(k))
            if node.kind == "ite":
                return z3.If(zb(node.cond), self._pcount(node.a, r, idx, k, pred), self._pcount(node.b, r, idx, k, pred))
            if node.kind == "zero":
                return mx(k, z3.IntVal(0)) * self.pis(pred, self.filled(0, pred[1], False, False))
            if node.kind != "base":
                raise Unsupported("count over %s contents" % node.kind)
            nm = "cnt_%s_%d" % (pred[0], node.id)
            if nm not in self.specfns:
                def unf(a, node=node, r=r, pred=pred):
                    ix, kk = a.children()[:-1], a.children()[-1]
                    f = a.decl()
                    el = self._pelem(node, r, tuple(ix), z3.simplify(kk - 1), pred)
                    return z3.And(a >= 0, a <= mx(kk, z3.IntVal(0)),
                                  z3.Implies(kk > 0, a == f(*(list(ix) + [z3.simplify(kk - 1)])) + self.pis(pred, el)))
                self.specfns[nm] = unf
            f = z3.Function(nm, *([z3.IntSort()] * (len(idx) + 2)))
            return f(*([self.zi(x) for x in idx] + [z3.simplify(k)]))

    def offcmp(self, a, b):
        """condition off a == off b"""
        if a.key() == b.key():
            return True
        d = a.add(b.mul(-1))
        if not d.t:
            return d.c == 0
        if self.th.kind == "int":
            # exact divisibility
            from math import gcd
            g = 0
            for co, _ in d.t.values():
                g = gcd(g, abs(co))
            if g and d.c % g:
                return False
            if g > 1:
                d = Lin(d.c // g, {k: (co // g, e) for k, (co, e) in d.t.items()})
            return d.z(self.th) == 0
        if all(co % 2 == 0 for co, _ in d.t.values()):
            from math import gcd
            g = 0
            for co, _ in d.t.values():
                g = gcd(g, abs(co))
            g &= -g
            if d.c % g:
                return False
        # compare quotients if both divisible by a common unit
        return a.z(self.th) == b.z(self.th)

    def idxcmp(self, a, b):
        r = True
        for x, y in zip(a, b):
            if same(x, y):
                continue
            r = band(r, self.zi(x) == self.zi(y) if self.th.kind == "int" else self.th.cmp("eq", x, y, 64))
            if r is False:
                return False
        return r

    def read(self, st, ptr, w, isptr=False, isdbl=False):
        if isinstance(ptr, PUnion):
            res = None
            for c, p in reversed(ptr.alts):
                if getattr(p, "r", None) is None:
                    continue
                v = self.read(st, p, w, isptr, isdbl)
                res = v if res is None else self.vite(c, v, res, None)
            if res is None:
                raise PathEnd("null read")
            return res
        if ptr.r is None:
            raise PathEnd("null read")
        if not isinstance(ptr, Ptr):
            raise Unsupported("read through %r" % ptr)
        if ptr.r not in st.mem:
            if not hasattr(ptr.r, "node0"):
                raise Unsupported("region %r not in state" % ptr.r)
            st.mem[ptr.r] = ptr.r.node0
        u = ptr.r.unit
        if w // 8 > u and not isptr and not isdbl:
            v = 0
            for i in range(w // 8 // u):
                x = self.asint(self.read(st, Ptr(ptr.r, ptr.idx, ptr.off.addc(i * u)), u * 8), u * 8)
                v = self.th.or_(v, self.th.shl(self.th.zext(x, u * 8, w), 8 * u * i, w), w, True)
            return v
        return self.rnode(st.mem[ptr.r], ptr.r, ptr.idx, ptr.off, w, isptr, isdbl)

    def rnode(self, node, r, idx, off, w, isptr=False, isdbl=False):
        key = (node.id, tuple(x if isinstance(x, int) else ("z", x.get_id()) for x in idx), off.key(), w, isptr, isdbl)
        if key in self.rcache:
            return self.rcache[key][0]
        v = self._rnode(node, r, idx, off, w, isptr, isdbl)
        self.rcache[key] = (v, idx, off)
        return v

    def _rnode(self, node, r, idx, off, w, isptr, isdbl):
        th = self.th
        while True:
            if node.kind == "store":
                c = self.idxcmp(node.idx, idx)
                if c is False:
                    node = node.prev
                    continue
                if node.w == w:
                    # fields with different remainder never alias
                    if off.divisible(r.unit) and node.off.divisible(r.unit):
                        q1, r1 = off.quo(r.unit)
                        q2, r2 = node.off.quo(r.unit)
                        if r1 != r2:
                            node = node.prev
                            continue
                        c = band(c, self.offcmp(q1, q2))
                    else:
                        c = band(c, self.offcmp(off, node.off))
                    if c is True:
                        return self.coerce(node.val, w, isptr, isdbl)
                    if c is False:
                        node = node.prev
                        continue
                    prev = self.rnode(node.prev, r, idx, off, w, isptr, isdbl)
                    return self.vite(c, self.coerce(node.val, w, isptr, isdbl), prev, None)
                # different width
                d = off.add(node.off.mul(-1))
                if not d.t:
                    o = d.c
                    if o >= node.w // 8 or o + w // 8 <= 0:
                        node = node.prev
                        continue
                    if o >= 0 and o + w // 8 <= node.w // 8 and not isinstance(node.val, (Ptr, PUnion, FnPtr, Dbl)) and c is True:
                        val = self.asint(node.val, node.w)
                        return th.trunc(th.lshr(val, 8 * o, node.w), node.w, w)
                    if c is True and o <= 0 and w > node.w and -o + node.w // 8 <= w // 8 and not isptr:
                        # wider read over narrower store: compose
                        lo = self.asint(self.rnode(node.prev, r, idx, off, w), w)
                        sh = -o * 8
                        m = ((1 << node.w) - 1) << sh
                        keep = th.and_(lo, ((1 << w) - 1) & ~m, w)
                        return th.or_(keep, th.shl(th.zext(self.asint(node.val, node.w), node.w, w), sh, w), w)
                    raise Unsupported("partially overlapping access in %r" % r)
                from math import gcd
                g = 0
                for co, _ in d.t.values():
                    g = gcd(g, abs(co))
                if th.kind == "bv":
                    g &= -g
                o = d.c % g if g else d.c
                if o >= node.w // 8 and o + w // 8 <= g:
                    node = node.prev
                    continue
                if r.unit > 1 and off.divisible(r.unit) and node.off.divisible(r.unit):
                    r1, r2 = off.c % r.unit, node.off.c % r.unit
                    if r1 + w // 8 <= r2 or r2 + node.w // 8 <= r1:
                        node = node.prev
                        continue
                if c is True and th.kind == "bv" and node.w > w and r.size == node.w // 8 and not isptr and not isdbl \
                        and not isinstance(node.val, (Ptr, PUnion, FnPtr, Dbl)):
                    # the store fills the whole object: an in-bounds read is a part of it
                    sh = th.zext(d.z(th), 64, node.w) if node.w > 64 else th.trunc(d.z(th), 64, node.w)
                    return th.trunc(th.lshr(self.asint(node.val, node.w), th.mul(sh, 8, node.w), node.w), node.w, w)
                raise Unsupported("mixed-width symbolic access in %r (w%d vs w%d)" % (r, w, node.w))
            if node.kind == "ite":
                a = self.rnode(node.a, r, idx, off, w, isptr, isdbl)
                b = self.rnode(node.b, r, idx, off, w, isptr, isdbl)
                return self.vite(node.cond, a, b, None)
            if node.kind == "havocf":
                q, rem = self.fieldof(r, off)
                hit = None
                for x in node.rems:
                    if x[0] == "all":
                        hit = node.base
                    elif x[0] == rem and x[1] == w:
                        hit = node.base
                    elif not (x[0] + x[1] // 8 <= rem or rem + w // 8 <= x[0]):
                        raise Unsupported("havoc overlap")
                node = hit or node.prev
                continue
            if node.kind == "fill":
                c = band(self.idxcmp(node.idx, idx), self.inrange(off, w, node.lo, node.n))
                if c is False:
                    node = node.prev
                    continue
                v = self.filled(node.byte, w, isptr, isdbl)
                if c is True:
                    return v
                return self.vite(c, v, self.rnode(node.prev, r, idx, off, w, isptr, isdbl), None)
            if node.kind == "fillv":
                if w != node.w:
                    raise Unsupported("width mismatch with a filled range")
                c = band(self.idxcmp(node.idx, idx), self.inrange(off, w, node.lo, node.n))
                if c is False:
                    node = node.prev
                    continue
                v = self.coerce(node.val, w, isptr, isdbl)
                if c is True:
                    return v
                return self.vite(c, v, self.rnode(node.prev, r, idx, off, w, isptr, isdbl), None)
            if node.kind == "copy":
                c = band(self.idxcmp(node.idx, idx), self.inrange(off, w, node.lo, node.n))
                if c is False:
                    node = node.prev
                    continue
                so = off.add(node.lo.mul(-1)).add(node.slo)
                v = self.rnode(node.snode, node.sregion, node.sidx, so, w, isptr, isdbl)
                if c is True:
                    return v
                return self.vite(c, v, self.rnode(node.prev, r, idx, off, w, isptr, isdbl), None)
            if node.kind == "rowconst":
                return self.coerce(node.val, w, isptr, isdbl)
            if node.kind in ("rowzero", "rowcopy"):
                d = len(node.idx)
                if len(idx) <= d:
                    raise Unsupported("row operation on a container without rows")
                lo, hi = node.lo, node.hi
                x = idx[d]
                if all(isinstance(y, int) for y in (x, lo, hi)):
                    c = lo <= x < hi
                else:
                    xz = self.ixz(x)
                    c = z3.And(xz >= lo, xz < hi) if th.kind == "int" else z3.And(z3.UGE(xz, lo), z3.ULT(xz, hi))
                c = band(self.idxcmp(node.idx, idx[:d]), c)
                if c is False:
                    node = node.prev
                    continue
                if node.kind == "rowzero":
                    v = 0
                else:
                    if isinstance(x, int) and isinstance(lo, int) and isinstance(node.slo, int):
                        y = x - lo + node.slo
                    elif same(lo, node.slo) or (isinstance(lo, int) and lo == node.slo):
                        y = x
                    else:
                        y = z3.simplify(self.ixz(x) - self.ixz(lo) + self.ixz(node.slo))
                    v = self.rnode(node.snode, node.sregion, node.sidx + (y,) + tuple(idx[d + 1:]), off, w, isptr, isdbl)
                if c is True:
                    return v
                return self.vite(c, v, self.rnode(node.prev, r, idx, off, w, isptr, isdbl), None)
            if node.kind == "zero":
                if isptr and getattr(r, "rowfam", None):
                    q, rem = self.fieldof(r, off)
                    if rem in r.rowfam:
                        return Ptr(r.rowfam[rem], tuple(idx) + (q.const() if q.const() is not None else q.z(th),), Lin(0))
                return self.filled(0, w, isptr, isdbl)
            if node.kind == "const":
                return self.constread(node, r, off, w, isptr, isdbl)
            # base
            return self.baseread(node, r, idx, off, w, isptr, isdbl)

    def filled(self, byte, w, isptr, isdbl):
        if isptr:
            return NULL
        if isdbl:
            return Dbl(0)
        b = byte
        if isinstance(b, int):
            v = 0
            for i in range(w // 8):
                v |= b << (8 * i)
            return v
        if w == 8:
            return b
        raise Unsupported("symbolic fill of wide elements")

    def ixz(self, x):
        if isinstance(x, int):
            return z3.IntVal(x) if self.th.kind == "int" else z3.BitVecVal(x, 64)
        return x

    def inrange(self, off, w, lo, n):
        d = off.add(lo.mul(-1))
        nl = n if isinstance(n, Lin) else lin_of(n, self.th)
        if d.const() is not None and nl.const() is not None:
            if d.c >= 0 and d.c + w // 8 <= nl.c:
                return True
            if d.c + w // 8 <= 0 or d.c >= nl.c:
                return False
            raise Unsupported("partial overlap of bulk operation")
        # divide by common unit for nicer formulas
        u = w // 8
        while u > 1 and not (d.divisible(u) and d.c % u == 0 and nl.divisible(u) and nl.c % u == 0):
            u //= 2
        if u > 1:
            d, _ = d.quo(u)
            nl, _ = nl.quo(u)
        dz, nz = d.z(self.th), nl.z(self.th)
        if self.th.kind == "int":
            return z3.And(dz >= 0, dz < nz)
        return z3.And(dz >= 0, z3.ULT(dz, nz))

    def constread(self, node, r, off, w, isptr, isdbl):
        q, rem = self.fieldof(r, off)
        vals = node.tag_vals
        if q.const() is not None:
            return self.constelem(node, r, q.c, rem, w, isptr, isdbl)
        n = len(vals)
        if n > 512:
            # uninterpreted with table facts is too large: give the range only
            raise Unsupported("symbolic index into a large constant table")
        e = self.constelem(node, r, n - 1, rem, w, isptr, isdbl)
        qz = q.z(self.th)
        for i in range(n - 2, -1, -1):
            e = self.vite(qz == i, self.constelem(node, r, i, rem, w, isptr, isdbl), e, None)
        return e

    def constelem(self, node, r, i, rem, w, isptr, isdbl):
        vals = node.tag_vals
        if i < 0 or i >= len(vals):
            return self.filled(0, w, isptr, isdbl)
        v = vals[i].get((rem, w))
        if v is None:
            return self.filled(0, w, isptr, isdbl)
        return self.coerce(v, w, isptr, isdbl)

    def asint(self, v, w):
        if is_b(v):
            return self.th.b2v(v, w)
        if v is UNDEF:
            return self.th.fresh("undef", w)
        return v

    def coerce(self, v, w, isptr, isdbl):
        if v is DEADPTR:
            raise Unsupported("pointer cell rewritten in a loop")
        if v is UNDEF:
            if isptr:
                return NULL
            if isdbl:
                return Dbl(0)
            return self.th.fresh("undef", w)
        if isptr:
            if isinstance(v, (Ptr, PUnion, FnPtr)):
                return v
            if isinstance(v, int) and v == 0:
                return NULL
            raise Unsupported("integer read as pointer")
        if isdbl:
            if isinstance(v, Dbl):
                return v
            if isinstance(v, int) and v == 0:
                return Dbl(0)
            raise Unsupported("integer read as double")
        if isinstance(v, (Ptr, PUnion, FnPtr)):
            raise Unsupported("pointer read as integer")
        if isinstance(v, Dbl):
            raise Unsupported("double read as integer")
        return self.asint(v, w)

    def baseread(self, node, r, idx, off, w, isptr, isdbl):
        th = self.th
        q, rem = self.fieldof(r, off)
        if isdbl:
            raise Unsupported("double from havocked memory")
        args = [x if not isinstance(x, int) else (z3.IntVal(x) if th.kind == "int" else z3.BitVecVal(x, 64)) for x in idx]
        single = r.dims == 0 and r.size is not None and isinstance(r.size, int) and r.size <= r.unit
        if not hasattr(node, "fname"):
            node.fname = re.sub(r"\W", "_", r.name)
        nm = "m_%s_%d_%d_%d" % (node.fname, node.id, rem, w)
        isort = th.idxsort()
        if isptr:
            if getattr(r, "rowfam", None) and rem in r.rowfam:
                return Ptr(r.rowfam[rem], tuple(idx) + (q.const() if q.const() is not None else q.z(th),), Lin(0))
            tl = r.targets.get(rem)
            if not tl:
                raise Unsupported("pointer loaded from memory with unknown target (%r+%d)" % (r, rem))
            if len(tl) > 1:
                raise Unsupported("pointer with several possible targets after havoc")
            t = tl[0]
            if False:
                # row of an input nested container: row id = (outer idx..., q)
                return Ptr(t, tuple(idx) + (q.const() if q.const() is not None else q.z(th),), Lin(0))
            qa = args + [q.z(th)]
            comps = []
            for d in range(t.dims):
                f = z3.Function(nm + "_i%d" % d, *([isort] * len(qa)), isort)
                comps.append(f(*qa))
            fo = z3.Function(nm + "_o", *([isort] * len(qa)), isort)
            if t.kind == "heap0" or getattr(t, "startonly", False):
                return Ptr(t, tuple(comps), Lin(0))
            return Ptr(t, tuple(comps), lin_of(fo(*qa), th).mul(t.unit))
        f = z3.Function(nm, *([isort] * (len(args) + 1)), th.sort(w))
        e = f(*(args + [q.z(th)]))
        lo, hi = node.er.get((rem, w), (0, None))
        th.app_range(e, w, lo, hi)
        r.fields.add((rem, w))
        return e

    # size pseudo-field
    def get_size(self, st, ptr):
        r = ptr.r
        if r.size is not None:
            return r.size
        srs = getattr(r, "sizereg", None)
        if srs is None:
            return None
        return lin_of(self.th.index(self.read(st, Ptr(srs, ptr.idx, Lin(0)), 64), 64), self.th).mul(r.unit)

    def bounds(self, st, ptr, nbytes, what):
        for c, p in self.alts(ptr):
            if isinstance(p, FnPtr):
                raise Unsupported("access through function pointer")
            if p.r is None:
                self.oblige(st, "bounds", what + " non-null", bnot(c))
                continue
            if p.r.kind in ("stack", "global") and p.off.const() is not None and isinstance(p.r.size, int):
                if not (0 <= p.off.c and p.off.c + nbytes <= p.r.size):
                    self.oblige(st, "bounds", what, bnot(c))
                continue
            sz = self.get_size(st, p)
            if sz is None:
                continue
            l, szl = p.off, lin_of(sz, self.th)
            u = nbytes
            while u > 1 and not (l.divisible(u) and l.c % u == 0 and szl.divisible(u) and szl.c % u == 0):
                u //= 2
            if u > 1:
                l, _ = l.quo(u)
                szl, _ = szl.quo(u)
            nb = nbytes // u
            if l.const() is not None and szl.const() is not None:
                ok = 0 <= l.c and l.c + nb <= szl.c
                if ok:
                    continue
                self.oblige(st, "bounds", what, bnot(c))
                continue
            if self.th.kind == "int":
                g = z3.And(l.z(self.th) >= 0, l.z(self.th) + nb <= szl.z(self.th))
            else:
                lz = l.z(self.th)
                g = z3.And(z3.ULT(lz, szl.z(self.th)), z3.ULE(lz + (nb - 1), szl.z(self.th) - 1))
            self.oblige(st, "bounds", what, bimp(c, g))

    # ---------------------------------------------------------------- execution
    def run_harness(self, fname):
        f = self.m.funcs[fname]
        st = State()
        self.cur_state = st
        self.harness = fname
        rv, st2 = self.call(f, [], st)
        return st2

    def merge(self, states):
        """[(state)] -> merged state, with list of (cond) selecting each"""
        if len(states) == 1:
            return states[0].copy(), [True]
        # common prefix of guards
        gs = [s.g for s in states]
        p = 0
        while all(len(g) > p for g in gs) and all(same(g[p], gs[0][p]) for g in gs):
            p += 1
        rests = [band(*g[p:]) for g in gs]
        pre = tuple(gs[0][:p])
        # complementary literals collapse
        tot = self.simp_or([g[p:] for g in gs])
        g = pre if tot is True else pre + (tot,)
        mem = {}
        regs = {}
        for s in states:
            regs.update(dict.fromkeys(s.mem))
        for r in regs:
            nodes = [s.mem.get(r) for s in states]
            have = [(i, n) for i, n in enumerate(nodes) if n is not None]
            if all(n is have[0][1] for _, n in have):
                mem[r] = have[0][1]
                continue
            node = have[-1][1]
            for i, n in reversed(have[:-1]):
                if n is not node:
                    node = MIte(r, rests[i], n, node)
            mem[r] = node
        return State(g, mem), rests

    def simp_or(self, tails):
        ts = [list(t) for t in tails]
        ch = True
        while ch:
            ch = False
            for i in range(len(ts)):
                for j in range(i + 1, len(ts)):
                    a, b = ts[i], ts[j]
                    if len(a) == len(b) and a and all(same(x, y) for x, y in zip(a[:-1], b[:-1])) and \
                            self.compl(a[-1], b[-1]):
                        ts[i] = a[:-1]
                        del ts[j]
                        ch = True
                        break
                if ch:
                    break
        if any(not t for t in ts):
            return True
        return bor(*[band(*t) for t in ts])

    def compl(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            return False
        return (z3.is_not(a) and a.arg(0).eq(b)) or (z3.is_not(b) and b.arg(0).eq(a))

    def call(self, f, args, st):
        ir.body_of(self.m, f)
        if not hasattr(f, "rpo"):
            analyze(f)
        if self.callpath.count(f.name) > 3:
            raise Unsupported("recursion in " + f.name)
        self.funcs_executed.add(f.name)
        self.callpath.append(f.name)
        env = {}
        for (t, pn), a in zip(f.params, args):
            env[pn] = a
        fr = Frame(f, env)
        entry = f.order[0]
        try:
            back, exits = self.region(fr, f.rpo, entry, [(None, st)], None)
        finally:
            self.callpath.pop()
        rets = fr.rets
        if not rets:
            return None, None
        states = [s for s, _ in rets]
        m, conds = self.merge(states)
        rv = None
        if f.ret.k != "void":
            rv = rets[-1][1]
            for (s, v), c in list(zip(rets, conds))[-2::-1]:
                rv = self.vite(c, v, rv, f.ret)
        return rv, m

    def region(self, fr, blocks, header, incoming, loop):
        """execute the blocks (rpo) of a function or loop body. incoming: [(pred, state)] for header;
        when header phis are already set in env pass pred None."""
        f = fr.f
        edges = {}
        back, exits = [], []
        inl = loop.blocks if loop else None
        skip = set()

        def out(src, dst, s):
            if s is None or any(x is False for x in s.g):
                return
            if loop is not None and dst == loop.header:
                back.append((src, s))
            elif loop is not None and dst not in loop.blocks:
                exits.append((src, dst, s))
            else:
                edges.setdefault(dst, []).append((src, s))
        for b in blocks:
            if loop is not None and b not in loop.blocks:
                continue
            if b in skip:
                continue
            if b == header:
                inc = incoming
            else:
                inc = edges.get(b, [])
            if not inc:
                continue
            if b in f.loops and not (loop is not None and b == loop.header):
                L = f.loops[b]
                for x in L.blocks:
                    skip.add(x)
                for (src, dst, s) in self.loop(fr, L, inc):
                    out(src, dst, s)
                continue
            st, conds = self.merge([s for _, s in inc])
            if inc[0][0] is not None:
                self.phis(fr, b, inc, conds)
            st.ov = None
            self.cur_state = st
            try:
                self.block(fr, b, st, out)
            except PathEnd as e:
                pass
        return back, exits

    def phis(self, fr, b, inc, conds):
        vals = {}
        for ins in fr.f.blocks[b].ins:
            if ins.op != "phi":
                break
            v = None
            lab = {l: x for x, l in ins.a}
            first = True
            for (src, s), c in list(zip(inc, conds))[::-1]:
                x = self.edgeval(fr, lab[src], ins.ty, s)
                v = x if first else self.vite(c, x, v, ins.ty)
                first = False
            vals[ins.res] = v
        fr.env.update(vals)

    def edgeval(self, fr, o, ty, s):
        if o[0] == "reg" and s.ov is not None and o[1] in s.ov:
            return s.ov[o[1]]
        return self.val(fr, o, ty)

    def pretty(self, fname):
        d = demangle(fname)
        return d.split("(")[0] if len(d) > 80 else d

    def block(self, fr, b, st, out):
        f = fr.f
        for ins in f.blocks[b].ins:
            op = ins.op
            if op == "phi":
                continue
            if op == "br":
                if not ins.a:
                    out(b, ins.x, st)
                else:
                    c = self.val(fr, ins.a[0], ir.Ty("int", 1))
                    for bl in self.brlog:
                        bl.setdefault((f.name, b), []).append(c)
                    if ins.x[0] == ins.x[1]:
                        out(b, ins.x[0], st)
                    elif c is True:
                        out(b, ins.x[0], st)
                    elif c is False:
                        out(b, ins.x[1], st)
                    else:
                        if c is UNDEF:
                            c = z3.Bool(self.th.name("undefb"))
                        known = self.known(st, c)
                        if known is True:
                            out(b, ins.x[0], st)
                        elif known is False:
                            out(b, ins.x[1], st)
                        else:
                            s1, s2 = st.copy(), st.copy()
                            s1.g = st.g + (c,)
                            s2.g = st.g + (bnot(c),)
                            out(b, ins.x[0], s1)
                            out(b, ins.x[1], s2)
                return
            if op == "switch":
                v = self.val(fr, ins.a[0], ins.ty)
                d, cases = ins.x
                rest = st
                neg = []
                targets = {}
                for cv, l in cases:
                    c = self.th.cmp("eq", v, cv % (1 << ins.ty.n), ins.ty.n)
                    targets.setdefault(l, []).append(c)
                    neg.append(bnot(c))
                for l, cs in targets.items():
                    c = bor(*cs)
                    if c is False:
                        continue
                    if l == d:
                        continue
                    s1 = st.copy()
                    s1.g = st.g + ((c,) if c is not True else ())
                    out(b, l, s1)
                c = band(*[n for (cv, l), n in zip(cases, neg) if l != d])
                if c is not False:
                    s1 = st.copy()
                    s1.g = st.g + ((c,) if c is not True else ())
                    out(b, d, s1)
                return
            if op == "ret":
                v = self.val(fr, ins.a[0], ins.ty) if ins.a else None
                fr.rets.append((st, v))
                return
            if op == "unreachable":
                return
            self.cur_state = st
            r = self.ins(fr, ins, st)
            if r is DEAD:
                return
            if isinstance(r, State):  # call replaced the state
                st = r
                self.cur_state = st

    def known(self, st, c):
        for x in st.g:
            if same(x, c):
                return True
            if self.compl(x, c):
                return False
        return None

    # ---------------------------------------------------------------- operand values
    def val(self, fr, o, ty):
        k = o[0]
        if k == "reg":
            if o[1] not in fr.env:
                raise Unsupported("use of unset %%%s in %s" % (o[1], fr.f.name))
            return fr.env[o[1]]
        if k == "int":
            if ty.k == "int" and ty.n == 1:
                return bool(o[1] & 1)
            return o[1] % (1 << ty.n)
        if k == "null":
            return NULL
        if k == "undef":
            t = self.m.resolve(ty)
            if t.k in ("struct", "arr", "vec"):
                return [self.val(fr, o, e) for e in self.elty(t)]
            return UNDEF
        if k == "zero":
            return self.zero(ty)
        if k == "glob":
            return self.globptr(o[1])
        if k == "agg":
            return [self.val(fr, v, t) for t, v in o[1]]
        if k == "fp":
            return self.fpconst(o[1], ty)
        if k == "cgep":
            base = self.val(fr, o[2][0][1], o[2][0][0])
            return self.gep(fr, base, o[1], o[2][1:])
        if k == "ccast":
            v = self.val(fr, o[3], o[2])
            if o[1] in ("bitcast", "addrspacecast") and o[4].k == "ptr":
                return v
            if o[1] == "inttoptr" and isinstance(v, int) and v == 0:
                return NULL
            raise Unsupported("constant cast")
        raise Unsupported("operand %r" % (o,))

    def fpconst(self, t, ty):
        from fractions import Fraction
        import struct
        if t.startswith("0x"):
            bits = int(t[2:], 16) if re.fullmatch(r"0x[0-9A-Fa-f]+", t) else None
            if bits is None:
                raise Unsupported("fp const")
            d = struct.unpack("<d", struct.pack("<Q", bits))[0]
        else:
            d = float(t)
        if d != d or d in (float("inf"), float("-inf")):
            raise Unsupported("fp inf/nan const")
        fr = Fraction(d)
        return Dbl(fr.numerator, fr.denominator)

    def zero(self, ty):
        t = self.m.resolve(ty)
        if t.k == "int":
            return False if t.n == 1 else 0
        if t.k == "ptr":
            return NULL
        if t.k in ("double", "float"):
            return Dbl(0)
        return [self.zero(e) for e in self.elty(t)]

    def globptr(self, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs:
            return FnPtr(name)
        if name in self.globregs:
            return Ptr(self.globregs[name])
        if name not in self.m.globals:
            raise Unsupported("global " + name)
        ty, init, const = self.m.globals[name]
        unit = self.unit_of(ty) if ty is not None else 1
        r = Region("g_" + name, unit)
        r.kind = "global"
        r.gname = name
        self.globregs[name] = r
        if ty is not None:
            r.size = self.m.size(ty)
        if init is not None and const:
            node = MConst(r, name)
            cells = {}
            self.flat(ty, init, 0, cells)
            n = (r.size + unit - 1) // unit if unit else 0
            vals = [dict() for _ in range(n)]
            for (o, w), v in cells.items():
                vals[o // unit][(o % unit, w)] = v
            node.tag_vals = vals
        else:
            node = MBase(r, name)
        r.node0 = node
        return Ptr(r)

    def flat(self, ty, v, off, cells):
        t = self.m.resolve(ty)
        if v[0] == "undef":
            return
        if t.k in ("struct",):
            for i, e in enumerate(t.el):
                o, _ = self.m.field(t, i)
                self.flat(e, v if v[0] == "zero" else v[1][i][1], off + o, cells)
        elif t.k in ("arr", "vec"):
            es = self.m.size(t.el)
            if v[0] == "zero" and t.n > 2048:
                return
            for i in range(t.n):
                self.flat(t.el, v if v[0] == "zero" else v[1][i][1], off + i * es, cells)
        elif t.k == "int":
            cells[(off, self.m.size(t) * 8)] = 0 if v[0] == "zero" else v[1] % (1 << max(8, t.n))
        elif t.k == "ptr":
            if v[0] in ("zero", "null"):
                cells[(off, 64)] = NULL
            else:
                try:
                    cells[(off, 64)] = self.val(None, v, ir.PTR)
                except Unsupported:
                    cells[(off, 64)] = UNDEF
        elif t.k == "double":
            cells[(off, 64)] = Dbl(0) if v[0] == "zero" else self.fpconst(v[1], t)
        elif t.k == "float":
            cells[(off, 32)] = Dbl(0) if v[0] == "zero" else self.fpconst(v[1], t)

    def unit_of(self, ty):
        """array element size if the type is/contains an array, else its size"""
        t = self.m.resolve(ty)
        if t.k == "arr":
            e = self.m.resolve(t.el)
            return self.unit_of(e) if e.k in ("arr",) or self.has_arr(e) else max(1, self.m.size(e))
        if self.has_arr(t):
            from math import gcd
            us = []
            self.arr_units(t, us)
            g = 0
            for u in us:
                g = gcd(g, u)
            return max(1, g)
        return max(1, self.m.size(t))

    def has_arr(self, t):
        t = self.m.resolve(t)
        if t.k == "arr":
            return t.n > 1
        if t.k == "struct":
            return any(self.has_arr(e) for e in t.el if not self.pad(e))
        return False

    def pad(self, t):
        """explicit padding"""
        t = self.m.resolve(t)
        return t.k == "arr" and t.n < 8 and self.m.resolve(t.el).k == "int" and self.m.resolve(t.el).n == 8

    def arr_units(self, t, us):
        t = self.m.resolve(t)
        if t.k == "arr":
            us.append(self.unit_of(t))
        elif t.k == "struct":
            for e in t.el:
                if not self.pad(e):
                    self.arr_units(e, us)

    # ---------------------------------------------------------------- gep
    def gep(self, fr, base, bty, ops):
        off = Lin(0)
        t = bty
        first = True
        for ty, o in ops:
            v = self.val(fr, o, ty)
            if first:
                off = off.add((v.l if isinstance(v, PDiff) else lin_of(self.th.index(v, ty.n), self.th)).mul(self.m.size(t)))
                first = False
                continue
            rt = self.m.resolve(t)
            if rt.k == "struct":
                o2, t = self.m.field(rt, v)
                off = off.addc(o2)
            else:
                t = rt.el
                off = off.add((v.l if isinstance(v, PDiff) else lin_of(self.th.index(v, ty.n), self.th)).mul(self.m.size(t)))
        return self.padd(base, off)

    def padd(self, p, off):
        if isinstance(p, PUnion):
            return PUnion([(c, self.padd(q, off)) for c, q in p.alts])
        if p is UNDEF:
            return UNDEF
        if isinstance(p, FnPtr):
            raise Unsupported("gep on function")
        if p.r is None:
            if off.const() == 0:
                return p
            return Ptr(None, (), p.off.add(off))
        return Ptr(p.r, p.idx, p.off.add(off))

    # ---------------------------------------------------------------- instructions
    def ins(self, fr, ins, st):
        op, th, env = ins.op, self.th, fr.env
        if op in ir.BINOPS:
            a, b = self.val(fr, ins.a[0], ins.ty), self.val(fr, ins.a[1], ins.ty)
            env[ins.res] = self.binop(st, ins, op, a, b, ins.ty)
            return
        if op == "icmp":
            a, b = self.val(fr, ins.a[0], ins.ty), self.val(fr, ins.a[1], ins.ty)
            env[ins.res] = self.icmp(ins.x, a, b, ins.ty)
            return
        if op in ir.CASTS:
            a = self.val(fr, ins.a[0], ins.x)
            env[ins.res] = self.cast(st, op, a, ins.x, ins.ty, ins.flags)
            return
        if op == "select":
            c = self.val(fr, ins.a[0], ins.x)
            a, b = self.val(fr, ins.a[1], ins.ty), self.val(fr, ins.a[2], ins.ty)
            if isinstance(c, list):
                env[ins.res] = [self.vite(x, y, z, ins.ty.el) for x, y, z in zip(c, a, b)]
            else:
                if c is UNDEF:
                    c = False
                env[ins.res] = self.vite(c, a, b, ins.ty)
            return
        if op == "getelementptr":
            base = self.val(fr, ins.a[0][1], ins.a[0][0])
            env[ins.res] = self.gep(fr, base, ins.ty, ins.a[1:])
            return
        if op == "load":
            p = self.val(fr, ins.a[0], ir.PTR)
            env[ins.res] = self.load(st, p, ins.ty)
            return
        if op == "store":
            v = self.val(fr, ins.a[0], ins.ty)
            p = self.val(fr, ins.a[1], ir.PTR)
            self.store(st, p, ins.ty, v)
            return
        if op == "alloca":
            if ins.a[0] is not None:
                n = self.val(fr, ins.a[0], ir.Ty("int", 64))
                r = self.new_region(st, "%s_%s" % (fr.f.name[:20], ins.res), self.unit_of(ins.ty), kind="stack")
                r.size = lin_of(n, th).mul(self.m.size(ins.ty)).z(th) if not isinstance(n, int) else n * self.m.size(ins.ty)
            else:
                r = self.new_region(st, "%s_%s" % (fr.f.name[:20], ins.res), self.unit_of(ins.ty), kind="stack")
                r.size = self.m.size(ins.ty)
            env[ins.res] = Ptr(r)
            return
        if op == "call":
            return self.docall(fr, ins, st)
        if op == "extractvalue":
            v = self.val(fr, ins.a[0], ins.ty)
            for i in ins.x:
                v = v[i]
            env[ins.res] = v
            return
        if op == "insertvalue":
            v = self.val(fr, ins.a[0], ins.ty)
            et, e = ins.a[1]
            x = self.val(fr, e, et)
            env[ins.res] = self.insv(v, ins.x, x)
            return
        if op == "freeze":
            v = self.val(fr, ins.a[0], ins.ty)
            if v is UNDEF and ins.ty.k == "int":
                v = th.fresh("undef", ins.ty.n) if ins.ty.n > 1 else z3.Bool(th.name("undefb"))
            env[ins.res] = v
            return
        if op == "extractelement":
            v = self.val(fr, ins.a[0], ins.ty)
            i = self.val(fr, ins.a[1], ins.x)
            if not isinstance(i, int):
                raise Unsupported("symbolic vector lane")
            env[ins.res] = v[i]
            return
        if op == "insertelement":
            v = list(self.val(fr, ins.a[0], ins.ty))
            e = self.val(fr, ins.a[1], ins.x[0])
            i = self.val(fr, ins.a[2], ins.x[1])
            v[i] = e
            env[ins.res] = v
            return
        if op == "shufflevector":
            a, b = self.val(fr, ins.a[0], ins.ty), self.val(fr, ins.a[1], ins.ty)
            mk = self.val(fr, ins.x[1], ins.x[0])
            ab = a + b
            env[ins.res] = [UNDEF if i is UNDEF else ab[i] for i in mk]
            return
        if op == "fcmp":
            a, b = self.val(fr, ins.a[0], ins.ty), self.val(fr, ins.a[1], ins.ty)
            env[ins.res] = self.fcmp(st, ins.x, a, b)
            return
        if op == "fneg":
            a = self.val(fr, ins.a[0], ins.ty)
            env[ins.res] = Dbl(-a.num, a.den, a.approx)
            return
        raise Unsupported("instruction " + ins.line[:100])

    def insv(self, v, ix, x):
        v = list(v)
        if len(ix) == 1:
            v[ix[0]] = x
        else:
            v[ix[0]] = self.insv(v[ix[0]], ix[1:], x)
        return v

    def load(self, st, p, ty):
        t = self.m.resolve(ty)
        if p is UNDEF:
            raise PathEnd()
        for _, q in self.alts(p):
            if isinstance(q, Ptr) and q.r is not None and q.r not in st.mem:
                if hasattr(q.r, "node0"):
                    st.mem[q.r] = q.r.node0
        if t.k in ("struct", "arr", "vec"):
            out = []
            for i, e in enumerate(self.elty(t)):
                o = self.m.field(t, i)[0] if t.k == "struct" else i * self.m.size(t.el)
                out.append(self.load(st, self.padd(p, Lin(o)), e))
            return out
        nb = self.m.size(t)
        self.bounds(st, p, nb, "load in bounds")
        if t.k == "int":
            v = self.read(st, p, nb * 8)
            v = self.asint(v, nb * 8)
            if t.n == 1:
                return self.th.v2b(v, 8)
            if t.n != nb * 8:
                v = self.th.trunc(v, nb * 8, t.n)
            return v
        if t.k == "ptr":
            return self.read(st, p, 64, isptr=True)
        if t.k in ("double", "float"):
            return self.read(st, p, nb * 8, isdbl=True)
        raise Unsupported("load %r" % t)

    def store(self, st, p, ty, v):
        t = self.m.resolve(ty)
        if p is UNDEF:
            raise PathEnd()
        for _, q in self.alts(p):
            if isinstance(q, Ptr) and q.r is not None and q.r not in st.mem and hasattr(q.r, "node0"):
                st.mem[q.r] = q.r.node0
        if t.k in ("struct", "arr", "vec"):
            if v is UNDEF:
                return
            for i, e in enumerate(self.elty(t)):
                o = self.m.field(t, i)[0] if t.k == "struct" else i * self.m.size(t.el)
                self.store(st, self.padd(p, Lin(o)), e, v[i])
            return
        nb = self.m.size(t)
        self.bounds(st, p, nb, "store in bounds")
        if t.k == "int":
            if v is not UNDEF:
                if t.n == 1:
                    v = self.th.b2v(v, 8) if is_b(v) else v
                elif t.n != nb * 8:
                    v = self.th.zext(v, t.n, nb * 8)
        self.write(st, p, nb * 8, v)

    def binop(self, st, ins, op, a, b, ty):
        th = self.th
        if isinstance(a, list):
            return [self.binop(st, ins, op, x, y, ty.el) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op[0] == "f":
            return self.fbin(st, op, a, b)
        w = ty.n
        if w == 1:
            if op == "and":
                return band(a, b)
            if op == "or":
                return bor(a, b)
            if op in ("xor", "add", "sub"):
                if isinstance(a, bool):
                    a, b = b, a
                if b is False:
                    return a
                if b is True:
                    return bnot(a)
                return z3.Xor(zb(a), zb(b))
            if op == "mul":
                return band(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, (Ptr, PUnion)) or isinstance(b, (Ptr, PUnion)):
            raise Unsupported("integer arithmetic on pointers")
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt) and a.p.r is b.p.r:
                d = a.p.off.add(b.p.off.mul(-1))
                return PDiff(d) if d.const() is None else d.c % (1 << w)
            if op == "sub" and isinstance(a, PInt) and b == 0:
                return a
            raise Unsupported("integer arithmetic on pointer casts")
        if isinstance(a, PDiff) or isinstance(b, PDiff):
            if isinstance(a, PDiff) and isinstance(b, int):
                if op in ("ashr", "lshr"):
                    k = 1 << b
                elif op in ("sdiv", "udiv"):
                    k = b
                else:
                    k = None
                if k and a.l.divisible(k) and a.l.c % k == 0:
                    q, _ = a.l.quo(k)
                    return self.wrapidx(q, w)
                a = self.wrapidx(a.l, w)
            elif isinstance(a, PDiff):
                a = self.wrapidx(a.l, w)
            if isinstance(b, PDiff):
                b = self.wrapidx(b.l, w)
        nuw, nsw = "nuw" in ins.flags, "nsw" in ins.flags
        if nsw and self.spec.get("nsw", True) and not self.silent and op in ("add", "sub", "mul"):
            g = self.nsw_goal(op, a, b, w)
            if g is not True:
                self.oblige(st, "nsw", "no signed overflow: " + op, g)
        if op == "add":
            return th.add(a, b, w, nuw)
        if op == "sub":
            return th.sub(a, b, w, nuw)
        if op == "mul":
            return th.mul(a, b, w, nuw)
        if op in ("udiv", "urem", "sdiv", "srem"):
            nz = th.cmp("ne", b, 0, w)
            if nz is not True:
                self.oblige(st, "div", "divisor is non-zero", nz)
            if isinstance(b, int) and b == 0:
                raise PathEnd()
            return getattr(th, op)(a, b, w)
        if op in ("shl", "lshr", "ashr"):
            ok = th.cmp("ult", b, w, w)
            if ok is not True:
                self.oblige(st, "shift", "shift amount below the width", ok)
            if op == "shl":
                return th.shl(a, b, w, nuw)
            return getattr(th, op)(a, b, w)
        if op == "and":
            return th.and_(a, b, w)
        if op == "or":
            return th.or_(a, b, w, "disjoint" in ins.flags)
        if op == "xor":
            return th.xor(a, b, w)
        raise Unsupported(op)

    def nsw_goal(self, op, a, b, w):
        th = self.th
        if isinstance(a, int) and isinstance(b, int):
            return True
        if th.kind == "bv":
            A, B = th.lift(a, w), th.lift(b, w)
            if op == "add":
                return z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
            if op == "sub":
                return z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
            return z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
        H = 1 << (w - 1)
        ra, rb = th.rng(a, w), th.rng(b, w)
        if op == "add" and ra[1] + rb[1] < H:
            return True
        if op == "mul" and ra[1] * rb[1] < H:
            return True
        if op == "sub" and ra[1] < H and rb[1] < H:
            return True
        sa, sb = th.signed(a, w), th.signed(b, w)
        e = sa + sb if op == "add" else sa - sb if op == "sub" else sa * sb
        return z3.And(e < H, e >= -H)

    def wrapidx(self, l, w):
        """signed mathematical Lin -> unsigned w-bit"""
        if l.const() is not None:
            return l.c % (1 << w)
        z = l.z(self.th)
        if self.th.kind == "bv":
            return z
        if self.quick(z >= 0):
            self.th.setr(z, 0, (1 << 63) - 1)
            return z
        return self.th.setr(z3.If(z < 0, z + (1 << w), z), 0, (1 << w) - 1)

    def icmp(self, pred, a, b, ty):
        for cl in self.cmplog:
            if isinstance(a, (Ptr, PInt)) and isinstance(b, (Ptr, PInt)):
                cl.append(("ptr", a.p if isinstance(a, PInt) else a, b.p if isinstance(b, PInt) else b, 64))
            elif not isinstance(a, (Ptr, PUnion, FnPtr, PInt, list)) and not isinstance(b, (Ptr, PUnion, FnPtr, PInt, list)) \
                    and a is not UNDEF and b is not UNDEF and ty.k == "int" and ty.n > 1:
                cl.append((pred, self.wrapidx(a.l, ty.n) if isinstance(a, PDiff) else a,
                           self.wrapidx(b.l, ty.n) if isinstance(b, PDiff) else b, ty.n))
        if isinstance(a, list):
            return [self.icmp(pred, x, y, ty.el) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            return z3.Bool(self.th.name("undefb"))
        if ty.k == "ptr" or isinstance(a, (Ptr, PUnion, FnPtr)):
            return self.pcmp(pred, a, b)
        if isinstance(a, PDiff):
            a = self.wrapidx(a.l, ty.n)
        if isinstance(b, PDiff):
            b = self.wrapidx(b.l, ty.n)
        if isinstance(a, PInt) and isinstance(b, PInt):
            return self.pcmp(pred, a.p, b.p)
        if isinstance(a, PInt) or isinstance(b, PInt):
            raise Unsupported("pointer-int compare")
        if ty.n == 1:
            if pred == "eq":
                return bnot(self.binop(None, None, "xor", a, b, ty)) if True else None
            if pred == "ne":
                return self.binop(None, None, "xor", a, b, ty)
            if pred == "ult":
                return band(bnot(a), b)
            if pred == "ugt":
                return band(a, bnot(b))
            if pred == "ule":
                return bor(bnot(a), b)
            if pred == "uge":
                return bor(a, bnot(b))
            raise Unsupported("i1 compare " + pred)
        return self.th.cmp(pred, a, b, ty.n)

    def pcmp(self, pred, a, b):
        res = []
        for ca, pa in self.alts(a):
            for cb, pb in self.alts(b):
                if isinstance(pa, FnPtr) or isinstance(pb, FnPtr):
                    e = isinstance(pa, FnPtr) and isinstance(pb, FnPtr) and pa.name == pb.name
                    r = e if pred == "eq" else not e
                elif pa.r is not pb.r:
                    if pred == "eq":
                        r = False
                    elif pred == "ne":
                        r = True
                    else:
                        raise Unsupported("ordering pointers into different objects")
                elif pa.r is None:
                    r = pred in ("eq", "ule", "uge")
                else:
                    ic = self.idxcmp(pa.idx, pb.idx)
                    u = pa.r.unit
                    if pa.off.divisible(u) and pb.off.divisible(u):
                        qa, ra = pa.off.quo(u)
                        qb, rb = pb.off.quo(u)
                        if ra != rb:
                            qa, qb = pa.off, pb.off
                    else:
                        qa, qb = pa.off, pb.off
                    if pred in ("eq", "ne"):
                        r = band(ic, self.offcmp(qa, qb))
                        if pred == "ne":
                            r = bnot(r)
                    else:
                        if ic is not True:
                            raise Unsupported("ordering pointers of different rows")
                        d = qa.add(qb.mul(-1))
                        if d.const() is not None:
                            r = {"ult": d.c < 0, "ule": d.c <= 0, "ugt": d.c > 0, "uge": d.c >= 0}[pred]
                        else:
                            # canonical: move constants
                            x, y = qa.z(self.th), qb.z(self.th)
                            r = {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred]
                res.append((band(ca, cb), r))
        return bor(*[band(c, r) for c, r in res])

    def cast(self, st, op, a, ft, tt, flags):
        th = self.th
        if isinstance(a, list) and op != "bitcast":
            fe, te = self.m.resolve(ft).el, self.m.resolve(tt).el
            return [self.cast(st, op, x, fe, te, flags) for x in a]
        if a is UNDEF:
            return UNDEF
        if op == "zext":
            if ft.n == 1:
                return th.b2v(a, tt.n)
            if isinstance(a, PDiff):
                a = self.wrapidx(a.l, ft.n)
            return th.zext(a, ft.n, tt.n)
        if op == "sext":
            if ft.n == 1:
                v = th.b2v(a, tt.n)
                return th.sub(0, v, tt.n)
            return th.sext(a, ft.n, tt.n)
        if op == "trunc":
            if isinstance(a, PDiff):
                a = self.wrapidx(a.l, ft.n)
            if tt.n == 1:
                return th.v2b(a, ft.n)
            return th.trunc(a, ft.n, tt.n)
        if op == "bitcast":
            f, t = self.m.resolve(ft), self.m.resolve(tt)
            if f.k == "ptr" or (f.k == t.k and f.k in ("int",)):
                return a
            return self.bitcast(a, f, t)
        if op == "ptrtoint":
            if isinstance(a, Ptr) and a.r is not None:
                return PInt(a)
            if isinstance(a, Ptr):
                return 0
            raise Unsupported("ptrtoint")
        if op == "inttoptr":
            if isinstance(a, PInt):
                return a.p
            if isinstance(a, int) and a == 0:
                return NULL
            raise Unsupported("inttoptr")
        if op in ("uitofp", "sitofp"):
            if ft.n == 1:
                a = th.b2v(a, 32)
            if th.kind != "int":
                raise Unsupported("double in bit-vector theory")
            v = th.signed(a, ft.n) if op == "sitofp" else a
            r = th.rng(a, ft.n)
            # beyond 2^53 the conversion rounds
            big = r[1] > (1 << 53) if op == "uitofp" else (r[1] > (1 << 53))
            if big:
                self.oblige(st, "double", "integer converts to double exactly", z3.And(self.zi(v) <= (1 << 53), self.zi(v) >= -(1 << 53)))
            return Dbl(v)
        if op in ("fptoui", "fptosi"):
            if not isinstance(a, Dbl):
                raise Unsupported("fptoui")
            q = self.dfloor(st, a)   # truncation for nonneg
            if isinstance(q, int):
                return q % (1 << tt.n)
            self.oblige(st, "double", "double to integer conversion in range",
                        z3.And(q >= 0, q < (1 << (tt.n if op == "fptoui" else tt.n - 1))))
            th.setr(q, 0, (1 << tt.n) - 1)
            return q
        if op in ("fpext", "fptrunc"):
            return a
        raise Unsupported("cast " + op)

    def bitcast(self, a, f, t):
        th = self.th
        # everything through a list of bytes-width lanes; needs bv or constants
        def width(x):
            return x.n if x.k == "int" else 64 if x.k in ("double", "ptr") else None
        if f.k == "vec":
            fw = width(self.m.resolve(f.el))
            lanes = a
        else:
            fw, lanes = width(f), [a]
        if t.k == "vec":
            tw, tn = width(self.m.resolve(t.el)), t.n
        else:
            tw, tn = width(t), 1
        if fw == tw:
            out = list(lanes)
        elif fw < tw:
            k = tw // fw
            out = []
            for i in range(tn):
                v = 0
                for j in range(k):
                    v = th.or_(v, th.shl(th.zext(self.asint(lanes[i * k + j], fw), fw, tw), j * fw, tw), tw, True)
                out.append(v)
        else:
            k = fw // tw
            out = []
            for l in lanes:
                for j in range(k):
                    out.append(th.trunc(th.lshr(self.asint(l, fw), j * tw, fw), fw, tw))
        return out if t.k == "vec" else out[0]

    # ---------------------------------------------------------------- doubles (exact rationals of integers)
    # A double here is num/den, den>0, where num is an integer < 2^53 in magnitude and den an integer.  A quotient is
    # marked approx: its exact value is rounded to nearest.  Rounding lemma used (trusted, stated in DESIGN.md): for integers
    # 0<=a<2^53, 0<b<2^53,   ceil(fl(a/b)) = ceil(a/b),  floor(fl(a/b)) = floor(a/b).
    def dsmall(self, st, x):
        if isinstance(x, int):
            return abs(x) <= 1 << 53
        return self.quick(z3.And(x <= (1 << 53), x >= -(1 << 53)))

    def fbin(self, st, op, a, b):
        if not isinstance(a, Dbl) or not isinstance(b, Dbl):
            raise Unsupported("fp op")
        if a.approx or b.approx:
            raise Unsupported("arithmetic on a rounded double")
        if op == "fdiv":
            if not (isinstance(a.den, int) and a.den == 1 and isinstance(b.den, int) and b.den == 1):
                raise Unsupported("division of non-integers")
            if isinstance(a.num, int) and isinstance(b.num, int) and b.num and a.num % b.num == 0:
                return Dbl(a.num // b.num)
            self.oblige(st, "double", "divisor positive", self.zi(b.num) > 0)
            self.oblige(st, "double", "quotient operands below 2^53",
                        z3.And(self.zi(a.num) >= 0, self.zi(a.num) < (1 << 53), self.zi(b.num) < (1 << 53)))
            return Dbl(a.num, b.num, True)
        if a.den != 1 or b.den != 1:
            raise Unsupported("fp arithmetic on fractions")
        if op in ("fmul", "fadd", "fsub"):
            x, y = a.num, b.num
            r = x * y if op == "fmul" else x + y if op == "fadd" else x - y
            if not isinstance(r, int):
                self.oblige(st, "double", "exact double arithmetic", z3.And(r <= (1 << 53), r >= -(1 << 53)))
            return Dbl(r)
        raise Unsupported(op)

    def dfloor(self, st, a):
        if isinstance(a.den, int) and a.den == 1:
            return a.num
        if isinstance(a.num, int) and isinstance(a.den, int):
            return a.num // a.den
        return self.zi(a.num) / self.zi(a.den)

    def dceil(self, st, a):
        if isinstance(a.den, int) and a.den == 1:
            return a.num
        if isinstance(a.num, int) and isinstance(a.den, int):
            return -((-a.num) // a.den)
        n, d = self.zi(a.num), self.zi(a.den)
        return (n + d - 1) / d

    def fcmp(self, st, pred, a, b):
        if a.approx and b.approx:
            raise Unsupported("compare of rounded doubles")
        for x, y in ((a, b), (b, a)):
            if x.approx and not (isinstance(y.den, int) and y.den == 1):
                raise Unsupported("compare of rounded doubles")
        an, bn = a.num, b.num
        l = an * b.den
        r = bn * a.den
        p = {"oeq": "eq", "one": "ne", "olt": "lt", "ole": "le", "ogt": "gt", "oge": "ge", "ueq": "eq", "une": "ne",
             "ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge"}.get(pred)
        if p is None:
            raise Unsupported("fcmp " + pred)
        return {"eq": l == r, "ne": l != r, "lt": l < r, "le": l <= r, "gt": l > r, "ge": l >= r}[p]

    # ---------------------------------------------------------------- calls
    def docall(self, fr, ins, st):
        callee = ins.x
        if callee[0] == "glob":
            name = self.m.aliases.get(callee[1], callee[1])
        else:
            p = self.val(fr, callee, ir.PTR)
            if isinstance(p, FnPtr):
                name = p.name
            else:
                raise Unsupported("indirect call with unresolved target")
        args = [self.val(fr, v, t) for t, v in ins.a]
        self.ctx.append(id(ins))
        try:
            r = self.invoke(name, args, ins, st)
        finally:
            self.ctx.pop()
        if r is DEAD:
            return DEAD
        rv, st2 = r
        if st2 is None:
            return DEAD
        if ins.res is not None:
            if rv is None and ins.ty.k != "void":
                rv = UNDEF
            fr.env[ins.res] = rv
        return st2

    def cstr(self, p):
        if not isinstance(p, Ptr) or p.r is None or not hasattr(p.r, "gname"):
            return "?"
        ty, init, const = self.m.globals[p.r.gname]
        if init is None or init[0] != "agg":
            return "?"
        bs = [v[1] for _, v in init[1]][p.off.c or 0:]
        if 0 in bs:
            bs = bs[:bs.index(0)]
        return bytes(bs).decode("latin1")

    def invoke(self, name, args, ins, st):
        from . import intrinsics
        h = intrinsics.lookup(name)
        if h is not None:
            return h(self, name, args, ins, st)
        c = self.contract_for(name)
        if c is not None:
            self.used_contracts.add(c[0])
            return c[1](self, args, ins, st)
        f = self.m.funcs.get(name)
        if f is None or f.decl:
            raise Unsupported("call to external function without contract: " + demangle(name))
        return self.call(f, args, st)

    def contract_for(self, name):
        cs = self.spec.get("contracts")
        if not cs:
            return None
        dm = demangle(name)
        for pat, fn in cs:
            if re.search(pat, dm):
                return pat, fn
        return None

    # ---------------------------------------------------------------- loops
    def loop(self, fr, L, inc):
        from .loops import exec_loop
        return exec_loop(self, fr, L, inc)


class PInt:
    def __init__(self, p):
        self.p = p


class PDiff:
    def __init__(self, l):
        self.l = l


class Frame:
    def __init__(self, f, env):
        self.f, self.env, self.rets = f, env, []


DEAD = object()
_dm = {}


def demangle(n):
    if n in _dm:
        return _dm[n]
    import subprocess
    try:
        r = subprocess.run(["c++filt", n], capture_output=True, text=True).stdout.strip()
    except Exception:
        r = n
    _dm[n] = r
    return r


def demangle_many(ns):
    import subprocess
    ns = [n for n in ns if n not in _dm]
    if not ns:
        return
    r = subprocess.run(["c++filt"], input="\n".join(ns), capture_output=True, text=True).stdout.split("\n")
    for n, d in zip(ns, r):
        _dm[n] = d
