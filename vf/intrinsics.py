"""LLVM intrinsics and the vf_* contract vocabulary."""
import re
import z3
from .theory import *
from .engine import (Ptr, PUnion, FnPtr, Lin, lin_of, MBase, MZero, MStore, MFill, MCopy, Region, State, Forall, UNDEF, NULL,
                     Dbl, DEAD, PDiff, PInt)

TABLE = {}
PREFIX = []


def intr(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def prefix(p):
    def d(f):
        PREFIX.append((p, f))
        return f
    return d


_cache = {}


def lookup(name):
    if name in _cache:
        return _cache[name]
    r = TABLE.get(name)
    if r is None:
        for p, f in PREFIX:
            if name.startswith(p):
                r = f
                break
    _cache[name] = r
    return r


def scal(eng, v, w=64):
    if isinstance(v, PDiff):
        return eng.wrapidx(v.l, w)
    if v is UNDEF:
        return eng.th.fresh("undef", w)
    return v


# ------------------------------------------------------------------ LLVM
@prefix("llvm.lifetime")
@prefix("llvm.dbg")
@prefix("llvm.experimental.noalias")
@prefix("llvm.invariant")
def nop(eng, name, args, ins, st):
    return None, st


@prefix("llvm.assume")
def l_assume(eng, name, args, ins, st):
    return None, st      # compiler-derived facts are not assumed


@prefix("llvm.expect")
def l_expect(eng, name, args, ins, st):
    return args[0], st


@prefix("llvm.is.constant")
def l_isc(eng, name, args, ins, st):
    return False, st


@intr("llvm.trap", "abort", "_ZSt9terminatev", "llvm.ubsantrap", "__assert_fail")
def l_trap(eng, name, args, ins, st):
    eng.oblige(st, "abort", "no abort", False)
    return DEAD


@intr("__cxa_atexit", "__cxa_guard_release")
def l_atexit(eng, name, args, ins, st):
    return 0, st


@intr("__cxa_guard_acquire")
def l_guard(eng, name, args, ins, st):
    return 1, st


def minmax(pred):
    def h(eng, name, args, ins, st):
        w = ins.ty.n if ins.ty.k == "int" else None
        if w is None:
            el = ins.ty.el
            return [eng.th.ite(eng.th.cmp(pred, x, y, el.n), x, y, el.n) for x, y in zip(*args)], st
        a, b = scal(eng, args[0], w), scal(eng, args[1], w)
        c = eng.th.cmp(pred, a, b, w)
        r = eng.th.ite(c, a, b, w)
        if eng.th.kind == "int" and not isinstance(r, int) and pred in ("ult", "ugt"):
            ra, rb = eng.th.rng(a, w), eng.th.rng(b, w)
            f = min if pred == "ult" else max
            eng.th.setr(r, f(ra[0], rb[0]), f(ra[1], rb[1]))
        return r, st
    return h


for _n, _p in (("umin", "ult"), ("umax", "ugt"), ("smin", "slt"), ("smax", "sgt")):
    prefix("llvm.%s." % _n)(minmax(_p))


@prefix("llvm.abs")
def l_abs(eng, name, args, ins, st):
    w = ins.ty.n
    a = scal(eng, args[0], w)
    return eng.th.ite(eng.th.cmp("slt", a, 0, w), eng.th.sub(0, a, w), a, w), st


def bitfn(nm):
    def h(eng, name, args, ins, st):
        return eng.th.bitfn(nm, scal(eng, args[0], ins.ty.n), ins.ty.n), st
    return h


for _n in ("ctpop", "ctlz", "cttz"):
    prefix("llvm.%s." % _n)(bitfn(_n))


@prefix("llvm.x86.pclmulqdq")
def l_clmul(eng, name, args, ins, st):
    """carry-less product of one 64-bit lane of each operand: xor over set bits i of y of x << i"""
    th = eng.th
    if th.kind != "bv":
        raise Unsupported("carry-less multiplication outside the bit-vector theory")
    imm = args[2]
    x, y = th.lift(args[0][imm & 1], 64), th.lift(args[1][(imm >> 4) & 1], 64)
    xx, r = z3.ZeroExt(64, x), z3.BitVecVal(0, 128)
    for i in range(64):
        b = z3.Extract(i, i, y)
        r = r ^ z3.If(b == 1, xx << i, z3.BitVecVal(0, 128))
    return [z3.Extract(63, 0, r), z3.Extract(127, 64, r)], st


@prefix("llvm.fshl")
def l_fshl(eng, name, args, ins, st):
    return eng.th.fsh(args[0], args[1], args[2], ins.ty.n, True), st


@prefix("llvm.fshr")
def l_fshr(eng, name, args, ins, st):
    return eng.th.fsh(args[0], args[1], args[2], ins.ty.n, False), st


@prefix("llvm.bswap")
def l_bswap(eng, name, args, ins, st):
    w, th = ins.ty.n, eng.th
    v = 0
    for i in range(w // 8):
        b = th.and_(th.lshr(args[0], 8 * i, w), 255, w)
        v = th.or_(v, th.shl(b, w - 8 - 8 * i, w), w, True)
    return v, st


@prefix("llvm.bitreverse")
def l_bitrev(eng, name, args, ins, st):
    w, th = ins.ty.n, eng.th
    if isinstance(args[0], int):
        return int(bin(args[0])[2:].zfill(w)[::-1], 2), st
    if th.kind == "bv":
        return z3.Concat(*[z3.Extract(i, i, args[0]) for i in range(w)]), st
    e = 0
    for i in range(w):
        b = (args[0] / (1 << i)) % 2
        e = e + b * (1 << (w - 1 - i))
    return th.setr(e, 0, (1 << w) - 1), st


def ovf(op):
    def h(eng, name, args, ins, st):
        th = eng.th
        t = eng.m.resolve(ins.ty)
        w = t.el[0].n
        a, b = scal(eng, args[0], w), scal(eng, args[1], w)
        r = getattr(th, op)(a, b, w)
        if isinstance(a, int) and isinstance(b, int):
            x = a + b if op == "add" else a - b if op == "sub" else a * b
            return [r, not 0 <= x < 1 << w], st
        if th.kind == "bv":
            A, B = th.lift(a, w), th.lift(b, w)
            if op == "add":
                o = z3.Not(z3.BVAddNoOverflow(A, B, False))
            elif op == "sub":
                o = z3.ULT(A, B)
            else:
                o = z3.Not(z3.BVMulNoOverflow(A, B, False))
        else:
            az, bz = th.lift(a, w), th.lift(b, w)
            o = {"add": az + bz >= 1 << w, "sub": az < bz, "mul": az * bz >= 1 << w}[op]
        return [r, o], st
    return h


for _o in ("add", "sub", "mul"):
    prefix("llvm.u%s.with.overflow" % _o)(ovf(_o))


@prefix("llvm.usub.sat")
def l_usubsat(eng, name, args, ins, st):
    w = ins.ty.n
    c = eng.th.cmp("ult", args[0], args[1], w)
    return eng.th.ite(c, 0, eng.th.sub(args[0], args[1], w), w), st


@prefix("llvm.uadd.sat")
def l_uaddsat(eng, name, args, ins, st):
    w = ins.ty.n
    z = eng.th
    s = z.add(args[0], args[1], w)
    return z.ite(z.cmp("ult", s, args[0], w), (1 << w) - 1, s, w), st


@prefix("llvm.vector.reduce.")
def l_vred(eng, name, args, ins, st):
    op = name.split(".")[3]
    v = args[0]
    r = v[0]
    for x in v[1:]:
        if op in ("or", "and", "xor", "add", "mul"):
            if is_b(r):
                r = {"or": bor, "and": band}[op](r, x)
            else:
                r = {"or": eng.th.or_, "and": eng.th.and_, "xor": eng.th.xor, "add": eng.th.add, "mul": eng.th.mul}[op](r, x, ins.ty.n)
        else:
            raise Unsupported("vector reduce " + op)
    return r, st


def ptr1(p):
    if isinstance(p, PUnion):
        alts = [a for a in p.alts if getattr(a[1], "r", None) is not None]
        if len(alts) == 1:
            return alts[0][1]
        raise Unsupported("bulk operation through an ambiguous pointer")
    if not isinstance(p, Ptr):
        raise Unsupported("bulk operation through %r" % p)
    return p


def init_reg(eng, st, p):
    if p.r is not None and p.r not in st.mem:
        if not hasattr(p.r, "node0"):
            raise Unsupported("region not in state")
        st.mem[p.r] = p.r.node0


def bulk_bounds(eng, st, p, n, what):
    """p .. p+n bytes inside the object"""
    if p.r is None:
        if n.const() != 0:
            eng.oblige(st, "bounds", what + " non-null", eng.th.cmp("eq", n.z(eng.th), 0, 64) if n.const() is None else False)
        return
    sz = p.r.size if p.r.size is not None else eng.get_size(st, p)
    if sz is None:
        return
    szl = lin_of(sz, eng.th)
    l = p.off
    if l.const() is not None and szl.const() is not None and n.const() is not None:
        if not (l.c >= 0 and l.c + n.c <= szl.c):
            eng.oblige(st, "bounds", what, n.c == 0)
        return
    u = p.r.unit
    if all(x.divisible(u) and x.c % u == 0 for x in (l, szl, n)):
        l, szl, n = (x.quo(u)[0] for x in (l, szl, n))
    lz, sz_, nz = l.z(eng.th), szl.z(eng.th), n.z(eng.th)
    if eng.th.kind == "int":
        eng.oblige(st, "bounds", what, z3.Or(nz == 0, z3.And(lz >= 0, lz + nz <= sz_)))
    else:
        eng.oblige(st, "bounds", what, z3.Or(nz == 0, z3.And(z3.ULE(lz, sz_), z3.ULE(nz, sz_ - lz))))


@prefix("llvm.memcpy")
@prefix("llvm.memmove")
@intr("memcpy", "memmove")
def l_memcpy(eng, name, args, ins, st):
    d, s, n = args[0], args[1], scal(eng, args[2])
    if isinstance(n, int) and n == 0:
        return d, st
    nl = lin_of(eng.th.index(n, 64), eng.th)
    d, s = ptr1(d), ptr1(s)
    init_reg(eng, st, d)
    init_reg(eng, st, s)
    bulk_bounds(eng, st, s, nl, "memcpy source in bounds")
    bulk_bounds(eng, st, d, nl, "memcpy destination in bounds")
    if d.r is None or s.r is None:
        return d, st
    if getattr(d.r, "watchreg", None) is not None:
        eng.watch_put(st, d.r, d.idx, None)
    eng.note_write(d.r, 0, 0, whole=True)
    for rem, tl in s.r.targets.items():
        sh = (rem + (d.off.c - s.off.c)) % d.r.unit
        t2 = d.r.targets.setdefault(sh, [])
        for t in tl:
            if t not in t2:
                t2.append(t)
    st.mem[d.r] = MCopy(d.r, st.mem[d.r], d.idx, d.off, nl, st.mem[s.r], s.r, s.idx, s.off)
    return d, st


@prefix("llvm.memset")
@intr("memset")
def l_memset(eng, name, args, ins, st):
    d, b, n = ptr1(args[0]), args[1], scal(eng, args[2])
    if isinstance(n, int) and n == 0:
        return d, st
    nl = lin_of(eng.th.index(n, 64), eng.th)
    init_reg(eng, st, d)
    bulk_bounds(eng, st, d, nl, "memset in bounds")
    if getattr(d.r, "watchreg", None) is not None:
        eng.watch_put(st, d.r, d.idx, None)
    eng.note_write(d.r, 0, 0, whole=True)
    if isinstance(b, int):
        b &= 255
    st.mem[d.r] = MFill(d.r, st.mem[d.r], d.idx, d.off, nl, b)
    return d, st


@intr("memcmp", "bcmp")
def l_memcmp(eng, name, args, ins, st):
    a, b, n = ptr1(args[0]), ptr1(args[1]), args[2]
    if not isinstance(n, int) or n > 64:
        raise Unsupported("memcmp of symbolic length")
    th = eng.th
    eq = True
    r = 0
    for i in reversed(range(n)):
        x = eng.read(st, Ptr(a.r, a.idx, a.off.addc(i)), 8)
        y = eng.read(st, Ptr(b.r, b.idx, b.off.addc(i)), 8)
        r = th.ite(th.cmp("ult", x, y, 8), 0xFFFFFFFF, th.ite(th.cmp("ult", y, x, 8), 1, r, 32), 32)
    return r, st


# ------------------------------------------------------------------ doubles
@prefix("llvm.ceil")
@intr("ceil")
def l_ceil(eng, name, args, ins, st):
    if not isinstance(args[0], Dbl):
        raise Unsupported("ceil")
    return Dbl(eng.dceil(st, args[0])), st


@prefix("llvm.floor")
@intr("floor")
def l_floor(eng, name, args, ins, st):
    return Dbl(eng.dfloor(st, args[0])), st


# ------------------------------------------------------------------ contract vocabulary
def nm_of(eng, p):
    n = eng.cstr(p)
    return n


def fresh_input(eng, nm, w, lo, hi):
    v = eng.th.fresh(nm, w, lo, hi)
    eng.inputs.append(("u", nm, v))
    eng.named[nm] = v
    return v


@intr("vf_u64_")
def vf_u64(eng, name, args, ins, st):
    nm = nm_of(eng, args[0])
    lo, hi = args[1], args[2]
    if isinstance(lo, int) and isinstance(hi, int):
        v = fresh_input(eng, nm, 64, lo, hi)
    else:
        v = fresh_input(eng, nm, 64, 0, None)
        eng.fact(st, band(eng.th.cmp("uge", v, lo, 64), eng.th.cmp("ule", v, hi, 64)))
    return v, st


@intr("vf_any_")
def vf_any(eng, name, args, ins, st):
    lo, hi = scal(eng, args[0]), scal(eng, args[1])
    v = eng.th.fresh("any", 64)
    s2 = st.copy()
    c = band(eng.th.cmp("uge", v, lo, 64), eng.th.cmp("ult", v, hi, 64))
    s2.g = st.g + (c,)
    return v, s2


@intr("vf_assume_")
def vf_assume(eng, name, args, ins, st):
    c = args[0]
    if c is True:
        return None, st
    s2 = st.copy()
    s2.g = st.g + (c,)
    if c is False:
        return DEAD
    return None, s2


@intr("vf_check_")
def vf_check(eng, name, args, ins, st):
    eng.oblige(st, "post", nm_of(eng, args[1]), args[0])
    return None, st


@intr("vf_cover_")
def vf_cover(eng, name, args, ins, st):
    if not eng.silent:
        r, s, m = eng.solve(False, st, timeout=10000)
        eng.covers.append((nm_of(eng, args[0]), {"invalid": "reachable", "valid": "UNREACHABLE", "unknown": "unknown"}[r]))
    return None, st


@intr("vf_throw_")
def vf_throw(eng, name, args, ins, st):
    """an enforce failure: allowed only if the harness announced it"""
    t = eng.read(st, Ptr(eng.ghost["throw"]), 8) if "throw" in eng.ghost and eng.ghost["throw"] in st.mem else 0
    eng.oblige(st, "throw", "no exception outside the announced cases", eng.th.cmp("ne", t, 0, 8))
    return DEAD


@prefix("_ZSt20__throw_")
@prefix("_ZSt19__throw_")
@prefix("_ZSt24__throw_")
@prefix("_ZSt17__throw_")
@prefix("_ZN4absl7debian313base_internal")
def lib_throw(eng, name, args, ins, st):
    """a library exception"""
    if "Throw" not in name and "throw" not in name:
        raise Unsupported("call to external function without contract: " + name)
    return vf_throw(eng, name, args, ins, st)


@intr("vf_may_throw_")
def vf_may_throw(eng, name, args, ins, st):
    if "throw" not in eng.ghost:
        eng.ghost["throw"] = eng.new_region(st, "ghost_throw", 1, zero=True)
        eng.ghost["throw"].size = 1
    eng.write(st, Ptr(eng.ghost["throw"]), 8, eng.th.b2v(args[0], 8) if is_b(args[0]) else args[0])
    return None, st


@intr("vf_alloc_")
def vf_alloc(eng, name, args, ins, st):
    """vf_alloc_(unit, n, zero) -> fresh object of n elements"""
    unit, n, zero = args
    if not isinstance(unit, int):
        raise Unsupported("symbolic element size")
    r = eng.new_region(st, "obj", unit, zero=bool(zero))
    sr = Region("size", 8)
    sr.size = 8
    r.sizereg = sr
    st.mem[sr] = MStore(sr, MBase(sr, "sz"), (), Lin(0), 64, scal(eng, n))
    return Ptr(r), st


@intr("vf_rows_")
def vf_rows(eng, name, args, ins, st):
    """vf_rows_(base, rem, inner_unit): pointer field `rem` of every element of base's object owns its own row"""
    p, rem, unit = ptr1(args[0]), args[1], args[2]
    r = p.r
    t = Region("rows", unit, dims=r.dims + 1)
    st.mem[t] = MZero(t, "rows")
    sr = Region("rowsize", 8, dims=r.dims + 1)
    sr.size = 8
    st.mem[sr] = MZero(sr, "rowsize")
    t.sizereg = sr
    if not hasattr(r, "rowfam"):
        r.rowfam = {}
    r.rowfam[rem] = t
    return None, st


@intr("vf_row0_")
def vf_row0(eng, name, args, ins, st):
    """vf_row0_(base, rem): the row owned by field rem of element 0 (no access; used to declare nested families)"""
    p, rem = ptr1(args[0]), args[1]
    return Ptr(p.r.rowfam[rem], tuple(p.idx) + (0,), Lin(0)), st


def idxval(eng, x):
    l = x if isinstance(x, Lin) else lin_of(eng.th.index(x, 64), eng.th)
    return l.const() if l.const() is not None else l.z(eng.th)


@intr("vf_clear_rows_")
def vf_clear_rows(eng, name, args, ins, st):
    """vf_clear_rows_(base, rem, lo, hi): rows lo..hi-1 become empty"""
    from .engine import MRowZero
    p, rem, lo, hi = ptr1(args[0]), args[1], scal(eng, args[2]), scal(eng, args[3])
    if isinstance(lo, int) and isinstance(hi, int) and lo >= hi:
        return None, st
    sr = p.r.rowfam[rem].sizereg
    if st.mem[sr].kind == "zero":
        return None, st
    eng.note_write(sr, 0, 0, whole=True)
    st.mem[sr] = MRowZero(sr, st.mem[sr], p.idx, idxval(eng, lo), idxval(eng, hi))
    return None, st


@intr("vf_copy_rows_")
def vf_copy_rows(eng, name, args, ins, st):
    """vf_copy_rows_(dst, src, n): the rows (and rows of rows) of n elements, dst and src pointing at the row field of the first"""
    from .engine import MRowCopy
    n = scal(eng, args[2])
    if isinstance(n, int) and n == 0:
        return None, st
    d, s = ptr1(args[0]), ptr1(args[1])
    dq, drem = eng.fieldof(d.r, d.off)
    sq, srem = eng.fieldof(s.r, s.off)
    lo, slo = idxval(eng, dq), idxval(eng, sq)
    hi = idxval(eng, dq.add(lin_of(eng.th.index(n, 64), eng.th)))

    def go(dt, stt):
        prs = [(dt, stt), (dt.sizereg, stt.sizereg)]
        if getattr(dt, "watchreg", None) is not None and getattr(stt, "watchreg", None) is not None:
            prs.append((dt.watchreg, stt.watchreg))
        for a, b in prs:
            eng.note_write(a, 0, 0, whole=True)
            st.mem[a] = MRowCopy(a, st.mem[a], d.idx, lo, hi, st.mem[b], b, s.idx, slo)
        for rem, x in getattr(dt, "rowfam", {}).items():
            go(x, stt.rowfam[rem])
    go(d.r.rowfam[drem], s.r.rowfam[srem])
    return None, st


@intr("vf_input_rows_")
def vf_input_rows(eng, name, args, ins, st):
    """vf_input_rows_(base, rem, name, w, maxlen): every row has arbitrary length <= maxlen and arbitrary contents"""
    p, rem, nm, w, mx = ptr1(args[0]), args[1], nm_of(eng, args[2]), args[3], args[4]
    t = p.r.rowfam[rem]
    t.name = nm
    st.mem[t] = MBase(t, nm)
    b = MBase(t.sizereg, nm + "_len")
    b.er = {(0, 64): (0, mx)}
    t.sizereg.name = nm + "_len"
    st.mem[t.sizereg] = b
    eng.objs[nm] = Ptr(t, p.idx + (0,), Lin(0))
    eng.rowobjs[nm] = (p, rem)
    return None, st


@intr("vf_rowlen_")
def vf_rowlen(eng, name, args, ins, st):
    """vf_rowlen_(row, n): every row of the (input) family that `row` points into has length n (assumed invariant of the input)"""
    p, n = ptr1(args[0]), scal(eng, args[1])
    _, rem = eng.fieldof(p.r, p.off)
    sr = p.r.rowfam[rem].sizereg
    from .engine import MRowConst
    eng.note_write(sr, 0, 0, whole=True)
    st.mem[sr] = MRowConst(sr, n)
    return None, st


@intr("vf_count_")
def vf_count(eng, name, args, ins, st):
    """vf_count_(pred, p, n): number of the first n elements at p that satisfy spec["preds"][pred]"""
    nm, p, n = nm_of(eng, args[0]), ptr1(args[1]), scal(eng, args[2])
    q, rem = eng.fieldof(p.r, p.off)
    pr = eng.spec["preds"][nm](eng)
    k = q.z(eng.th)
    v = eng.pcount(st, p.r, p.idx, z3.simplify(k + eng.zi(n)), pr) - eng.pcount(st, p.r, p.idx, k, pr)
    return eng.th.setr(z3.simplify(v), 0, 1 << 62), st


@intr("vf_setsize_")
def vf_setsize(eng, name, args, ins, st):
    p, n = ptr1(args[0]), scal(eng, args[1])
    if p.r is None:
        return DEAD
    sr = p.r.sizereg
    if getattr(p.r, "watchreg", None) is not None:
        eng.watch_resize(st, p, n)
    eng.write(st, Ptr(sr, p.idx, Lin(0)), 64, n)
    return None, st


@intr("vf_size_")
def vf_size(eng, name, args, ins, st):
    res = None
    for c, p in reversed(eng.alts(args[0])):
        if p is NULL or p.r is None:
            v = 0
        else:
            v = eng.read(st, Ptr(p.r.sizereg, p.idx, Lin(0)), 64)
        res = v if res is None else eng.th.ite(c, v, res, 64)
    return res, st


@intr("vf_input_arr_")
def vf_input_arr(eng, name, args, ins, st):
    """vf_input_arr_(p, name, w, n, lo, hi): contents arbitrary within [lo,hi]; w-bit scalars at offset 0"""
    p, nm, w, n, lo, hi = ptr1(args[0]), nm_of(eng, args[1]), args[2], scal(eng, args[3]), args[4], args[5]
    base = MBase(p.r, nm)
    p.r.name = nm
    base.er = {(0, w): (lo, hi if w <= 64 or hi != (1 << 64) - 1 else (1 << w) - 1)}   # ~0 is the full range
    st.mem[p.r] = base
    eng.inputs.append(("arr", nm, (p, p.r.unit, n, w, st.copy())))
    eng.objs[nm] = p
    return None, st


@intr("vf_name_")
def vf_name(eng, name, args, ins, st):
    nm = nm_of(eng, args[1])
    eng.objs[nm] = args[0]
    if isinstance(args[0], Ptr) and args[0].r is not None:
        args[0].r.name = nm
    return None, st


@intr("vf_ghost_")
def vf_ghost(eng, name, args, ins, st):
    eng.named[nm_of(eng, args[1])] = scal(eng, args[0])
    return None, st


def ufapp(eng, nm, args):
    th = eng.th
    f = z3.Function("uf_" + nm, *([th.sort(64)] * (len(args) + 1)))
    return th.app_range(f(*[th.lift(scal(eng, a), 64) for a in args]), 64)


def mkuf(k):
    def h(eng, name, args, ins, st):
        return ufapp(eng, nm_of(eng, args[0]), args[1:1 + k]), st
    return h


for _k in (1, 2, 3, 4):
    TABLE["vf_uf%d_" % _k] = mkuf(_k)


@intr("vf_fill_")
def vf_fill(eng, name, args, ins, st):
    """vf_fill_(p, lo, hi, w, value): elements lo..hi-1 (scalars of w bits, unit w/8) := value"""
    from .engine import MFillV
    p, lo, hi, w, v = ptr1(args[0]), scal(eng, args[1]), scal(eng, args[2]), args[3], scal(eng, args[4])
    th = eng.th
    if isinstance(lo, int) and isinstance(hi, int) and lo >= hi:
        return None, st
    l = lin_of(th.index(lo, 64), th)
    n = lin_of(th.index(hi, 64), th).add(l.mul(-1)).mul(p.r.unit)
    v = th.trunc(v, 64, w) if w < 64 else v
    if getattr(p.r, "watchreg", None) is not None:
        eng.watch_put(st, p.r, p.idx, None)
    eng.note_write(p.r, 0, w)
    st.mem[p.r] = MFillV(p.r, st.mem[p.r], p.idx, p.off.add(l.mul(p.r.unit)), n, w, v)
    return None, st


@intr("vf_zero_range_")
def vf_zero_range(eng, name, args, ins, st):
    p, lo, hi = ptr1(args[0]), scal(eng, args[1]), scal(eng, args[2])
    th = eng.th
    if isinstance(lo, int) and isinstance(hi, int) and lo >= hi:
        return None, st
    l = lin_of(th.index(lo, 64), th)
    n = lin_of(th.index(hi, 64), th).add(l.mul(-1)).mul(p.r.unit)
    if getattr(p.r, "watchreg", None) is not None:
        eng.watch_put(st, p.r, p.idx, None)
    eng.note_write(p.r, 0, 0, whole=True)
    st.mem[p.r] = MFill(p.r, st.mem[p.r], p.idx, p.off.add(l.mul(p.r.unit)), n, 0)
    return None, st


# ------------------------------------------------------------------ ghost occurrence count
@intr("vf_watch_")
def vf_watch(eng, name, args, ins, st):
    """vf_watch_(x): from here on every watchable vector carries the number of its elements equal to x"""
    eng.watch = scal(eng, args[0])
    return None, st


@intr("vf_watchable_")
def vf_watchable(eng, name, args, ins, st):
    """vf_watchable_(d, rows): the (empty or zeroed) vector, or family of empty rows, d carries the ghost count"""
    if getattr(eng, "watch", None) is None:
        return None, st
    p, rows = ptr1(args[0]), args[1]
    r = p.r.rowfam[0] if rows else p.r
    w = Region("watch", 8, dims=r.dims)
    w.size = 8
    r.watchreg = w
    if rows:
        st.mem[w] = MZero(w, "watch")
    else:
        n = eng.read(st, Ptr(r.sizereg, p.idx, Lin(0)), 64)
        z = eng.watch_is(0, 64)
        v = 0 if isinstance(n, int) and n == 0 else eng.th.setr(z3.If(eng.zi(eng.watch) == 0, eng.zi(n), z3.IntVal(0)), 0, 1 << 62)
        st.mem[w] = MStore(w, MBase(w, "w"), (), Lin(0), 64, v)
    return None, st


@intr("vf_watch_get_")
def vf_watch_get(eng, name, args, ins, st):
    """count over the n elements at the pointer (a whole vector, otherwise unknown)"""
    n = scal(eng, args[1])
    if isinstance(n, int) and n == 0:
        return 0, st
    if isinstance(args[0], PUnion):
        out = None
        for c, q in args[0].alts:
            if getattr(q, "r", None) is None:
                continue
            x, st = vf_watch_get(eng, name, [q, n], ins, st)
            out = x if out is None else eng.th.setr(z3.If(zb(c), eng.zi(x), eng.zi(out)), 0, 1 << 62)
        if out is not None:
            return out, st
    p = ptr1(args[0])
    if p.r is not None and getattr(p.r, "watchreg", None) is not None and p.off.const() == 0:
        sz = eng.read(st, Ptr(p.r.sizereg, p.idx, Lin(0)), 64)
        same_ = eng.zi(sz) == eng.zi(n)
        if z3.is_true(z3.simplify(same_)) or eng.quick(same_):
            return eng.read(st, Ptr(p.r.watchreg, p.idx, Lin(0)), 64), st
    v = eng.th.fresh("watch", 64)
    eng.th.setr(v, 0, 1 << 62)
    return v, st


@intr("vf_watch_put_")
def vf_watch_put(eng, name, args, ins, st):
    p = ptr1(args[0])
    if p.r is not None and getattr(p.r, "watchreg", None) is not None:
        eng.watch_put(st, p.r, p.idx, eng.zi(scal(eng, args[1])))
    return None, st


@intr("vf_sorted_")
def vf_sorted(eng, name, args, ins, st):
    """vf_sorted_(d, n, w): assumed contract of std::sort on a whole vector of w-bit unsigned integers: the elements are
    rearranged (every value keeps its number of occurrences) into non-decreasing order"""
    p, n, w = ptr1(args[0]), scal(eng, args[1]), args[2]
    if isinstance(n, int) and n <= 1:
        return None, st
    r = p.r
    if p.off.const() != 0 or r.unit * 8 != w:
        raise Unsupported("sort of part of a vector")
    sz = eng.read(st, Ptr(r.sizereg, p.idx, Lin(0)), 64)
    whole = eng.zi(sz) == eng.zi(n)
    keep = None
    if z3.is_true(z3.simplify(whole)) or eng.quick(whole):
        if getattr(r, "watchreg", None) is not None:
            keep = eng.read(st, Ptr(r.watchreg, p.idx, Lin(0)), 64)
    else:
        raise Unsupported("sort of part of a vector")
    eng.note_write(r, 0, 0, whole=True)
    b = MBase(r, "sorted")
    if p.idx:
        raise Unsupported("sort of a row")
    st.mem[r] = b
    if getattr(r, "watchreg", None) is not None:
        eng.watch_put(st, r, p.idx, None if keep is None else eng.zi(keep))
    nz = eng.zi(n)
    rd = lambda k: eng.zi(eng.rnode(b, r, p.idx, lin_of(k, eng.th).mul(r.unit), w))
    eng.forall_fact(st, Forall(lambda k: z3.Implies(z3.And(k >= 0, k + 1 < nz), rd(k) <= rd(k + 1))))
    return None, st


@intr("vf_sorted_pairs_")
def vf_sorted_pairs(eng, name, args, ins, st):
    """vf_sorted_pairs_(p, n): assumed contract of std::sort on n pairs of 64-bit unsigned integers: they are permuted into
    lexicographic order (every counted property keeps its number of occurrences); elements outside the range stay"""
    p, n = ptr1(args[0]), scal(eng, args[1])
    if isinstance(n, int) and n <= 1:
        return None, st
    r, old = p.r, st.mem[p.r]
    if p.idx or r.unit != 16:
        raise Unsupported("sort of pairs inside another structure")
    lo, rem = eng.fieldof(r, p.off)
    if rem:
        raise Unsupported("sort of misaligned pairs")
    lo = lo.z(eng.th)
    hi = lo + eng.zi(n)
    eng.oblige(st, "bounds", "sort range in bounds", z3.And(eng.zi(n) >= 0, lo >= 0, hi <= eng.zi(eng.read(st, Ptr(r.sizereg, (), Lin(0)), 64))))
    cnt = {}
    for nm, pr in eng.spec.get("preds", {}).items():
        cnt[nm] = (pr(eng), [eng.pcount(st, r, (), x, pr(eng)) for x in (lo, hi)])
    eng.note_write(r, 0, 0, whole=True)
    b = MBase(r, "sorted")
    st.mem[r] = b
    el = lambda nd, k, f: eng.zi(eng.rnode(nd, r, (), lin_of(k, eng.th).mul(16).addc(8 * f), 64))
    perm = z3.Function("perm_%d" % b.id, z3.IntSort(), z3.IntSort())
    ins_ = lambda k: z3.And(k >= lo, k < hi)
    eng.forall_fact(st, Forall(lambda k: z3.Implies(ins_(k), z3.And(ins_(perm(k)), el(b, k, 0) == el(old, perm(k), 0), el(b, k, 1) == el(old, perm(k), 1)))))
    eng.forall_fact(st, Forall(lambda k: z3.Implies(z3.And(k >= 0, z3.Not(ins_(k))), z3.And(el(b, k, 0) == el(old, k, 0), el(b, k, 1) == el(old, k, 1)))))
    eng.forall_fact(st, Forall(lambda k: z3.Implies(z3.And(k >= lo, k + 1 < hi), z3.Or(el(b, k, 0) < el(b, k + 1, 0), z3.And(el(b, k, 0) == el(b, k + 1, 0), el(b, k, 1) <= el(b, k + 1, 1))))))
    for nm, (pr, c) in cnt.items():
        for x, c0 in zip((lo, hi), c):
            eng.fact(st, eng.pcount(st, r, (), x, pr) == c0)
    return None, st


@intr("vf_shuffled_")
def vf_shuffled(eng, name, args, ins, st):
    """vf_shuffled_(p, n): assumed contract of std::shuffle on a whole vector of 64-bit integers: element k afterwards is
    element perm(k) before, perm a bijection of [0, n) (an uninterpreted function with its inverse); every counted property keeps its count"""
    p, n = ptr1(args[0]), scal(eng, args[1])
    r = p.r
    if p.off.const() != 0 or p.idx or r.unit != 8:
        raise Unsupported("shuffle of part of a vector")
    nz = eng.zi(n)
    sz = eng.zi(eng.read(st, Ptr(r.sizereg, (), Lin(0)), 64))
    eng.oblige(st, "bounds", "shuffle range in bounds", z3.And(nz >= 0, nz <= sz))
    old = st.mem[r]
    cnt = {nm: eng.pcount(st, r, (), nz, pr(eng)) for nm, pr in eng.spec.get("preds", {}).items()}
    eng.note_write(r, 0, 0, whole=True)
    b = MBase(r, "shuffled")
    st.mem[r] = b
    perm, inv = [z3.Function("perm%d_%d" % (i, b.id), z3.IntSort(), z3.IntSort()) for i in (0, 1)]
    el = lambda nd, k: eng.zi(eng.rnode(nd, r, (), lin_of(k, eng.th).mul(8), 64))
    eng.forall_fact(st, Forall(lambda k: z3.Implies(z3.And(k >= 0, k < nz), z3.And(perm(k) >= 0, perm(k) < nz, inv(perm(k)) == k, inv(k) >= 0, inv(k) < nz, perm(inv(k)) == k, el(b, k) == el(old, perm(k))))))
    eng.forall_fact(st, Forall(lambda k: z3.Implies(k >= nz, el(b, k) == el(old, k))))
    for nm, c in cnt.items():
        eng.fact(st, eng.pcount(st, r, (), nz, eng.spec["preds"][nm](eng)) == c)
    return None, st


@intr("vf_axiom_")
def vf_axiom(eng, name, args, ins, st):
    """vf_axiom_(name): add the spec's assumption of that name (listed under ASSUMPTIONS)"""
    nm = nm_of(eng, args[0])
    for f in eng.spec["axioms"][nm](eng, st):
        if isinstance(f, Forall):
            eng.forall_fact(st, f)
        else:
            eng.fact(st, f)
    return None, st


@intr("vf_input_elems_")
def vf_input_elems(eng, name, args, ins, st):
    """vf_input_elems_(base, rem, name, maxlen): every row has arbitrary length <= maxlen and arbitrary elements (all fields)"""
    p, rem, nm, mx = ptr1(args[0]), args[1], nm_of(eng, args[2]), args[3]
    t = p.r.rowfam[rem]
    t.name = nm
    st.mem[t] = MBase(t, nm)
    b = MBase(t.sizereg, nm + "_len")
    b.er = {(0, 64): (0, mx)}
    t.sizereg.name = nm + "_len"
    st.mem[t.sizereg] = b
    eng.objs[nm] = Ptr(t, p.idx + (0,), Lin(0))
    eng.rowobjs[nm] = (p, rem)
    return None, st


@intr("vf_field_range_")
def vf_field_range(eng, name, args, ins, st):
    """vf_field_range_(name, rem, w, lo, hi): field at byte rem of every element of the named input lies in [lo,hi]"""
    nm, rem, w, lo, hi = nm_of(eng, args[0]), args[1], args[2], args[3], args[4]
    n = st.mem[eng.objs[nm].r]
    n.er = dict(n.er)
    n.er[(rem, w)] = (lo, hi)
    return None, st


_strs = {}


@intr("vf_strid_")
def vf_strid(eng, name, args, ins, st):
    """identity of a string literal"""
    s = nm_of(eng, args[0])
    if s == "":
        return 0, st
    return (1 << 61) + _strs.setdefault(s, len(_strs)), st
