"""Loop rule.

1. If at least one exiting condition folds to a constant in every iteration the loop is executed
   iteration by iteration (complete, no bound: the last iteration has no back edge).
2. `unroll` in the spec: same, but the continuation is refuted by the solver (unwinding obligation).
3. Otherwise the loop is cut: everything the body writes is replaced by fresh values, invariants are
   assumed, the body is executed once, and the invariants are proved again (Houdini keeps the largest
   inductive subset of the candidate templates).
"""
import time, itertools, re
import z3
from . import ir
from .theory import *
from .engine import (Ptr, PUnion, FnPtr, Lin, lin_of, MBase, MStore, MHavocF, State, Forall, Obl, View, PhiInfo, UNDEF, DEADPTR,
                     NULL, Dbl, PathEnd, PInt, PDiff)


def live_defs(f, L):
    if hasattr(L, "outs"):
        return L.outs
    defs = set()
    for b in L.blocks:
        for i in f.blocks[b].ins:
            if i.res is not None:
                defs.add(i.res)
    outs = set()

    def use(o):
        if o and o[0] == "reg" and o[1] in defs:
            outs.add(o[1])
    for b in f.rpo:
        if b in L.blocks:
            continue
        for i in f.blocks[b].ins:
            if i.op == "phi":
                for v, l in i.a:
                    if l in L.blocks:
                        use(v)
    L.outs = outs
    return outs


def snap(eng, fr, L, exits):
    outs = live_defs(fr.f, L)
    for (src, dst, s) in exits:
        ov = {k: fr.env[k] for k in outs if k in fr.env}
        if s.ov:
            ov.update(s.ov)
        s.ov = ov
    return exits


def body(eng, fr, L, st):
    """run one iteration from header with phis already in env"""
    s = st.copy()
    s.ov = None
    back, exits = eng.region(fr, fr.f.rpo, L.header, [(None, s)], L)
    snap(eng, fr, L, exits)
    return back, exits


def ctxkey(eng, fr, L):
    return (tuple(eng.ctx), fr.f.name, L.header)


def exec_loop(eng, fr, L, inc):
    st0, conds = eng.merge([s for _, s in inc])
    st0.ov = None
    eng.phis(fr, L.header, inc, conds)
    r = try_unroll(eng, fr, L, st0)
    if r is not None:
        return r
    return havoc_loop(eng, fr, L, st0)


def unroll_limit(eng, fr, L):
    u = eng.spec.get("unroll")
    if L.parent is not None and eng.spec.get("unroll_inner"):
        return eng.spec["unroll_inner"]
    if isinstance(u, dict):
        from .engine import demangle
        d = demangle(fr.f.name)
        for pat, n in u.items():
            if re.search(pat, d):
                return n
        return 0
    return u or 0


def try_unroll(eng, fr, L, st0):
    f = fr.f
    # an exit that only aborts does not decide how often the loop runs
    aborts = lambda b: f.blocks[b].ins[-1].op == "unreachable"
    exiting = [b for b in L.blocks if any(s not in L.blocks and not aborts(s) for s in f.succ[b])]
    kind = eng.unroll_known.get((f.name, L.header))
    bound = unroll_limit(eng, fr, L)
    if eng.spec.get("nounroll") and not bound:
        return None
    env_init = dict(fr.env)
    m = eng.mark()
    nob = len(eng.obls)
    if kind is None or kind == "no":
        # dry first iteration
        eng.silent += 1
        eng.brlog.append({})
        try:
            back, exits = body(eng, fr, L, st0)
        finally:
            log = eng.brlog.pop()
            eng.silent -= 1
        eng.rollback(m)
        fr.env.clear(); fr.env.update(env_init)
        conc = any(isinstance(c, bool) for b in exiting for c in log.get((f.name, b), []))
        if not conc and back and not bound:
            eng.unroll_known[(f.name, L.header)] = "no"
            return None
    allex = []
    st = st0
    limit = eng.spec.get("unroll_limit", 1100)
    n = 0
    nret = len(fr.rets)
    while True:
        eng.brlog.append({})
        eng.ctx.append(("it", L.header, n))
        try:
            back, exits = body(eng, fr, L, st)
        finally:
            log = eng.brlog.pop()
            eng.ctx.pop()
        allex += exits
        n += 1
        if not back:
            break
        conc = any(isinstance(c, bool) for b in exiting for c in log.get((f.name, b), []))
        ms, conds = eng.merge([s for _, s in back])
        ms.ov = None
        if conc and n >= 130 and any(not isinstance(c, bool) for b in exiting for c in log.get((f.name, b), [])):
            conc = False    # another exit decides: a loop over a symbolic range
        if not conc:
            ok = False
            if bound:
                if n > bound:
                    eng.oblige(ms, "unwind", "loop bound %d in %s" % (bound, f.name[:60]), False)
                    eng.bounded = True
                    break
                r, _, _ = eng.solve(False, ms, timeout=2000)
                if r == "valid":
                    break
                ok = True
            if not ok:
                # abort
                eng.rollback(m)
                del eng.obls[nob:]
                del fr.rets[nret:]
                fr.env.clear(); fr.env.update(env_init)
                eng.unroll_known[(f.name, L.header)] = "no"
                return None
        if n >= limit:
            raise Unsupported("loop %s in %s exceeds the unrolling limit" % (L.header, f.name))
        eng.phis(fr, L.header, back, conds)
        st = ms
    eng.unroll_known[(f.name, L.header)] = "yes"
    eng.stats["unrolled"] += 1
    return allex


# ---------------------------------------------------------------------------- havoc
def fresh_like(eng, nm, ty, v, gran=None):
    """fresh value of a phi; returns (value, list of scalar components [(label, z3 value, width)])"""
    th = eng.th
    if isinstance(v, list):
        out = []
        for i, (x, t) in enumerate(zip(v, eng.elty(ty))):
            out.append(fresh_like(eng, "%s_%d" % (nm, i), t, x)[0])
        return out, None
    if isinstance(v, Dbl):
        raise Unsupported("double carried around a loop")
    if ty.k == "int":
        if ty.n == 1:
            return z3.Bool(th.name(nm)), None
        return th.fresh(nm, ty.n), None
    if ty.k == "ptr":
        if isinstance(v, Ptr) and v.r is not None:
            k = eng.fresh_index(nm)
            g = gran or v.r.unit
            p = Ptr(v.r, v.idx, v.off.add(lin_of(k, th).mul(g)))
            return p, k
        raise Unsupported("pointer carried around a loop without a base object")
    raise Unsupported("phi of type %r" % ty)


class Cell:
    """pseudo-phi for a memory cell at constant offset"""
    __slots__ = ("r", "idx", "off", "w", "t")

    def __init__(self, r, idx, off, w, t):
        self.r, self.idx, self.off, self.w, self.t = r, idx, off, w, t


def plan_written(eng, st0, written):
    """-> (cells [Cell], fields {region: set((rem,w))|'all'})"""
    cells, fields = [], {}
    for r, es in written.items():
        if r not in st0.mem:
            continue
        if ("all",) in es:
            fields[r] = "all"
            continue
        byrem = {}
        for e in es:
            byrem.setdefault((e[0], e[1]), set()).add(e[2:])
        sym = set()
        for (rem, w), xs in byrem.items():
            if any(x[0] is None for x in xs) or len(xs) > 32:
                sym.add((rem, w))
        for (rem, w), xs in byrem.items():
            if (rem, w) in sym:
                continue
            for (off, t, idx) in sorted(xs, key=lambda x: (x[0], str(x[1]), str(x[2]))):
                cells.append(Cell(r, idx, off, w, t))
        if sym:
            fields[r] = sym
    return cells, fields


def make_havoc(eng, fr, L, st0, init, phins, cells, fields, grans):
    st = st0.copy()
    st.ov = None
    cur, scal = {}, {}
    for ins in phins:
        v, k = fresh_like(eng, "phi_" + re.sub(r"\W", "_", ins.res), ins.ty, init[ins.res], grans.get(ins.res))
        cur[ins.res] = v
        if k is not None:
            scal[ins.res] = k
    for r, fs in fields.items():
        if fs == "all":
            st.mem[r] = MBase(r, "loop")
        else:
            st.mem[r] = MHavocF(r, st.mem[r], fs, MBase(r, "loop"))
    cv = []
    for c in cells:
        if c.t == "p":
            tl = c.r.targets.get(c.off % c.r.unit, [])
            v0 = None
            try:
                v0 = eng.read(st0, Ptr(c.r, c.idx, Lin(c.off)), 64, isptr=True)
            except (Unsupported, PathEnd):
                pass
            if isinstance(v0, Ptr) and v0.r is not None and all(t is v0.r for t in tl):
                k = eng.fresh_index("cell")
                v = Ptr(v0.r, v0.idx, v0.off.add(lin_of(k, eng.th).mul(v0.r.unit)))
            elif len(tl) == 1:
                t = tl[0]
                v = Ptr(t, tuple(eng.fresh_index("cellidx") for _ in range(t.dims)),
                        lin_of(eng.fresh_index("cell"), eng.th).mul(t.unit))
            else:
                v = DEADPTR     # fine as long as each iteration writes it before it reads it
            cv.append(v)
        elif c.t == "d":
            raise Unsupported("double cell rewritten in a loop")
        else:
            v = eng.th.fresh("cell_%s_%d" % (re.sub(r"\W", "_", c.r.name), c.off), c.w)
            cv.append(v)
        st.mem[c.r] = MStore(c.r, st.mem[c.r], c.idx, Lin(c.off), c.w, v)
    return st, cur, scal, cv


def view_of(eng, fr, L, phins, init, vals, initcells, cellvals, cells, st, st0, written):
    ph = []
    for ins in phins:
        t = ins.ty
        v, i0 = vals[ins.res], init[ins.res]
        if t.k == "int" and t.n > 1:
            if v is UNDEF or i0 is UNDEF:
                continue
            v = eng.wrapidx(v.l, t.n) if isinstance(v, PDiff) else v
            i0 = eng.wrapidx(i0.l, t.n) if isinstance(i0, PDiff) else i0
            if isinstance(v, PInt) or isinstance(i0, PInt):
                continue
            ph.append(PhiInfo(ins.res, t, i0, v))
        elif t.k == "ptr" and isinstance(i0, Ptr) and isinstance(v, Ptr) and v.r is i0.r and v.r is not None:
            d = v.off.add(i0.off.mul(-1))
            u = v.r.unit
            if d.divisible(u) and d.c % u == 0:
                q, _ = d.quo(u)
                p = PhiInfo(ins.res, ir.Ty("pidx", 64), Lin(0), q)
                p.base = i0
                p.iscell = False
                ph.append(p)
    for n, (c, i0, v) in enumerate(zip(cells, initcells, cellvals)):
        if c.t == "i" and i0 is not None and v is not None and not isinstance(v, (Ptr, PUnion)) and not is_b(v):
            p = PhiInfo("cell%d:%s+%d%s" % (n, c.r.name, c.off, str([str(x) for x in c.idx]) if c.idx else ""), ir.Ty("int", c.w), i0, v)
            p.cell = c
            ph.append(p)
    v = View(eng, fr.f.name, L, ph, st, st0, written, list(eng.callpath))
    return v


def zval(eng, p, which):
    """z3 index-sorted value of a phi"""
    x = p.init if which == "init" else p.cur
    if isinstance(x, Lin):
        return x.z(eng.th)
    return eng.th.lift(x, p.ty.n)


def mentions(e, ids, cache={}):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        st.extend(x.children())
    return False


def auto_candidates(eng, view0, bounds, ratios):
    """list of (key, fn(view)) ; fn evaluated on views with the same phi names"""
    th = eng.th
    out = []
    I = th.kind == "int"

    def get(v, nm):
        for p in v.phis:
            if p.name == nm:
                return p
        return None
    for p in view0.phis:
        nm, w = p.name, p.ty.n
        signed = p.ty.k == "pidx"

        def mk(fn, nm=nm):
            def g(v):
                q = get(v, nm)
                return None if q is None else fn(zval(eng, q, "cur"), zval(eng, q, "init"))
            return g
        if I:
            out.append(("%s>=init" % nm, mk(lambda c, i: c >= i)))
            out.append(("%s<=init" % nm, mk(lambda c, i: c <= i)))
            if signed:
                out.append(("%s>=0" % nm, mk(lambda c, i: c >= 0)))
        else:
            ge = (lambda c, i: c >= i) if signed else z3.UGE
            le = (lambda c, i: c <= i) if signed else z3.ULE
            out.append(("%s>=init" % nm, mk(ge)))
            out.append(("%s<=init" % nm, mk(le)))
        for bi, (bw, B) in enumerate(bounds.get(nm, [])):
            if I:
                out.append(("%s<=B%d" % (nm, bi), mk(lambda c, i, B=B: c <= B)))
                out.append(("%s<B%d" % (nm, bi), mk(lambda c, i, B=B: c < B)))
                out.append(("%s>=B%d" % (nm, bi), mk(lambda c, i, B=B: c >= B)))
                out.append(("%s!=B%d" % (nm, bi), mk(lambda c, i, B=B: c != B)))
            elif bw == w:
                out.append(("%s<=B%d" % (nm, bi), mk(lambda c, i, B=B: z3.ULE(c, B))))
                out.append(("%s<B%d" % (nm, bi), mk(lambda c, i, B=B: z3.ULT(c, B))))
                out.append(("%s!=B%d" % (nm, bi), mk(lambda c, i, B=B: c != B)))
    for a, b in itertools.combinations(view0.phis, 2):
        if not I and a.ty.n != b.ty.n:
            continue

        def mk2(fn, na=a.name, nb=b.name):
            def g(v):
                x, y = get(v, na), get(v, nb)
                if x is None or y is None:
                    return None
                return fn(zval(eng, x, "cur"), zval(eng, y, "cur"), zval(eng, x, "init"), zval(eng, y, "init"))
            return g
        rs = {(1, 1), (1, -1)} | set(ratios.get((a.name, b.name), []))
        for (ca, cb) in rs:
            # cb*a - ca*b constant
            out.append(("lin %d*%s-%d*%s" % (cb, a.name, ca, b.name),
                        mk2(lambda x, y, i, j, ca=ca, cb=cb: cb * x - ca * y == cb * i - ca * j)))
        if I:
            out.append(("%s<=%s" % (a.name, b.name), mk2(lambda x, y, i, j: x <= y)))
            out.append(("%s<=%s" % (b.name, a.name), mk2(lambda x, y, i, j: y <= x)))
            out.append(("d%s<=d%s" % (a.name, b.name), mk2(lambda x, y, i, j: x - i <= y - j)))
            out.append(("d%s<=d%s" % (b.name, a.name), mk2(lambda x, y, i, j: y - j <= x - i)))
    return out


def havoc_loop(eng, fr, L, st0):
    f = fr.f
    th = eng.th
    phins = [i for i in f.blocks[L.header].ins if i.op == "phi"]
    init = {}
    for i in phins:
        v = fr.env[i.res]
        if v is UNDEF and i.ty.k == "int":
            v = th.fresh("undef", i.ty.n) if i.ty.n > 1 else z3.Bool(th.name("undefb"))
        init[i.res] = v
    env_init = dict(fr.env)
    nret = len(fr.rets)
    key = ctxkey(eng, fr, L)
    eng.stats["loops"] += 0 if eng.silent else 1

    # ---- written set discovery
    cached = eng.loopcache.get(key)
    written = dict(cached["written"]) if cached else {}
    # regions are identified per execution; keep only those still in the state
    written = {r: set(es) for r, es in written.items() if r in st0.mem}
    grans = dict(cached["grans"]) if cached else {}
    bounds, ratios = {}, {}
    m = eng.mark()
    eng.silent += 1
    eng.nocache += 1
    ncov = len(eng.covers)
    try:
        for it in range(10):
            cells, fields = plan_written(eng, st0, written)
            lim = (th.cnt, MBase.cnt)
            st, cur, scal, cv = make_havoc(eng, fr, L, st0, init, phins, cells, fields, grans)
            fr.env.update(cur)
            ws = {}
            eng.wstack.append(ws)
            eng.cmplog.append([])
            try:
                back, exits = body(eng, fr, L, st)
                backvals = back_values(eng, fr, L, phins, back)
            finally:
                eng.wstack.pop()
                log = eng.cmplog.pop()
            ch = False
            for r, es in ws.items():
                if r in st0.mem:
                    o = written.setdefault(r, set())
                    if not es <= o:
                        o |= es
                        ch = True
            # pointer granularity
            if back:
                for ins in phins:
                    b = backvals[ins.res]
                    c = cur[ins.res]
                    if isinstance(c, Ptr):
                        if isinstance(b, PUnion) or not isinstance(b, Ptr) or b.r is not c.r:
                            raise Unsupported("pointer moves between objects in a loop")
                        d = b.off.add(c.off.mul(-1))
                        g = grans.get(ins.res, c.r.unit)
                        if not (d.divisible(g) and d.c % g == 0):
                            from math import gcd
                            g2 = g
                            for co, _ in d.t.values():
                                g2 = gcd(g2, abs(co))
                            g2 = gcd(g2, abs(d.c))
                            grans[ins.res] = g2
                            ch = True
            if not ch:
                # collect candidate ingredients from the stable pass
                collect(eng, fr, L, phins, init, cur, cv, cells, st, st0, back, backvals, log, bounds, ratios, written, lim)
                eng.rollback(m)
                fr.env.clear(); fr.env.update(env_init)
                del fr.rets[nret:]
                break
            eng.rollback(m)
            fr.env.clear(); fr.env.update(env_init)
            del fr.rets[nret:]
        else:
            raise Unsupported("written set does not stabilise")
    finally:
        eng.silent -= 1
        eng.nocache -= 1
        del eng.covers[ncov:]

    cells, fields = plan_written(eng, st0, written)
    initcells = []
    for c in cells:
        if c.t == "i":
            try:
                initcells.append(eng.read(st0, Ptr(c.r, c.idx, Lin(c.off)), c.w))
            except (Unsupported, PathEnd):
                initcells.append(None)
        else:
            initcells.append(None)

    # ---- candidates
    view_init = view_of(eng, fr, L, phins, init, init, initcells, initcells, cells, st0, st0, written)
    cands = []
    for k, fn in auto_candidates(eng, view_init, bounds, ratios):
        cands.append((k, fn))
    nc = eng.spec.get("nocand")
    if nc:
        cands = [c for c in cands if not re.search(nc, c[0] if isinstance(c[0], str) else fmtkey(c[0]))]
    for tf in eng.spec.get("inv", []):
        names = tf(view_init) or {}
        for k in names:
            cands.append((("user", tf.__name__, k), (lambda v, tf=tf, k=k: (tf(v) or {}).get(k))))
    if cached and cached["alive"] is not None:
        alive = cached["alive"]
        cands = [c for c in cands if c[0] in alive]
    eng.cur_state = st0
    # initiation
    formulas = [(k, fn, fn(view_init)) for k, fn in cands]
    formulas = [(k, fn, x) for k, fn, x in formulas if x is not None]
    ok = check_many(eng, st0, [(k, x) for k, fn, x in formulas])
    cands = [(k, fn) for k, fn, x in formulas if k in ok]

    # ---- Houdini
    t_h = time.time()
    while True:
        m = eng.mark()
        fr.env.clear(); fr.env.update(env_init)
        st, cur, scal, cv = make_havoc(eng, fr, L, st0, init, phins, cells, fields, grans)
        fr.env.update(cur)
        vcur = view_of(eng, fr, L, phins, init, cur, initcells, cv, cells, st, st0, written)
        assume_inv(eng, st, cands, vcur)
        tighten(eng, st, vcur)
        eng.silent += 1
        eng.wstack.append({})
        try:
            back, exits = body(eng, fr, L, st)
            if not back:
                drop = []
            else:
                bs, conds = eng.merge([s for _, s in back])
                bv = back_values(eng, fr, L, phins, back)
                bcells = read_cells(eng, bs, cells)
                vback = view_of(eng, fr, L, phins, init, bv, initcells, bcells, cells, bs, st0, written)
                eng.cur_state = bs
                fs = [(k, fn(vback)) for k, fn in cands]
                good = check_many(eng, bs, [(k, x) for k, x in fs if x is not None])
                drop = [k for k, fn in cands if k not in good]
        finally:
            eng.silent -= 1
            eng.wstack.pop()
        eng.rollback(m)
        del fr.rets[nret:]
        del eng.covers[ncov:]
        if not drop:
            break
        ds = set(drop)
        cands = [c for c in cands if c[0] not in ds]
    # the discovery pass of an enclosing loop assumes none of its invariants: what fails there may still hold
    eng.loopcache[key] = {"written": written, "alive": set(k for k, _ in cands) if not eng.nocache or eng.spec.get("keepdead") else cached and cached["alive"], "grans": grans}

    # ---- final pass
    fr.env.clear(); fr.env.update(env_init)
    if not eng.silent:
        for k, fn in cands:
            eng.obls.append(Obl("loop invariant %s in %s: established and preserved" % (fmtkey(k), eng.pretty(f.name)),
                                "invariant", "valid", 0.0, "z3"))
        if eng.verbose:
            print("   loop %s %s: %d invariants kept (%.1fs): %s" % (eng.pretty(f.name)[:50], L.header, len(cands), time.time() - t_h,
                  [fmtkey(k) for k, _ in cands if isinstance(k, tuple) or eng.verbose > 1]), flush=True)
        eng.loopinfo.append((eng.pretty(f.name), L.header, [fmtkey(k) for k, _ in cands]))
    st, cur, scal, cv = make_havoc(eng, fr, L, st0, init, phins, cells, fields, grans)
    fr.env.update(cur)
    vcur = view_of(eng, fr, L, phins, init, cur, initcells, cv, cells, st, st0, written)
    assume_inv(eng, st, cands, vcur)
    tighten(eng, st, vcur)
    back, exits = body(eng, fr, L, st)
    return exits


def fmtkey(k):
    return k if isinstance(k, str) else "%s[%s]" % (k[1], k[2])


def read_cells(eng, st, cells):
    out = []
    for c in cells:
        try:
            out.append(None if c.t == "p" else eng.read(st, Ptr(c.r, c.idx, Lin(c.off)), c.w))
        except PathEnd:
            out.append(None)
    return out


def back_values(eng, fr, L, phins, back):
    if not back:
        return {}
    _, conds = eng.merge([s for _, s in back])
    vals = {}
    for ins in phins:
        lab = {l: x for x, l in ins.a}
        v, first = None, True
        for (src, s), c in list(zip(back, conds))[::-1]:
            x = eng.edgeval(fr, lab[src], ins.ty, s)
            v = x if first else eng.vite(c, x, v, ins.ty)
            first = False
        vals[ins.res] = v
    return vals


def assume_inv(eng, st, cands, view):
    for k, fn in cands:
        x = fn(view)
        if x is None or x is True:
            continue
        if isinstance(x, Forall):
            eng.forall_fact(st, x)
        else:
            eng.fact(st, x)


def tighten(eng, st, view):
    """loop variables the assumed invariants keep below 2^63 get that range, so that index arithmetic need not split on it"""
    if eng.th.kind != "int":
        return
    eng.cur_state = st
    H = 1 << 63
    for p in view.phis:
        v = p.cur
        if p.ty.k != "int" or p.ty.n != 64 or isinstance(v, (int, bool, Lin)) or not z3.is_const(v):
            continue
        if eng.th.rng(v, 64)[1] >= H and eng.quick(v < H):
            eng.th.setr(v, 0, H - 1)


def collect(eng, fr, L, phins, init, cur, cv, cells, st, st0, back, backvals, log, bounds, ratios, written, lim):
    th = eng.th
    # scalars that change in the loop
    ids = set()
    scal = {}
    initcells = []
    for c in cells:
        try:
            initcells.append(eng.read(st0, Ptr(c.r, c.idx, Lin(c.off)), c.w, isptr=c.t == "p"))
        except (Unsupported, PathEnd):
            initcells.append(None)
    v = view_of(eng, fr, L, phins, init, cur, initcells, cv, cells, st, st0, written)
    cand_vals = {}
    for (pred, a, b, w) in log:
        for x, y in ((a, b), (b, a)):
            # y loop-invariant?
            if isinstance(x, (Ptr,)) and isinstance(y, Ptr):
                continue
            if isinstance(y, bool) or isinstance(x, bool):
                continue
            yz = th.lift(y, w)
            if isinstance(x, int):
                continue
            if uses_new(eng, yz, lim):
                continue
            cand_vals.setdefault((w, str(yz) if yz.num_args() == 0 else yz.get_id()), (w, yz))
    # named scalars are also bound candidates
    vals = list(cand_vals.values())[:10]
    for c in eng.spec.get("const_bounds", (31, 63)):
        vals.append((64, th.lift(c, 64)))
    for p in v.phis:
        bs = list(vals)
        if hasattr(p, "base"):
            sz = eng.get_size(st, p.base)
            if sz is not None:
                l = lin_of(sz, th).add(p.base.off.mul(-1))
                if l.divisible(p.base.r.unit) and l.c % p.base.r.unit == 0:
                    q, _ = l.quo(p.base.r.unit)
                    qz = q.z(th)
                    if not uses_new(eng, qz, lim):
                        bs.append((64, qz))
            for (pred, a, b, w) in log:
                if pred == "ptr":
                    for y in (a, b):
                        if isinstance(y, Ptr) and y.r is p.base.r:
                            d = y.off.add(p.base.off.mul(-1))
                            if d.divisible(y.r.unit) and d.c % y.r.unit == 0:
                                q, _ = d.quo(y.r.unit)
                                qz = q.z(th)
                                if not uses_new(eng, qz, lim):
                                    bs.append((64, qz))
        seen = set()
        out = []
        for (w, z) in bs:
            if z.get_id() in seen:
                continue
            seen.add(z.get_id())
            out.append((w, z))
        bounds[p.name] = out[:10]
    # steps
    if back:
        bs, _ = eng.merge([s for _, s in back])
        bcells = read_cells(eng, bs, cells)
        vb = view_of(eng, fr, L, phins, init, backvals, initcells, bcells, cells, bs, st0, written)
        bm = {p.name: p for p in vb.phis}
        steps = {}
        for p in v.phis:
            if p.name not in bm:
                continue
            try:
                d = lin_of(unwrap(eng, zval(eng, bm[p.name], "cur"), p.ty.n), th).add(lin_of(z3.simplify(zval(eng, p, "cur")), th).mul(-1))
            except z3.Z3Exception:
                continue
            if d.const() is not None and d.c != 0:
                c = d.c
                if th.kind == "bv" and c >= 1 << (p.ty.n - 1):
                    c -= 1 << p.ty.n
                steps[p.name] = c
        for a, b in itertools.combinations(v.phis, 2):
            if a.name in steps and b.name in steps:
                from math import gcd
                g = gcd(abs(steps[a.name]), abs(steps[b.name]))
                ratios[(a.name, b.name)] = [(steps[a.name] // g, steps[b.name] // g)]


def unwrap(eng, e, w):
    """drop wrap-around alternatives (heuristic, used for candidate generation only)"""
    while z3.is_app_of(e, z3.Z3_OP_ITE) and eng.th.kind == "int":
        a, b = e.arg(1), e.arg(2)
        d = lin_of(z3.simplify(a), eng.th).add(lin_of(z3.simplify(b), eng.th).mul(-1))
        if d.const() == -(1 << w):
            e = b
        elif d.const() == 1 << w:
            e = b
        else:
            break
    return z3.simplify(e)


def consts(z):
    out, seen, st = set(), set(), [z]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    return out


def uses_new(eng, z, lim):
    """does z depend on anything introduced after the mark (fresh names x!N, memory bases m_.._ID_..)?"""
    seen, stk = set(), [z]
    while stk:
        x = stk.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            m = re.search(r"!(\d+)$", nm)
            if m and int(m.group(1)) > lim[0]:
                return True
            m = re.match(r"m_.*_(\d+)_\d+_\d+(_[io]\d*)?$", nm)
            if m and int(m.group(1)) > lim[1]:
                return True
        stk.extend(x.children())
    return False


import os
DROP = os.environ.get("VF_DROP")


def dump(eng, st, k, y, model):
    print("DROP", k, z3.simplify(y), "\n   guards", [str(z3.simplify(zb(g)))[:300] for g in st.g], flush=True)
    for d in sorted(model.decls(), key=str):
        if d.arity() == 0:
            print("      ", d, "=", model[d])
    seen, stk = set(), [y] + [zb(g) for g in st.g]
    while stk:
        e = stk.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            print("      ", str(e)[:200], "=", model.eval(e, model_completion=True))
        stk.extend(e.children())


def check_many(eng, st, items):
    """items: [(key, formula|Forall)] -> set of keys proved valid under facts at st"""
    th = eng.th
    good = set()
    pend = []
    for k, x in items:
        if x is True:
            good.add(k)
            continue
        if x is False:
            continue
        if isinstance(x, Forall):
            y = x.fn(*[eng.fresh_index("sk") for _ in range(x.args)])
            if y is True:
                good.add(k)
                continue
            pend.append((k, zb(y)))
        else:
            y = z3.simplify(zb(x))
            if z3.is_true(y):
                good.add(k)
                continue
            if z3.is_false(y):
                continue
            pend.append((k, zb(x)))
    tmo = eng.spec.get("houdini_timeout", 3000)
    # cheap batch: model-guided elimination
    while pend:
        eng.stats["houdini_checks"] += 1
        goal = z3.And(*[y for _, y in pend]) if len(pend) > 1 else pend[0][1]
        r, _, model = eng.solve(goal, st, timeout=tmo)
        if r == "valid":
            good.update(k for k, _ in pend)
            return good
        if r == "invalid" and model is not None:
            nxt = []
            for k, y in pend:
                v = model.eval(y, model_completion=True)
                if z3.is_false(v):
                    if DROP and re.search(DROP, str(k)):
                        dump(eng, st, k, y, model)
                    continue
                nxt.append((k, y))
            if len(nxt) == len(pend):
                break
            pend = nxt
            continue
        break
    else:
        return good
    # individually
    for k, y in pend:
        eng.stats["houdini_checks"] += 1
        t0 = time.time()
        r, _, _ = eng.solve(y, st, timeout=eng.spec.get("user_timeout", tmo) if isinstance(k, tuple) else tmo)
        if eng.verbose > 1:
            print("      houdini %s: asm %.2f n%d trunc %s #fa%d %s %.2fs" % (k,eng.ta,eng.nfs,eng.truncated,len(eng.foralls), r, time.time() - t0), flush=True)
        if r == "valid":
            good.add(k)
        elif r == "unknown" and isinstance(k, tuple) and k[0] == "user":
            eng.stats["user_unknown"] = eng.stats.get("user_unknown", 0) + 1
    return good
