import os
import z3
from vf import extract, inv
from vf.engine import Forall, Ptr, Lin, lin_of
from vf.loops import zval
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = os.environ.get("VF_REPO", "/repo") + "/psi/utils/batch_provider_impl"
M, S = "MemoryBatchProvider", "SimpleShuffledBatchProvider"
AM = [M + "::" + x for x in (M, "ReadNextBatch", "ReadNextLabeledBatch", "ReadNextShuffledBatch", "ReadNext", "ReadAll", "ReadNextImpl")]
AS = [S + "::" + x for x in (S, "Init", "ReadNextShuffledBatch", "ReadAndShuffle")]


def gen(cls, fns, drop=()):
    def g(d):
        t, n = extract.extract(R + ".h", [cls])
        open(d + "/mem.h", "w").write(t)
        t, n2 = extract.extract(R + ".cc", fns, exclude=list(drop))
        open(d + "/gen.h", "w").write(t)
        return ["psi/utils/batch_provider_impl.h:" + x for x in n] + ["psi/utils/batch_provider_impl.cc:" + x for x in n2]
    return g


def gen2(want, drop):
    def g(d):
        n = gen(S, [S + "::" + x for x in want], [S + "::" + x for x in drop])(d)
        t, _ = extract.extract(R + ".cc", AS)
        open(d + "/all.h", "w").write(t)
        return n
    return g


def rd(e, st, nm, k, f=0, u=8, w=64):
    return e.zi(e.read(st, Ptr(e.objs[nm].r, (), lin_of(k, e.th).mul(u).addc(f)), w))


def perm(e, st):
    n, r = e.zi(e.named["items"]), e.objs["perm"].r
    return [Forall(lambda k: z3.Implies(z3.And(k >= 0, k < n), el(e, st, r, k) < n))]


def isx(eng):
    return ("isX", 64, 0, lambda v: v == eng.zi(eng.named["X"]))


def el(e, st, r, k, u=8, w=64):
    return e.zi(e.read(st, Ptr(r, (), lin_of(k, e.th).mul(u)), w))


def deliver(v):
    """the buffer is the current batch with its front delivered; what is delivered follows the order"""
    n, e, out = v.named, v.eng, {}
    if "sbase" not in v.objs:
        return {}
    st = v.state
    at = lambda nm: e.zi(e.read(st, v.objs[nm], 64))
    size = lambda r: e.zi(e.read(st, Ptr(r.sizereg, (), Lin(0)), 64))
    o = {x: v.objs[x].r for x in ("items", "dups", "perm")}
    B, M, h, bidx = at("gbase"), at("gcount"), at("shead"), at("sidx")
    r0 = e.zi(n["base"]) + e.zi(n["head"])
    I = lambda k: el(e, st, o["items"], k)
    D = lambda k: el(e, st, o["dups"], k, 4, 32)
    P = lambda k: el(e, st, o["perm"], k)
    out["base"] = at("sbase") == B
    out["head"] = z3.And(h >= 0, h <= M, M <= 2**32)
    out["some"] = M > 0
    for x in o:
        out["size " + x] = size(o[x]) == M
    ok = lambda k: z3.And(k >= 0, k < M)
    out["perm"] = Forall(lambda k: z3.Implies(ok(k), z3.And(P(k) < M, B + P(k) == uf("order", B + k), uf("place", B + P(k)) == B + k)))
    out["dups"] = Forall(lambda k: z3.Implies(ok(k), D(k) == uf("dup", B + k)))
    out["left"] = Forall(lambda k: z3.Implies(z3.And(k >= h, k < M), I(P(k)) == uf("stream", B + P(k))))
    rs = [(q, r) for q, r in enumerate(v.written) if r.unit in (4, 8) and r.dims == 0 and hasattr(r, "sizereg") and r not in o.values()]
    for q, r in rs:
        S = size(r)
        w = 8 * r.unit
        g = lambda k, r=r, w=w: el(e, st, r, k, r.unit, w)
        out["place #%d" % q] = z3.And(B + h == r0 + S, S <= e.zi(n["batch"]))
        out["index #%d" % q] = bidx == r0 + S
        for p in v.phis:
            if p.ty.k == "int" and p.ty.n == 64 and not p.name.startswith("cell"):
                out["at %s #%d" % (p.name, q)] = zval(e, p, "cur") + bidx == r0 + S
                out["count %s #%d" % (p.name, q)] = zval(e, p, "cur") == S
        forms = {"indices": lambda k: r0 + k, "order": lambda k: uf("order", r0 + k), "items": lambda k: uf("stream", uf("order", r0 + k))} if w == 64 else {"dup": lambda k: uf("dup", uf("order", r0 + k))}
        for nm, f in forms.items():
            out["%s #%d" % (nm, q)] = Forall(lambda k, g=g, f=f, S=S: z3.Implies(z3.And(k >= 0, k < S), g(k) == f(k)))
    return out


def ints(v):
    return [p for p in v.phis if not p.name.startswith("cell") and (p.ty.k == "pidx" or (p.ty.k == "int" and p.ty.n == 64))]


def filled(v):
    """iota"""
    n, e, out = v.named, v.eng, {}
    if "X" not in n:
        return {}
    for q, r in enumerate(v.written):
        if r.unit == 8 and r.dims == 0 and hasattr(r, "sizereg"):
            for p in ints(v):
                c = zval(e, p, "cur")
                out["iota %s #%d" % (p.name, q)] = Forall(lambda k, r=r, c=c: z3.Implies(z3.And(k >= 0, k < c), e.zi(e.read(v.state, Ptr(r, (), lin_of(k, e.th).mul(8)), 64)) == k))
                out["count %s #%d" % (p.name, q)] = e.pcount(v.state, r, (), c, isx(e)) == z3.If(e.zi(n["X"]) < c, z3.IntVal(1), z3.IntVal(0))
    return out


def copied(v):
    """what was passed is copied from the input, what lies ahead is untouched"""
    n, e, out = v.named, v.eng, {}
    if "items" not in n or "data" not in v.objs:
        return {}
    cur = e.zi(n["cursor"]) if "cursor" in n else z3.IntVal(0)
    dat = lambda k, nm="data": rd(e, v.entry, nm, k)
    for q, r in enumerate(v.written):
        if r.dims == 0 and r.unit in (8, 16) and hasattr(r, "sizereg"):
            at = lambda k, f=0, w=64, r=r: e.zi(e.read(v.state, Ptr(r, (), lin_of(k, e.th).mul(r.unit).addc(f)), w))
            size = lambda st, r=r: e.zi(e.read(st, Ptr(r.sizereg, (), Lin(0)), 64))
            out["size #%d" % q] = size(v.state) == size(v.entry)
            src = {"": lambda k: dat(cur + k), "whole": lambda k: dat(k)}
            if "perm" in v.objs:
                pm = lambda k: rd(e, v.entry, "perm", cur + k)
                src = {"pos": lambda k: cur + k, "perm": pm, "item": lambda k: dat(pm(k))}
            S = size(v.state)
            for nm, f in src.items():
                out["pushed %s #%d" % (nm, q)] = Forall(lambda k, f=f, at=at, S=S: z3.Implies(z3.And(k >= 0, k < S), at(k) == f(k)))
            for p in ints(v):
                c = zval(e, p, "cur")
                out["moved %s #%d" % (p.name, q)] = size(v.state) + cur == c
                out["grown %s #%d" % (p.name, q)] = size(v.state) == c
                for nm, f in src.items():
                    out["passed %s %s #%d" % (nm, p.name, q)] = Forall(lambda k, f=f, at=at, c=c: z3.Implies(z3.And(k >= 0, k < c), at(k) == f(k)))
                if "perm" not in v.objs:
                    out["ahead %s #%d" % (p.name, q)] = Forall(lambda k, at=at, c=c, size=size: z3.Implies(z3.And(k >= c, k < size(v.state)), at(k) == dat(cur + k)))
                if r.unit == 16:
                    out["ones %s #%d" % (p.name, q)] = Forall(lambda k, at=at, c=c: z3.Implies(z3.And(k >= 0, k < c), at(k, 8, 32) == 1))
                    out["once %s #%d" % (p.name, q)] = Forall(lambda k, at=at, size=size: z3.Implies(z3.And(k >= 0, k < size(v.state)), at(k, 8, 32) == 1))
    return out


uf = lambda nm, k: z3.Function("uf_" + nm, z3.IntSort(), z3.IntSort())(k)


def block(e, st, base, n, items, dups, perm):
    """a batch of n items from stream position base, in shuffled order (place: its inverse)"""
    o = {x: e.objs[x].r for x in (items, dups, perm)}
    r = lambda nm, k, u=8, w=64: el(e, st, o[nm], k, u, w)
    ok = lambda k: z3.And(k >= 0, k < n)
    return [Forall(lambda k: z3.Implies(ok(k), z3.And(r(items, k) == uf("stream", base + k), r(dups, k, 4, 32) == uf("dup", base + k), r(perm, k) < n, base + r(perm, k) == uf("order", base + k), uf("place", base + r(perm, k)) == base + k)))]


def start(e, st):
    base, n, h = [e.zi(e.named[x]) for x in ("base", "count", "head")]
    o = {x: e.objs[x].r for x in ("items", "dups", "perm")}
    r = lambda nm, k, u=8, w=64: el(e, st, o[nm], k, u, w)
    b = block(e, st, base, n, "items", "dups", "perm")
    # items already delivered were moved out
    b[0] = Forall(lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(r("dups", k, 4, 32) == uf("dup", base + k), r("perm", k) < n, base + r("perm", k) == uf("order", base + k), uf("place", base + r("perm", k)) == base + k)))
    b.append(Forall(lambda k: z3.Implies(z3.And(k >= h, k < n), r("items", r("perm", k)) == uf("stream", base + r("perm", k)))))
    return b


def batch(e, st):
    return block(e, st, e.zi(e.named["newbase"]), e.zi(e.named["newcount"]), "rawitems", "rawdups", "rawperm")


def keys(e, st):
    """the wrapped provider's duplicate counts: keys are positions in the batch, none twice; dup: the count of a key, else zero"""
    r, m, d = e.objs["pairs"].r, e.zi(e.named["items"]), e.zi(e.named["counts"])
    it = e.objs["data"].r
    key, val = [lambda j, f=f: e.zi(e.read(st, Ptr(r, (), lin_of(j, e.th).mul(8).addc(f)), 32)) for f in (0, 4)]
    return [Forall(lambda j: z3.Implies(z3.And(j >= 0, j < d), z3.And(key(j) < m, uf("pos", key(j)) == j))),
            Forall(lambda k: z3.Implies(z3.And(k >= 0, k < m), el(e, st, it, k) == uf("item", k))),
            Forall(lambda k: uf("dup", k) == z3.If(z3.And(uf("pos", k) >= 0, uf("pos", k) < d, key(uf("pos", k)) == k), val(uf("pos", k)), z3.IntVal(0)))]


def counted(v):
    """the counts of the keys passed are in place"""
    n, e, out = v.named, v.eng, {}
    if "pairs" not in v.objs:
        return {}
    pr_ = v.objs["pairs"].r
    key = lambda j: e.zi(e.read(v.entry, Ptr(pr_, (), lin_of(j, e.th).mul(8)), 32))
    d = e.zi(n["counts"])
    for q, r in enumerate(v.written):
        if r.unit == 4 and r.dims == 0 and hasattr(r, "sizereg"):
            for p in ints(v):
                c = zval(e, p, "cur")
                out["counted %s #%d" % (p.name, q)] = Forall(lambda k, r=r, c=c: z3.Implies(z3.And(k >= 0, k < e.zi(n["items"])), el(e, v.state, r, k, 4, 32) == z3.If(z3.And(uf("pos", k) >= 0, uf("pos", k) < c, key(uf("pos", k)) == k), uf("dup", k), z3.IntVal(0))))
    return out


def raw(e, st):
    o = {x: e.objs[x].r for x in ("rawitems", "rawdups", "rawperm")}
    n = e.zi(e.named["size"])
    return [Forall(lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(el(e, st, o["rawitems"], k) == uf("item", k), el(e, st, o["rawdups"], k, 4, 32) == uf("dup", k), el(e, st, o["rawperm"], k) == uf("perm", k))))]


FL = ["^-isystem" + V + "/model/ext"]
NF = ["-I" + os.environ.get("VF_REPO", "/repo"), "-pthread"]
AX = {"perm": perm, "start": start, "batch": batch}
C = {"inv": [copied], "axioms": AX}
UNITS = {"memory": {"gen": gen(M, AM), "harness": "memory.cc", "sym_flags": FL, "native_flags": NF,
                    "harnesses": {"batch": C, "next": C, "all": C, "labeled": C, "shuffled": C, "ctor": {"inv": [filled], "preds": {"isX": isx}}}},
         "simple": {"gen": gen2(["ReadNextShuffledBatch", "Init", S], ["ReadAndShuffle"]), "harness": "simple.cc", "sym_flags": FL, "native_flags": NF, "harnesses": {"simple": {"inv": [deliver], "axioms": AX, "nocand": r"cell|lin|[^<]=B|<B", "nounroll": True, "relevant": True}}},
         "read": {"gen": gen(S, [S + "::" + x for x in ("ReadAndShuffle", "Init", S)]), "harness": "read.cc", "sym_flags": FL,
                  "harnesses": {"read": {"inv": [filled, counted], "axioms": {"keys": keys}, "preds": {"isX": isx}, "nounroll": True, "relevant": True}, "ahead": {"inv": [], "axioms": {"raw": raw}}}}}
NATIVE_SECS = 4
