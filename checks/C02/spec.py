import os
import z3
from vf import extract, inv
from vf.engine import Forall, Ptr, Lin, lin_of
from vf.loops import zval
R = os.environ.get("VF_REPO", "/repo") + "/psi/"
M56 = 1 << 56
EMPTY = (1 << 64) - 1


def gen(d):
    h, n = extract.extract(R + "utils/cuckoo_index.h", ["CuckooIndex"])
    t, n2 = extract.extract(R + "utils/cuckoo_index.cc", ["CuckooIndex::CuckooIndex", "CuckooIndex::Insert", "CuckooIndex::PutToStash", "CuckooIndex::MinCollidingHashIdx"], methods_closure=False)
    open(d + "/gen_h.h", "w").write(h)
    open(d + "/gen.h", "w").write(t)
    return ["psi/utils/cuckoo_index.h:" + x for x in n] + ["psi/utils/cuckoo_index.cc:" + x for x in n2]


# contracts used by the callers ------------------------------------------------
def hashfn(eng, code, h):
    f = z3.Function("hash", z3.IntSort(), z3.IntSort(), z3.IntSort())
    v = f(eng.zi(code), eng.zi(h))
    eng.th.setr(v, 0, (1 << 64) - 1)
    return v


def binof(eng, code, h, nb):
    return eng.th.urem(hashfn(eng, code, h), nb, 64)


def c_gethash(eng, args, ins, st):
    """HashRoom::GetHash(h): a function of the code and h (its value is proved in harness gethash); h must be below 5"""
    p, h = args[0], args[1]
    eng.oblige(st, "pre", "precondition of GetHash: the hash function exists", eng.th.cmp("ult", h, 5, 64))
    return hashfn(eng, eng.read(st, p, 128), h), st


def c_numbins(eng, args, ins, st):
    """Options::NumBins(): one positive number per option set"""
    if "nb" not in eng.named:
        eng.named["nb"] = eng.th.fresh("nb", 64, 1, 1 << 40)
    return eng.named["nb"], st


CONTRACTS = [(r"HashRoom::GetHash", c_gethash), (r"Options::NumBins", c_numbins)]


def item(eng):
    X = eng.zi(eng.named["X"])
    return ("item", 64, 0, lambda v: z3.And(v != EMPTY, v % M56 == X))


def el(e, st, p, k):
    return e.zi(e.read(st, Ptr(p.r, (), lin_of(k, e.th).mul(8)), 64))


def code(e, st, i):
    return e.zi(e.read(st, Ptr(e.objs["hashes"].r, (), lin_of(i, e.th).mul(16)), 128))


def good(e, st, v, H):
    """v names an input below H and a hash function"""
    return z3.And(v % M56 < H, v / M56 < e.zi(e.named["num_hash"]))


def placed(e, st, b, H):
    v = el(e, st, e.objs["bins"], b)
    return z3.Implies(z3.And(b >= 0, b < e.zi(e.named["nb"]), v != EMPTY),
                      z3.And(good(e, st, v, H), binof(e, code(e, st, v % M56), v / M56, e.named["nb"]) == b))


def placement(e, st):
    return [Forall(lambda b: placed(e, st, b, e.zi(e.named["H"])))]


def total(e, st, extra=0):
    c = lambda o, n: e.pcount(st, e.objs[o].r, (), n, item(e))
    return c("bins", e.named["nb"]) + c("stash", e.named["num_stash"]) + extra


def one(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def class_invariant(e, st):
    return placement(e, st) + [total(e, st) == one(e.zi(e.named["X"]) < e.zi(e.named["H"]))]


# loop invariants --------------------------------------------------------------
def pos(v):
    return [(p.name, zval(v.eng, p, "cur")) for p in v.phis if p.ty.k == "pidx" or (p.ty.k == "int" and p.ty.n == 64)]


def cands(v):
    """the candidate list: the vector of bins that is neither bins_ nor stash_"""
    known = [v.objs[n].r for n in ("bins", "stash") if n in v.objs]
    return [r for r in sorted(v.state.mem, key=lambda r: r.id) if r.unit == 8 and r.dims == 0 and r.name == "obj" and r not in known and hasattr(r, "sizereg")]


def kept_codes(v):
    """inputs known before the call keep their codes"""
    if "H" not in v.named or "hashes" not in v.objs or v.objs["hashes"].r not in v.written:
        return {}
    return {"codes": Forall(lambda t: z3.Implies(z3.And(t >= 0, t < v.eng.zi(v.named["H"])), code(v.eng, v.state, t) == code(v.eng, v.entry, t)))}


def sz(v, r):
    return v.eng.zi(v.eng.read(v.state, Ptr(r.sizereg, (), Lin(0)), 64))


def insert(v):
    n, e = v.named, v.eng
    if "H2" not in n:
        return {}
    H2 = e.zi(n["H2"])
    out = {}
    if v.objs["bins"].r in v.written:
        out["placed"] = Forall(lambda b: placed(e, v.state, b, H2))
    if v.objs["stash"].r in v.written:
        c = lambda st: e.pcount(st, v.objs["stash"].r, (), n["num_stash"], item(e))
        out["stash kept"] = Forall(lambda k: z3.Implies(z3.And(k >= 0, k < n["num_stash"]), el(e, v.state, v.objs["stash"], k) == el(e, v.entry, v.objs["stash"], k)))
        out["stash count"] = c(v.state) == c(v.entry)
    for q, r in enumerate(r for r in cands(v) if not z3.is_int_value(z3.simplify(sz(v, r)))):
        out.update({"%s #%d" % (k, q): x for k, x in cand_list(v, r, e.zi(n["X"]), H2).items()})
    return out


def cand_list(v, r, X, H2):
    """invariants about one list of candidates"""
    n, e, out = v.named, v.eng, {}
    c = lambda k: e.pcount(v.state, r, (), k, item(e))
    rd = lambda k: el(e, v.state, Ptr(r), k)
    ps = pos(v)
    L = sz(v, r)
    T = total(e, v.state)
    out["all live"] = Forall(lambda k: z3.Implies(z3.And(k >= 0, k < L), good(e, v.state, rd(k), H2)))
    out["total"] = T + c(L) == one(X < H2)
    bins, stash = v.objs["bins"].r in v.written, v.objs["stash"].r in v.written
    for a, i in ps:
        if not bins and not stash:
            out["filled %s" % a] = Forall(lambda k, i=i: z3.Implies(z3.And(k >= 0, k < i), rd(k) == e.zi(n["H"]) + k))
            out["fillcount %s" % a] = c(i) == one(z3.And(X >= e.zi(n["H"]), X < e.zi(n["H"]) + i))
        if stash:
            out["stashing %s" % a] = T + c(L) - c(i) == one(X < H2)
        if not bins:
            continue
        for b, w in ps:
            if a != b:
                out["total %s %s" % (a, b)] = z3.And(w >= 0, w <= i, T + c(w) + c(L) - c(i) == one(X < H2))
    return out


def smaller(v):
    """no hash function below the loop position maps the input to the bin"""
    n, e = v.named, v.eng
    if "b" not in n:
        return {}
    it = el(e, v.state, v.objs["bins"], n["b"]) % M56
    return {"below %s" % nm: Forall(lambda k, i=i: z3.Implies(z3.And(k >= 0, k < i), binof(e, code(e, v.state, it), k, n["nb"]) != e.zi(n["b"])))
            for nm, i in pos(v)}


AX = {"placement": placement, "class_invariant": class_invariant}
K = {"contracts": CONTRACTS, "axioms": AX, "preds": {"item": item}, "ufmod": True}
GH = ["HashRoom::GetHash"]
UNITS = {"cuckoo": {"gen": gen, "harness": "cuckoo.cc", "noinline": [p for p, _ in CONTRACTS],
                    "harnesses": {"gethash": {"theory": "bv"}, "fresh": dict(K), "insert": dict(K, inv=[kept_codes, insert], houdini_timeout=2000, user_timeout=15000), "mincol": dict(K, inv=[smaller])}}}
ASSUMPTIONS = ["Options::NumBins() enters as an arbitrary positive number below 2^40; its floating-point formula is only run natively",
               "inputs and stash slots are fewer than 2^40 (the 56-bit input field)"]
