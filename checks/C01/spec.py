import os
import z3
from vf import extract, inv
from vf.engine import Forall, Ptr, Lin, lin_of
from vf.loops import zval
from vf.theory import zb
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = os.environ.get("VF_REPO", "/repo") + "/psi/"
IDX, EXTRA, DATA = 16, 24, 32   # offsets of BucketItem::index / base64_data in the model layout (asserted in the harness)


def gen(d):
    t0, n0 = extract.extract(R + "utils/hash_bucket_cache.h", ["HashBucketCache"])
    t, n = extract.extract(R + "utils/ec_point_store.cc", ["FinalizeAndComputeIndices"])
    open(d + "/cache_gen.h", "w").write(t0)
    open(d + "/gen.h", "w").write(t)
    return ["psi/utils/hash_bucket_cache.h:" + x for x in n0] + ["psi/utils/ec_point_store.cc:" + x for x in n]


def fld(e, st, nm, b, j, rem, w=64):
    p = e.objs[nm]
    return e.zi(e.read(st, Ptr(p.r, (b,), lin_of(j, e.th).mul(p.r.unit).addc(rem)), w))


def rowlen(e, st, nm, b):
    p = e.objs[nm]
    return e.zi(e.read(st, Ptr(p.r.sizereg, (b,), Lin(0)), 64))


def unique_self_index(e, st):
    n = e.named
    return [Forall(lambda b, j: z3.Implies(z3.And(b >= 0, b < n["bins"], j >= 0, j < rowlen(e, st, "self", b), fld(e, st, "self", b, j, IDX) == n["X"]),
                                           z3.And(n["valid"] == 1, b == n["b"], j == n["j"])), args=2)]


def peer_absent(e, st):
    n = e.named
    return [Forall(lambda k: z3.Implies(z3.And(n["in"] == 0, k >= 0, k < rowlen(e, st, "peer", n["b"])),
                                        fld(e, st, "peer", n["b"], k, DATA) != n["D"]))]


def first_peer(e, st):
    n = e.named
    return [Forall(lambda k: z3.Implies(z3.And(n["in"] == 1, k >= 0, k < n["w"]),
                                        fld(e, st, "peer", n["b"], k, DATA) != n["D"]))]


def pos(v):
    return [(p.name, zval(v.eng, p, "cur")) for p in v.phis if p.ty.k == "pidx" or (p.ty.k == "int" and p.ty.n == 64)]


def tables(v):
    """presence flags of the hash tables written in this loop"""
    return [r for r in v.written if r.unit == 1 and r.dims == 0 and r.name == "obj"]


def untouched(v):
    """item vectors rewritten in the loop (moved-from strings) are unchanged from the loop position on"""
    out = {}
    for q, r in enumerate(r for r in v.written if r.unit == 48 and r.dims == 0):
        rd = lambda st, t, r=r: v.eng.zi(v.eng.read(st, Ptr(r, (), lin_of(t, v.eng.th).mul(48).addc(DATA)), 64))
        for nm, k in pos(v):
            out["from %s #%d" % (nm, q)] = Forall(lambda t, k=k, rd=rd: z3.Implies(t >= k, rd(v.state, t) == rd(v.entry, t)))
    return out


def gbin(v):
    return v.eng.zi(v.eng.read(v.state, Ptr(v.objs["ghost"].r, (), Lin(0)), 64))


def peerset(v):
    """after k peer items of X's bin the set holds X's data iff the peer has it among the first k"""
    n = v.named
    if "D" not in n:
        return {}
    out = {}
    for t in tables(v):
        has = v.eng.zi(v.eng.read(v.state, Ptr(t, (), lin_of(n["D"], v.eng.th)), 8)) != 0
        for nm, k in pos(v):
            out["in %s #%d" % (nm, len(out))] = z3.Implies(z3.And(gbin(v) == n["b"], n["in"] == 1), has == (k > n["w"])) if False else \
                z3.Implies(z3.And(gbin(v) == n["b"], n["in"] == 1, k > n["w"]), has)
        out["out #%d" % len(out)] = z3.Implies(z3.And(gbin(v) == n["b"], n["in"] == 0), z3.Not(has))
    return out


def peerval(v):
    """the set keeps the first peer item of X's data"""
    n = v.named
    if "E" not in n or "writer" not in v.objs:
        return {}
    out = {}
    q = 0
    for t in [r for r in v.written if r.unit == 48 and r.dims == 0 and r.name == "obj"]:
        e = v.eng.zi(v.eng.read(v.state, Ptr(t, (), lin_of(n["D"], v.eng.th).mul(48).addc(EXTRA)), 32))
        for h in tables(v):
            has = v.eng.zi(v.eng.read(v.state, Ptr(h, (), lin_of(n["D"], v.eng.th)), 8)) != 0
            for nm, k in pos(v):
                at = z3.And(gbin(v) == n["b"], n["in"] == 1)
                out["val %s #%d" % (nm, q)] = z3.And(z3.Implies(z3.And(at, k > n["w"]), e == n["E"]), z3.Implies(z3.And(at, k <= n["w"]), z3.Not(has)))
            q += 1
    return out


def hits(v):
    n = v.named
    if "E" not in n or "writer" not in v.objs:
        return {}
    g = lambda off: v.eng.zi(v.eng.read(v.state, Ptr(v.objs["writer"].r, (), Lin(off)), 64))
    want = z3.And(n["valid"] == 1, n["in"] == 1)
    out = {}
    for nm, k in pos(v):
        one = lambda x: z3.If(z3.And(want, x), z3.IntVal(1), z3.IntVal(0))
        h = lambda x: z3.And(g(8) == one(x), z3.Implies(z3.And(want, x), g(16) == n["E"]))
        out["bins %s" % nm] = h(k > n["b"])
        out["items %s" % nm] = h(z3.Or(gbin(v) > n["b"], z3.And(gbin(v) == n["b"], k > n["j"])))
    out["committed"] = g(32) == 0
    return out


def counts(v):
    n = v.named
    if "D" not in n:
        return {}
    want = z3.And(n["valid"] == 1, n["in"] == 1)
    out = {}
    for r in v.written:
        w = getattr(r, "watchreg", None)
        if w is None or r.dims:
            continue
        c = v.eng.zi(v.eng.read(v.state, Ptr(w, (), Lin(0)), 64))
        for nm, k in pos(v):
            one = lambda x: z3.If(z3.And(want, x), z3.IntVal(1), z3.IntVal(0))
            out["bins %s" % nm] = c == one(k > n["b"])
            out["items %s" % nm] = c == one(z3.Or(gbin(v) > n["b"], z3.And(gbin(v) == n["b"], k > n["j"])))
    return out


FL = ["^-isystem" + V + "/model/ext", "-I", os.path.dirname(os.path.abspath(__file__))]
AX = {"unique_self_index": unique_self_index, "peer_absent": peer_absent, "first_peer": first_peer}
UNITS = {"finalize": {"gen": gen, "harness": "finalize.cc", "sym_flags": FL, "native_flags": ["-I", os.path.dirname(os.path.abspath(__file__))],
                      "harnesses": {"indices": {"inv": [untouched, peerset, counts], "axioms": AX},
                                    "written": {"inv": [untouched, peerset, peerval, hits], "axioms": AX}}}}
ASSUMPTIONS = ["std::sort returns a sorted permutation", "std::string equality is identity of contents; a moved-from string is unspecified",
               "hash containers behave as sets and maps of their keys (first insertion wins)",
               "LoadBucketItems(b) returns the items that were saved to bin b; this party's item indices are distinct",
               "a vector holds fewer than 2^60 elements"]
BOUNDED = ["returned duplicate totals of the writer variant: native evaluation only"]
