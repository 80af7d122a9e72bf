import os
import z3
from vf import extract, inv
from vf.engine import Forall, Ptr, Lin, lin_of
from vf.loops import zval
R = os.environ.get("VF_REPO", "/repo") + "/psi/algorithm/rr22/okvs/"
P = "psi/algorithm/rr22/okvs/"


def gen_batch(d):
    return [P + x for x in ("paxos_hash.h", "paxos_hash.cc", "aes_crhash.h", "aes_crhash.cc", "galois128.h", "galois128.cc")]


def gen_row(d):
    return [P + x for x in ("paxos_hash.h", "paxos_hash.cc")]


M = ["mod32", "BuildRow32", "BuildRow", "HashBuildRow32", "HashBuildRow1"]


def gen_part(want):
    """some methods, the others entering through their contracts"""
    def g(d):
        c, n = extract.extract(R + "paxos_hash.cc", ["PaxosHash<IdxType>::" + m for m in want], exclude=["PaxosHash<IdxType>::" + m for m in M if m not in want])
        open(d + "/gen.h", "w").write(c)
        return [P + "paxos_hash.cc:" + x for x in n]
    return g


def pos(v):
    """(name, current, initial) of the loop variables; a pointer into the row counts as the index it points at"""
    out = []
    for p in v.phis:
        if p.ty.k == "pidx" or (p.ty.k == "int" and p.ty.n == 64):
            b = 0
            if p.ty.k == "pidx" and p.base.r is v.objs["row"].r:
                b = p.base.off.quo(p.base.r.unit)[0].z(v.eng.th)
            out.append((p.name, zval(v.eng, p, "cur") + b, zval(v.eng, p, "init") + b))
    return out


def row(v):
    """the positions placed so far are strictly increasing and below the size"""
    if "row" not in v.objs:
        return {}
    e, r = v.eng, v.objs["row"]
    size = e.zi(v.named["size"])
    W = r.r.unit * 8
    el = lambda st, k: e.zi(e.read(st, Ptr(r.r, r.idx, lin_of(k, e.th).mul(r.r.unit)), W))
    out = {}
    ps = pos(v)
    for nm, p, p0 in ps:
        if r.r in v.written:
            out["increasing %s" % nm] = Forall(lambda a, b, p=p: z3.Implies(z3.And(a >= 0, a < b, b < p), el(v.state, a) < el(v.state, b)), args=2)
            out["below %s" % nm] = Forall(lambda a, p=p: z3.Implies(z3.And(a >= 0, a < p), el(v.state, a) < size))
            out["kept %s" % nm] = Forall(lambda a, p=p: z3.Implies(z3.And(a >= 0, a < p), el(v.state, a) == el(v.entry, a)))
            out["moved %s" % nm] = Forall(lambda a, p=p, p0=p0: z3.Implies(z3.And(a > p, a <= p0), el(v.state, a) == el(v.entry, a - 1)))
        else:
            for n2, c, c0 in ps:
                if nm != n2:
                    out["passed %s %s" % (nm, n2)] = Forall(lambda a, p=p, c=c: z3.Implies(z3.And(a >= 0, a < p), el(v.state, a) < c))
                    out["step %s %s" % (nm, n2)] = c - c0 == p - p0
    return out


def rest(v, r, c, rd, enc):
    """the blocks after the last whole batch are encrypted up to position c of the buffer"""
    n = v.named["n"] & ~7
    return Forall(lambda k: z3.Implies(z3.ULT(k, c), v.eng.read(v.state, Ptr(r, (), lin_of(k, v.eng.th).mul(16)), 128) == enc(rd(v.state, "in", n + k))))


def hashed(v):
    """blocks before the loop position hold their hash"""
    if "out" not in v.objs:
        return {}
    e = v.eng
    rd = lambda st, nm, k: e.read(st, Ptr(v.objs[nm].r, (), lin_of(k, e.th).mul(16)), 128)
    K = [v.named[x] for x in ("key_hi", "key_lo")]

    def enc(x):
        a = K + [z3.Extract(127, 64, x), z3.Extract(63, 0, x)]
        f = lambda nm: z3.Function("uf_" + nm, *[z3.BitVecSort(64)] * 5)(*[e.th.lift(q, 64) for q in a])
        return z3.Concat(f("aes_hi"), f("aes_lo"))
    out = {}
    for p in v.phis:
        if p.ty.k == "int" and p.ty.n == 64 or p.ty.k == "pidx":
            c = zval(e, p, "cur")
            out["whole batches " + p.name] = c & 7 == 0
            for r in v.written:
                if r.unit == 16 and r.dims == 0 and r not in (v.objs["out"].r, v.objs["in"].r):
                    out["rest encrypted below " + p.name] = rest(v, r, c, rd, enc)
            if v.objs["out"].r not in v.written:
                continue
            out["hashed below " + p.name] = Forall(lambda k, c=c: z3.Implies(z3.ULT(k, c), rd(v.state, "out", k) == enc(rd(v.state, "in", k)) ^ rd(v.state, "in", k)))
    return out


T = ("u8", "u16", "u32", "u64", "u128")
LIBS = ["-labsl_strings", "-labsl_throw_delegate", "-labsl_base"]
UNITS = {"hash": {"gen": gen_batch, "harness": "hash.cc", "flags": ["-mpclmul", "-msse4.2"], "native_flags": LIBS,
                  "defaults": {"theory": "bv", "ufmod": True, "unroll": 40, "slice": 3000},
                  "harnesses": dict([("one3_" + t, {}) for t in T] + [("batch3_" + t, {"tier": "thorough", "slice": 20000} if t in ("u64", "u128") else {}) for t in T] + [("aes", {"inv": [hashed], "unroll": 0, "unroll_inner": 9})])},
         "multi": {"gen": gen_part(["mod32", "BuildRow32"]), "harness": "multi.cc", "flags": ["-mpclmul", "-msse4.2"], "native_flags": LIBS, "harnesses": {"multi": {}}},
         "hashed": {"gen": gen_part(["HashBuildRow32", "HashBuildRow1"]), "harness": "multi.cc", "flags": ["-DVF_HASHED", "-mpclmul", "-msse4.2"], "native_flags": LIBS,
                    "harnesses": {"hashed": {}, "hashed1": {}}, "defaults": {"theory": "bv", "slice": 3000}},
         "row": {"gen": gen_row, "harness": "row.cc", "flags": ["-mpclmul", "-msse4.2"], "sym_flags": ["^-I" + os.path.dirname(os.path.abspath(__file__)) + "/stub"], "native_flags": LIBS, "defaults": {"theory": "int", "ufmod": True, "inv": [row]},
                 "harnesses": dict(("row_" + t, {}) for t in T)}}
NATIVE_SECS = 5
