import os, itertools
import z3
from vf import extract, inv
from vf.engine import Ptr, lin_of, Lin
from vf.loops import zval
R = os.environ.get("VF_REPO", "/repo") + "/psi/"
F = "algorithm/sealpir/seal_pir.cc"


def gen(d):
    t, n = extract.extract(R + F, ["BytesToCoeffs", "CoeffsToBytes"], exclude=["CoefficientsPerElement"])
    open(d + "/gen.h", "w").write(t)
    t, n2 = extract.extract(R + F, ["CoefficientsPerElement"])
    open(d + "/gen_cpe.h", "w").write(t)
    return ["psi/" + F + ":" + x for x in n]


QUICK = (13, 16, 20, 24, 33)
ALL = tuple(range(8, 61))


def B(x, w=64):
    return z3.BitVecVal(x, w) if isinstance(x, int) else (x if x.size() == w else (z3.ZeroExt(w - x.size(), x) if x.size() < w else z3.Extract(w - 1, 0, x)))


W = 32    # width of position arithmetic (positions stay below 2^26)


def bit(x, p):
    return z3.Extract(0, 0, z3.LShR(B(x), B(p)))


def small(*xs):
    return z3.And(*[z3.ULT(x, z3.BitVecVal(1 << 26, x.size())) for x in xs])


def cur(v):
    return [(p.name, B(zval(v.eng, p, "cur"))) for p in v.phis if p.ty.k == "pidx" or (p.ty.k == "int" and p.ty.n > 1)]


def perms(cs, n):
    """assignments of loop variables to roles; the output position (first role) is a pointer when there is one"""
    return itertools.permutations(cs, n)


def outs(v, unit):
    return [r for r in v.written if r.unit == unit and r.dims == 0]


def rdr(v, r, k, w, entry=False):
    return v.eng.read(v.entry if entry else v.state, Ptr(r, (), lin_of(k, v.eng.th).mul(r.unit)), w)


def enc_inv(L):
    """BytesToCoeffs, after i bytes: 8*i + room = L*(T+1); every consumed bit sits at its place"""
    def t(v):
        n = v.named
        if "q" not in n or "bytes" not in v.objs:
            return {}
        q, r, Bb, b = (B(n[x], W) for x in ("q", "r", "B", "b"))
        out = {}
        cs = cur(v)
        wide = {nm: c for nm, c in cs}
        cs = [(nm, B(c, W)) for nm, c in cs]
        for rg in outs(v, 8):
            o = B(rdr(v, rg, B(q), 64))
            by = inv.elem(v, "bytes", B(Bb), 8)
            for (nT, T), (nr, room), (ni, i) in perms(cs, 3):
                key = "%s %s %s" % (nT, nr, ni)
                out["pos " + key] = z3.And(8 * i + room == L * (T + 1), z3.ULE(room, L), small(wide[nT], wide[ni], wide[nr]))
                out["bits " + key] = z3.Implies(z3.ULT(8 * Bb + b, 8 * i),
                                                bit(o, z3.If(z3.ULT(q, T), L - 1 - r, L - room - 1 - r)) == bit(by, 7 - b))
                out["room " + key] = z3.And(z3.Implies(z3.UGT(q, T), o == 0), z3.Implies(q == T, z3.LShR(o, B(L - room)) == 0),
                                            z3.Implies(z3.ULT(q, T), z3.LShR(o, L) == 0))
        return out
    t.__name__ = "enc"
    return t


def dec_inv(L):
    """CoeffsToBytes, after i coefficients: 8*j + 8 - room = min(i*L, 8*ele) = 8*ele - bits_left"""
    def t(v):
        n = v.named
        if "q" not in n or "coeffs" not in v.objs:
            return {}
        q, r, Bb, b, E = (B(n[x], W) for x in ("q", "r", "B", "b", "ele"))
        out = {}
        cs = cur(v)
        wide = {nm: c for nm, c in cs}
        cs = [(nm, B(c, W)) for nm, c in cs]
        for rg in outs(v, 1):
            o = B(rdr(v, rg, B(Bb), 8))
            co = inv.elem(v, "coeffs", B(q), 64)
            for (nj, j), (nr, room), (ni, i), (nl, left) in perms(cs, 4):
                key = "%s %s %s %s" % (nj, nr, ni, nl)
                cons = z3.If(z3.ULT(i * L, 8 * E), i * L, 8 * E)
                out["pos " + key] = z3.And(8 * j + 8 - room == cons, left == 8 * E - cons, z3.UGE(room, 1), z3.ULE(room, 8), small(wide[nj], wide[ni], wide[nl]))
                out["bits " + key] = z3.Implies(z3.ULT(8 * Bb + b, cons),
                                                bit(o, z3.If(z3.ULT(Bb, j), 7 - b, 7 - room - b)) == bit(co, L - 1 - r))
        return out
    t.__name__ = "dec"
    return t


H = {}
for L in ALL:
    tier = "quick" if L in QUICK else "thorough"
    H["enc%d" % L] = {"theory": "bv", "user_timeout": 60000, "inv": [enc_inv(L)], "tier": tier, "unroll_inner": 3}
    H["dec%d" % L] = {"theory": "bv", "user_timeout": 60000, "inv": [dec_inv(L)], "tier": tier, "unroll_inner": 3 + L // 8}
H["round"] = {"native_only": True}
UNITS = {"codec": {"gen": gen, "harness": "codec.cc", "harnesses": H}}
NATIVE_SECS = 8
