"""Loop invariant templates for bit-packing loops (most significant bit first): bit b of byte B is bit r of
coefficient q, where q*L + r == 8*B + b.  Ghost names q, r, B, b (and the input array) come from the harness."""
import itertools
import z3
from . import inv
from .engine import Ptr, lin_of
from .loops import zval

W = 32    # width of position arithmetic (positions stay below 2^26)


def B(x, w=64):
    return z3.BitVecVal(x, w) if isinstance(x, int) else (x if x.size() == w else (z3.ZeroExt(w - x.size(), x) if x.size() < w else z3.Extract(w - 1, 0, x)))


def bit(x, p):
    return z3.Extract(0, 0, z3.LShR(B(x), B(p)))


def small(*xs):
    return z3.And(*[z3.ULT(x, z3.BitVecVal(1 << 26, x.size())) for x in xs])


def cur(v):
    return [(p.name, B(zval(v.eng, p, "cur"))) for p in v.phis if p.ty.k == "pidx" or (p.ty.k == "int" and p.ty.n > 1)]


def outs(v, unit):
    return [r for r in v.written if r.unit == unit and r.dims == 0]


def rdr(v, r, k, w):
    return v.eng.read(v.state, Ptr(r, (), lin_of(k, v.eng.th).mul(r.unit)), w)


def enc(L, src="bytes", off=None, w=64):
    """bytes -> coefficients, after i bytes: 8*i + room = L*(T+1); every consumed bit sits at its place"""
    def t(v):
        n = v.named
        if "q" not in n or src not in v.objs:
            return {}
        q, r, Bb, b = (B(n[x], W) for x in ("q", "r", "B", "b"))
        o0 = B(n[off]) if off else B(0)
        out = {}
        cs = cur(v)
        wide = {nm: c for nm, c in cs}
        cs = [(nm, B(c, W)) for nm, c in cs]
        for rg in outs(v, w // 8):
            o = B(rdr(v, rg, B(q), w))
            by = inv.elem(v, src, B(Bb) + o0, 8)
            for (nT, T), (nr, room), (ni, i) in itertools.permutations(cs, 3):
                key = "%s %s %s" % (nT, nr, ni)
                out["pos " + key] = z3.And(8 * i + room == L * (T + 1), z3.ULE(room, L), small(wide[nT], wide[ni], wide[nr]))
                out["part " + key] = z3.Or(i == 0, z3.ULT(room, L))
                out["bits " + key] = z3.Implies(z3.ULT(8 * Bb + b, 8 * i),
                                                bit(o, z3.If(z3.ULT(q, T), L - 1 - r, L - room - 1 - r)) == bit(by, 7 - b))
                out["room " + key] = z3.And(z3.Implies(z3.UGT(q, T), o == 0), z3.Implies(q == T, z3.LShR(o, B(L - room)) == 0),
                                            z3.Implies(z3.ULT(q, T), z3.LShR(o, L) == 0))
        return out
    t.__name__ = "enc"
    return t


def dec(L, src="coeffs"):
    """coefficients -> bytes, after i coefficients: 8*j + 8 - room = i*L"""
    def t(v):
        n = v.named
        if "q" not in n or src not in v.objs:
            return {}
        q, r, Bb, b = (B(n[x], W) for x in ("q", "r", "B", "b"))
        out = {}
        cs = cur(v)
        wide = {nm: c for nm, c in cs}
        cs = [(nm, B(c, W)) for nm, c in cs]
        for rg in outs(v, 1):
            o = B(rdr(v, rg, B(Bb), 8))
            co = inv.elem(v, src, B(q), 64)
            for (nj, j), (nr, room), (ni, i) in itertools.permutations(cs, 3):
                key = "%s %s %s" % (nj, nr, ni)
                out["pos " + key] = z3.And(8 * j + 8 - room == i * L, z3.UGE(room, 1), z3.ULE(room, 8), small(wide[nj], wide[ni]))
                out["bits " + key] = z3.Implies(z3.ULT(8 * Bb + b, i * L),
                                                bit(o, z3.If(z3.ULT(Bb, j), 7 - b, 7 - room - b)) == bit(co, L - 1 - r))
        return out
    t.__name__ = "dec"
    return t
