import os
import z3
from vf import extract, inv
from vf.engine import Forall, Ptr, Lin, lin_of
from vf.loops import zval
R = os.environ.get("VF_REPO", "/repo") + "/psi/"
F = "algorithm/pir_interface/pir_db"


def gen(d):
    t, n = extract.extract(R + F + ".h", ["RawDatabase"], methods_closure=True)
    t2, n2 = extract.extract(R + F + ".cc", ["RawDatabase::Combine"])
    open(d + "/ns_gen.h", "w").write("")
    open(d + "/gen.h", "w").write(t + t2)
    return ["psi/%s.h:%s" % (F, x) for x in n] + ["psi/%s.cc:%s" % (F, x) for x in n2]



def size(v, r, idx=(), entry=False):
    return v.eng.read(v.entry if entry else v.state, Ptr(r.sizereg, idx, Lin(0)), 64)


def val(v, r, idx, k, w=8, entry=False):
    return v.eng.read(v.entry if entry else v.state, Ptr(r, idx, lin_of(k, v.eng.th).mul(r.unit)), w)


def pos(v):
    return [(p.name, zval(v.eng, p, "cur")) for p in v.phis if p.ty.k == "pidx" or (p.ty.k == "int" and p.ty.n == 64 and getattr(p, "cell", None) is None)]


def same_len(v):
    """rows below the loop position have the length of row 0"""
    if "data" not in v.eng.rowobjs:
        return {}
    r = v.objs["data"].r
    m = size(v, r, (0,))
    return {"same length below " + nm: Forall(lambda k, p=p: z3.Implies(z3.And(k >= 0, k < p), size(v, r, (k,)) == m)) for nm, p in pos(v)}


def glued(v):
    """after i partitions the result holds min(i*m, L) bytes, byte p*m+q being byte q of partition p"""
    if "data" not in v.eng.rowobjs or "q" not in v.named:
        return {}
    r = v.objs["data"].r
    m = size(v, r, (0,))
    n, L, p, q = (v.named[x] for x in ("parts", "row_byte_len", "p", "q"))
    out = {}
    for rg in v.written:
        if rg.unit != 1 or rg.dims or getattr(rg, "sizereg", None) is None:
            continue
        for nm, i in pos(v):
            im = i * m
            out["size %s" % nm] = z3.And(i <= n, z3.Implies(i < n, z3.And(im <= (n - 1) * m, im <= L)), size(v, rg) == z3.If(i == n, L, im))
            out["bytes %s" % nm] = z3.Implies(i > p, z3.And(im >= p * m + m, val(v, rg, (), p * m + q) == val(v, r, (p,), q)))
    return out


def result(v):
    return [r for r in v.state.mem if r.unit == 24 and r.dims == 0 and 16 in getattr(r, "rowfam", {})]


def srcbyte(v, row, col):
    n = v.named
    return z3.If(col < n["row_byte_len"], val(v, v.objs["db"].r, (row,), col), 0)


def sub_db(v):
    """building partition number `result.size()`: rows below the position have the partition length and the right bytes"""
    n = v.named
    if "part_len" not in n or "db" not in v.objs:
        return {}
    r, q, P = n["r"], n["q"], n["part_len"]
    out = {}
    for rg in v.written:
        if rg.unit != 1 or rg.dims != 1 or getattr(rg, "sizereg", None) is None:
            continue
        for nm, c in pos(v):
            out["row length below %s" % nm] = Forall(lambda k, c=c: z3.Implies(z3.And(k >= 0, k < c), size(v, rg, (k,)) == P))
            for res in result(v):
                sc = size(v, res) * P
                out["bytes below %s #%d" % (nm, res.id)] = z3.Implies(c > r, val(v, rg, (r,), q) == srcbyte(v, r, sc + q))
    return out


def parts(v):
    """after i partitions: partition p < i is complete"""
    n = v.named
    if "part_len" not in n or "db" not in v.objs:
        return {}
    r, q, p, P, R = n["r"], n["q"], n["p"], n["part_len"], n["rows"]
    out = {}
    for res in result(v):
        if res not in v.written:
            continue
        fam = res.rowfam[16]
        cont = fam.rowfam[0]
        for nm, i in pos(v):
            out["count %s" % nm] = size(v, res) == i
            out["shape %s" % nm] = z3.Implies(i > p, z3.And(size(v, fam, (p,)) == R, size(v, cont, (p, r)) == P,
                                                            v.eng.read(v.state, Ptr(res, (), lin_of(p, v.eng.th).mul(24)), 64) == R,
                                                            v.eng.read(v.state, Ptr(res, (), lin_of(p, v.eng.th).mul(24).addc(8)), 64) == P))
            out["bytes %s" % nm] = z3.Implies(i > p, val(v, cont, (p, r), q) == srcbyte(v, r, p * P + q))
    return out


def genp(d):
    t, n = extract.extract(R + F + ".h", ["RawDatabase"], methods_closure=True)
    t2, n2 = extract.extract(R + F + ".cc", ["RawDatabase::Partition"])
    open(d + "/gen_h.h", "w").write(t)
    open(d + "/gen.h", "w").write(t2)
    return ["psi/%s.h:%s" % (F, x) for x in n] + ["psi/%s.cc:%s" % (F, x) for x in n2]


UNITS = {"combine": {"gen": gen, "harness": "combine.cc", "harnesses": {"combine": {"inv": [same_len, glued]}}},
         "partition": {"gen": genp, "harness": "partition.cc", "harnesses": {"partition": {"inv": [sub_db, parts]}}}}
NATIVE_SECS = 4
