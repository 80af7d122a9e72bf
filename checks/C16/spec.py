import os
import z3
from vf import build, extract, inv
from vf.engine import Forall, Ptr, Lin, lin_of
from vf.loops import zval
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
H = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VF_REPO", "/repo") + "/psi/"
C = "NpartyPsiOperator::"
ALL = ["OnRun", "Run2PartyPsi", "GetAllPartyItemSizeVec", "GetPsiRank", "NpartyPsiOperator"]


def gen(*want):
    def g(d):
        t0, _ = extract.extract(R + "utils/communication.cc", ["CreateP2PLinkCtx"])
        open(d + "/p2p.h", "w").write(t0)
        t, n = extract.extract(R + "legacy/nparty_psi.h", ["NpartyPsiOperator"])
        open(d + "/nparty.h", "w").write(t)
        t, n2 = extract.extract(R + "legacy/nparty_psi.cc", [C + w for w in want] + [C + "NpartyPsiOperator"], exclude=[C + m for m in ALL if m not in want and m != "NpartyPsiOperator"] + ["CreateP2PLinkCtx"])
        open(d + "/gen.h", "w").write(t)
        t, _ = extract.extract(R + "legacy/nparty_psi.cc", [C + w for w in ALL], exclude=["CreateP2PLinkCtx"])
        open(d + "/all.h", "w").write(t)
        return ["psi/legacy/nparty_psi.h:" + x for x in n] + ["psi/legacy/nparty_psi.cc:" + x for x in n2]
    return g


def f64(e, st, nm, k, rem):
    p = e.objs[nm]
    return e.zi(e.read(st, Ptr(p.r, (), lin_of(k, e.th).mul(16).addc(rem)), 64))


def distinct(e, st):
    n = e.named["parties"]
    return [Forall(lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < n), f64(e, st, "list", a, 8) != f64(e, st, "list", b, 8)), args=2)]


def absent(e, st):
    return [Forall(lambda a: z3.Implies(z3.And(a >= 0, a < e.named["parties"]), f64(e, st, "list", a, 8) != e.named["rank"]))]


def passed(v):
    """no list entry before the loop position, from either end, is this party's"""
    n, e = v.named, v.eng
    if "self" not in n or "list" not in v.objs:
        return {}
    out = {}
    for p in v.phis:
        if p.ty.k == "pidx" or (p.ty.k == "int" and p.ty.n == 64):
            c = zval(e, p, "cur")
            out["front " + p.name] = Forall(lambda k, c=c: z3.Implies(z3.And(k >= 0, k < c), f64(e, v.entry, "list", k, 8) != n["self"]))
            out["back " + p.name] = Forall(lambda k, c=c: z3.Implies(z3.And(k >= n["parties"] - c, k < n["parties"]), f64(e, v.entry, "list", k, 8) != n["self"]))
    return out


def isx(eng):
    return ("isX", 64, 8, lambda v: v == eng.zi(eng.named["X"]))


def listed(v):
    """the list built so far holds party k with its size at position k"""
    n, e = v.named, v.eng
    if "X" not in n or "sizes" not in v.objs:
        return {}
    out = {}
    sz = lambda k: e.zi(e.read(v.entry, Ptr(v.objs["sizes"].r, (), lin_of(k, e.th).mul(8)), 64))
    for q, r in enumerate(r for r in v.written if r.unit == 16 and r.dims == 0 and hasattr(r, "sizereg")):
        rd = lambda k, f, r=r: e.zi(e.read(v.state, Ptr(r, (), lin_of(k, e.th).mul(16).addc(f)), 64))
        for p in v.phis:
            if p.ty.k == "pidx" or (p.ty.k == "int" and p.ty.n == 64):
                c = zval(e, p, "cur")
                out["listed %s #%d" % (p.name, q)] = Forall(lambda k, c=c, rd=rd: z3.Implies(z3.And(k >= 0, k < c), z3.And(rd(k, 0) == sz(k), rd(k, 8) == k)))
                out["counted %s #%d" % (p.name, q)] = e.pcount(v.state, r, (), c, isx(e)) == z3.If(n["X"] < c, z3.IntVal(1), z3.IntVal(0))
    return out


def rounds(v):
    """this party is still in the list, and holds the outcome of the round before"""
    n, e = v.named, v.eng
    if "count" not in v.objs:
        return {}
    rd = lambda nm: e.zi(e.read(v.state, Ptr(v.objs[nm].r, (), Lin(0)), 64))
    lev = lambda x: z3.Function("uf_lev", z3.IntSort(), z3.IntSort())(e.zi(x))
    out = {"in": e.zi(n["a"]) < rd("size"), "some": rd("size") >= 1, "more": rd("size") >= 2, "fits": rd("held") < 2**41, "held0": z3.Implies(rd("rounds") == 0, rd("held") == f64(e, v.entry, "list", n["a"], 0)), "count0": z3.Implies(rd("rounds") == 0, rd("count") == e.zi(n["w"])),
           "rounds": rd("rounds") + lev(rd("size")) == lev(n["parties"]), "size0": z3.Implies(rd("rounds") == 0, rd("size") == n["parties"])}
    for q, r in enumerate(v.written):
        if r.dims == 0 and r.unit == 8 and getattr(r, "watchreg", None) is not None:
            at = lambda g: e.zi(e.read(v.state, Ptr(g, (), Lin(0)), 64))
            out["outcome #%d" % q] = z3.Implies(rd("rounds") >= 1, z3.And(at(r.sizereg) == rd("held"), at(r.watchreg) == rd("count")))
        if r.dims == 0 and r.unit == 16 and hasattr(r, "sizereg"):
            out["list #%d" % q] = Forall(lambda k, r=r: z3.Implies(z3.And(k >= 0, k < rd("size")), z3.And(*[e.zi(e.read(v.state, Ptr(r, (), lin_of(k, e.th).mul(16).addc(f)), 64)) == f64(e, v.entry, "list", k, f) for f in (0, 8)])))
    for p in v.phis:
        if p.ty.k in ("int", "pidx") and (p.ty.k == "pidx" or p.ty.n == 64):
            c, i = zval(e, p, "cur"), zval(e, p, "init")
            out["search " + p.name] = z3.Or(e.zi(n["a"]) < i, e.zi(n["a"]) >= c)
            if "gn" in n and v.objs["rounds"].r not in v.written:
                zero = e.zi(n["zero"]) != 0
                out["positive " + p.name] = z3.Or(zero, c >= 1)
                for p2 in v.phis:
                    if p2 is not p and p2.ty.k == "int":
                        out["least %s %s" % (p.name, p2.name)] = z3.Implies(zero, z3.Or(e.zi(n["z"]) >= c, zval(e, p2, "cur") == 0))
            for q, r in enumerate(v.written):
                if r.dims == 0 and r.unit == 8 and getattr(r, "watchreg", None) is not None:
                    out["names %s #%d" % (p.name, q)] = Forall(lambda k, r=r, c=c: z3.Implies(z3.And(k >= 0, k < c), e.zi(e.read(v.state, Ptr(r, (), lin_of(k, e.th).mul(8)), 64)) == f64(e, v.entry, "list", k, 8)))
        if p.ty.k == "int" and p.ty.n == 64:
            out["round " + p.name] = zval(e, p, "cur") == rd("rounds")
            out["front " + p.name] = zval(e, p, "cur") == rd("size")
    return out


NF = ["-lfmt"]
FL = ["^-isystem" + V + "/model/ext"]
def ascending(e, st):
    n = e.named["parties"]
    return [Forall(lambda k: z3.Implies(z3.And(k >= 1, k < n), f64(e, st, "list", 1, 0) <= f64(e, st, "list", k, 0)))]


def no_zero(e, st):
    return [Forall(lambda k: z3.Implies(z3.And(k >= 0, k < e.zi(e.named["gn"])), e.zi(e.read(st, Ptr(e.objs["gather"].r, (), lin_of(k, e.th).mul(8)), 64)) != 0))]


AX = {"ascending": ascending, "no_zero": no_zero, "distinct": distinct, "absent": absent}
UNITS = {"pair": {"gen": gen("Run2PartyPsi"), "harness": "pair.cc", "sym_flags": FL, "native_flags": NF, "harnesses": {"pair": {}, "alone": {}}},
         "run": {"gen": gen("OnRun"), "harness": "run.cc", "sym_flags": FL, "native_flags": NF + ["-pthread"], "noinline": [r"NpartyPsiOperator::OnRun"], "passes": build.PASSES.replace("adce,", "jump-threading,adce,"), "harnesses": {"run": {"inv": [rounds], "axioms": AX}}},
         "sizes": {"gen": gen("GetAllPartyItemSizeVec"), "harness": "sizes.cc", "sym_flags": FL, "native_flags": NF, "harnesses": {"sizes": {"inv": [listed], "preds": {"isX": isx}}}},
         "rank": {"gen": gen("GetPsiRank"), "harness": "rank.cc", "sym_flags": FL, "native_flags": NF, "harnesses": {"rank": {"inv": [passed], "axioms": AX}, "stranger": {"inv": [passed], "axioms": AX}}}}
NATIVE_SECS = 4
