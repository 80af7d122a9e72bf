"""Reusable loop-invariant templates.  Each returns a function View -> {key: formula | Forall}; Houdini keeps the
members that are established on entry and preserved by the loop body, so a template may over-approximate freely."""
import z3
from .engine import Forall, lin_of, Ptr
from .theory import *


def ivars(v, maxw=64):
    """(name, current value as unsigned/int term) of every integer loop variable and memory cell"""
    out = []
    for p in v.phis:
        if p.ty.k == "int" and p.ty.n > 1 and p.ty.n <= maxw and p.cur is not None:
            out.append((p.name, p.cur))
    return out


def elem(v, nm, k, w, off=0, entry=True):
    """scalar at offset off of element k of the named array"""
    p = v.objs[nm]
    return v.rd(p, lin_of(k, v.eng.th).mul(p.r.unit).addc(off), w) if False else _rd(v, p, k, w, off, entry)


def _rd(v, p, k, w, off, entry):
    e = v.eng
    st = v.entry if entry else v.state
    return e.read(st, Ptr(p.r, p.idx, p.off.add(lin_of(k, e.th).mul(p.r.unit).addc(off))), w)


def upto(v, k, p):
    return z3.And(k >= 0, k < p) if v.eng.th.kind == "int" else z3.ULT(k, p)


def prefix(name, fn, names=None):
    """forall k < p: fn(view, k), for every integer loop variable p"""
    def t(v):
        if names and any(n not in v.objs for n in names):
            return {}
        out = {}
        for nm, p in ivars(v):
            if v.eng.th.kind == "bv" and p.size() != 64:
                continue
            out["%s below %s" % (name, nm)] = Forall(lambda k, p=p: z3.Implies(upto(v, k, p), zb(fn(v, k))))
        return out
    t.__name__ = name
    return t


def prefix2(name, fn, names=None):
    """forall k < p: fn(view, k, m), for every ordered pair of integer loop variables (p, m)"""
    def t(v):
        if names and any(n not in v.objs for n in names):
            return {}
        out = {}
        iv = ivars(v)
        for nm, p in iv:
            for n2, m in iv:
                if nm == n2:
                    continue
                if v.eng.th.kind == "bv" and p.size() != 64:
                    continue
                out["%s(%s) below %s" % (name, n2, nm)] = Forall(lambda k, p=p, m=m: z3.Implies(upto(v, k, p), zb(fn(v, k, m))))
        return out
    t.__name__ = name
    return t


def each(name, fn, names=None):
    """fn(view, m) for every integer loop variable m"""
    def t(v):
        if names and any(n not in v.objs and n not in v.named for n in names):
            return {}
        return {"%s %s" % (name, nm): fn(v, m) for nm, m in ivars(v)}
    t.__name__ = name
    return t
