"""Value theories: machine integers as mathematical Ints with exact wrap (IntTh), or as bit-vectors (BVTh).

A symbolic value is a python int (constant, unsigned representation) or a z3 expression.
i1 values are python bools or z3 Bools in both theories.
"""
import z3


class Unsupported(Exception):
    pass


def is_b(x):
    return isinstance(x, bool) or (isinstance(x, z3.BoolRef))


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bnot(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def bimp(a, b):
    return bor(bnot(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return type(a) == type(b) and a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


class Theory:
    def __init__(self):
        self.rt = {}       # id -> (expr, lo, hi)
        self.prover = None  # callback(formula)->bool, quick
        self.cnt = 0
        self.arange = set()     # which of them range over applications
        self.range_facts = []   # facts of fresh values (always valid)

    def name(self, p):
        self.cnt += 1
        return "%s!%d" % (p, self.cnt)


class IntTh(Theory):
    kind = "int"

    def sort(self, w):
        return z3.IntSort()

    def idxsort(self):
        return z3.IntSort()

    def rng(self, a, w=None):
        if isinstance(a, int):
            return a, a
        r = self.rt.get(a.get_id())
        if r:
            return r[1], r[2]
        if w is None:
            return None
        return 0, (1 << w) - 1

    def setr(self, e, lo, hi):
        if isinstance(e, int):
            return e
        old = self.rt.get(e.get_id())
        if old:
            lo, hi = max(lo, old[1]), min(hi, old[2])
        self.rt[e.get_id()] = (e, lo, hi)
        return e

    def fresh(self, nm, w, lo=0, hi=None):
        if hi is None:
            hi = (1 << w) - 1
        v = z3.Int(self.name(nm))
        self.setr(v, lo, hi)
        self.range_facts.append(z3.And(v >= lo, v <= hi))
        return v

    def lift(self, v, w):
        return z3.IntVal(v) if isinstance(v, int) else v

    def app_range(self, e, w, lo=0, hi=None):
        hi = (1 << w) - 1 if hi is None else hi
        if e.get_id() not in self.rt:
            self.arange.add(len(self.range_facts))
            self.range_facts.append(z3.And(e >= lo, e <= hi))
        self.setr(e, self.rng(lo, w)[0], self.rng(hi, w)[1])
        return e

    def ite(self, c, a, b, w):
        if c is True:
            return a
        if c is False:
            return b
        if same(a, b):
            return a
        ra, rb = self.rng(a, w), self.rng(b, w)
        e = z3.If(c, self.lift(a, w), self.lift(b, w))
        return self.setr(e, min(ra[0], rb[0]), max(ra[1], rb[1]))

    def q(self, f):
        return self.prover is not None and self.prover(f)

    def add(self, a, b, w, nuw=False):
        M = 1 << w
        if isinstance(a, int) and isinstance(b, int):
            return (a + b) % M
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(b, int) and b >= M // 2 and not nuw:
            return self.sub(a, M - b, w)
        if isinstance(b, int) and b < 0:
            return self.sub(a, -b, w)
        ra, rb = self.rng(a, w), self.rng(b, w)
        e = a + b
        if ra[1] + rb[1] < M or nuw:
            return self.setr(e, ra[0] + rb[0], min(ra[1] + rb[1], M - 1))
        if self.q(e < M):
            return self.setr(e, ra[0] + rb[0], M - 1)
        if ra[0] + rb[0] >= M:
            return self.setr(e - M, ra[0] + rb[0] - M, min(M - 1, ra[1] + rb[1] - M))
        return self.setr(z3.If(e >= M, e - M, e), 0, M - 1)

    def sub(self, a, b, w, nuw=False):
        M = 1 << w
        if isinstance(a, int) and isinstance(b, int):
            return (a - b) % M
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(b, int) and b > M // 2:
            return self.add(a, M - b, w)
        ra, rb = self.rng(a, w), self.rng(b, w)
        if same(a, b):
            return 0
        e = a - b
        if ra[0] >= rb[1] or nuw:
            return self.setr(e, max(0, ra[0] - rb[1]), max(0, ra[1] - rb[0]))
        az, bz = self.lift(a, w), self.lift(b, w)
        if self.q(az >= bz):
            return self.setr(e, 0, max(0, ra[1] - rb[0]))
        return self.setr(z3.If(az >= bz, e, e + M), 0, M - 1)

    def mul(self, a, b, w, nuw=False):
        M = 1 << w
        if isinstance(a, int) and isinstance(b, int):
            return (a * b) % M
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b == 0:
                return 0
            if b == 1:
                return a
            if b >= M // 2 and not nuw:  # multiplication by a negative constant
                return self.sub(0, self.mul(a, M - b, w), w)
        ra, rb = self.rng(a, w), self.rng(b, w)
        e = a * b
        if ra[1] * rb[1] < M or nuw:
            return self.setr(e, ra[0] * rb[0], min(M - 1, ra[1] * rb[1]))
        if self.q(e < M):
            return self.setr(e, ra[0] * rb[0], M - 1)
        return self.setr(e % M, 0, M - 1)

    def split(self, x, b):
        """x == b*hi + lo structurally with 0 <= lo < b: (hi, lo) or None"""
        if isinstance(x, int) or not z3.is_add(x):
            return None
        hi, lo, lr = [], [], [0, 0]
        for t in x.children():
            c, rest = 1, t
            if z3.is_int_value(t):
                hi.append(z3.IntVal(t.as_long() // b))
                lo.append(z3.IntVal(t.as_long() % b))
                lr[0] += t.as_long() % b
                lr[1] += t.as_long() % b
                continue
            if z3.is_mul(t) and t.num_args() == 2:
                u, v = t.children()
                if z3.is_int_value(u):
                    c, rest = u.as_long(), v
                elif z3.is_int_value(v):
                    c, rest = v.as_long(), u
            if c % b == 0:
                hi.append(rest * (c // b) if c != b else rest)
                continue
            r = self.rt.get((t if c == 1 else rest).get_id())
            if r is None or c < 0:
                return None
            r = r[1:]
            lo.append(t)
            lr[0] += r[0] * c
            lr[1] += r[1] * c
        if not hi or lr[0] < 0 or lr[1] >= b:
            return None
        h = hi[0] if len(hi) == 1 else z3.Sum(*hi)
        l = 0 if not lo else lo[0] if len(lo) == 1 else self.setr(z3.Sum(*lo), lr[0], lr[1])
        return h, l

    def udiv(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int) and b:
            return a // b
        if isinstance(b, int) and b == 1:
            return a
        ra, rb = self.rng(a, w), self.rng(b, w)
        if isinstance(b, int) and b:
            sp = self.split(a, b)
            if sp:
                return self.setr(sp[0], ra[0] // b, ra[1] // b)
        e = self.lift(a, w) / self.lift(b, w)
        return self.setr(e, ra[0] // max(rb[1], 1), ra[1] // max(rb[0], 1))

    ufmod = False

    def urem(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int) and b:
            return a % b
        ra, rb = self.rng(a, w), self.rng(b, w)
        if ra[1] < rb[0]:
            return a
        if isinstance(b, int) and b:
            sp = self.split(a, b)
            if sp:
                return sp[1]
        if self.ufmod and not isinstance(b, int):
            # the remainder by an unknown divisor as an uninterpreted function with its range (spec key "ufmod")
            za, zb = self.lift(a, w), self.lift(b, w)
            e = z3.Function("umod", z3.IntSort(), z3.IntSort(), z3.IntSort())(za, zb)
            if e.get_id() not in self.rt:
                self.range_facts.append(z3.Implies(zb > 0, z3.And(e >= 0, e < zb, z3.Or(e == za, e < za))))
        else:
            e = self.lift(a, w) % self.lift(b, w)
        return self.setr(e, 0, min(ra[1], max(rb[1] - 1, 0)))

    def signed(self, a, w):
        H = 1 << (w - 1)
        if isinstance(a, int):
            return a - (1 << w) if a >= H else a
        r = self.rng(a, w)
        if r[1] < H:
            return a
        if r[0] >= H:
            return a - (1 << w)
        return z3.If(a >= H, a - (1 << w), a)

    def unsigned(self, s, w):
        """from signed mathematical value (known within signed range)"""
        if isinstance(s, int):
            return s % (1 << w)
        return self.setr(z3.If(s < 0, s + (1 << w), s), 0, (1 << w) - 1)

    def sdiv(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = self.signed(a, w), self.signed(b, w)
            qq = abs(sa) // abs(sb)
            return (qq if (sa < 0) == (sb < 0) else -qq) % (1 << w)
        ra, rb = self.rng(a, w), self.rng(b, w)
        H = 1 << (w - 1)
        if ra[1] < H and rb[1] < H:
            return self.udiv(a, b, w)
        sa, sb = self.signed(a, w), self.signed(b, w)
        za = z3.IntVal(sa) if isinstance(sa, int) else sa
        zb_ = z3.IntVal(sb) if isinstance(sb, int) else sb
        A, B = z3.If(za < 0, -za, za), z3.If(zb_ < 0, -zb_, zb_)
        qq = A / B
        return self.unsigned(z3.If((za < 0) == (zb_ < 0), qq, -qq), w)

    def srem(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = self.signed(a, w), self.signed(b, w)
            r = abs(sa) % abs(sb)
            return (-r if sa < 0 else r) % (1 << w)
        ra, rb = self.rng(a, w), self.rng(b, w)
        H = 1 << (w - 1)
        if ra[1] < H and rb[1] < H:
            return self.urem(a, b, w)
        sa, sb = self.signed(a, w), self.signed(b, w)
        za = z3.IntVal(sa) if isinstance(sa, int) else sa
        zb_ = z3.IntVal(sb) if isinstance(sb, int) else sb
        A, B = z3.If(za < 0, -za, za), z3.If(zb_ < 0, -zb_, zb_)
        r = A % B
        return self.unsigned(z3.If(za < 0, -r, r), w)

    def pow2(self, s, maxs):
        if isinstance(s, int):
            return 1 << s
        lo, hi = self.rng(s, 64)
        hi = min(hi, maxs)
        e = z3.IntVal(1 << hi)
        for v in range(hi - 1, lo - 1, -1):
            e = z3.If(s == v, z3.IntVal(1 << v), e)
        return self.setr(e, 1 << lo, 1 << hi)

    def shl(self, a, s, w, nuw=False):
        if isinstance(s, int):
            return self.mul(a, 1 << s, w, nuw) if s < w else 0
        lo, hi = self.rng(s, w)
        hi = min(hi, w - 1)
        if isinstance(a, int):
            e, rlo, rhi = None, None, 0
            for v in range(hi, lo - 1, -1):
                val = (a << v) % (1 << w)
                rlo = val if rlo is None else min(rlo, val)
                rhi = max(rhi, val)
                e = z3.IntVal(val) if e is None else z3.If(s == v, z3.IntVal(val), e)
            return self.setr(e, rlo, rhi)
        e, rhi = None, 0
        for v in range(hi, lo - 1, -1):
            val = self.mul(a, 1 << v, w, nuw)
            rhi = max(rhi, self.rng(val, w)[1])
            e = val if e is None else z3.If(s == v, self.lift(val, w), self.lift(e, w))
        return self.setr(e, 0, rhi)

    def lshr(self, a, s, w):
        if isinstance(s, int):
            return self.udiv(a, 1 << s, w) if s < w else 0
        lo, hi = self.rng(s, w)
        hi = min(hi, w - 1)
        e, rhi = None, 0
        for v in range(hi, lo - 1, -1):
            val = self.udiv(a, 1 << v, w)
            rhi = max(rhi, self.rng(val, w)[1])
            e = val if e is None else z3.If(s == v, self.lift(val, w), self.lift(e, w))
        return self.setr(e, 0, rhi) if not isinstance(e, int) else e

    def ashr(self, a, s, w):
        if self.rng(a, w)[1] < 1 << (w - 1):
            return self.lshr(a, s, w)
        if isinstance(s, int):
            sa = self.signed(a, w)
            if isinstance(sa, int):
                return (sa >> s) % (1 << w)
            return self.unsigned(sa / (1 << s), w)
        raise Unsupported("ashr variable")

    def and_(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return a & b
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b == 0:
                return 0
            hi = self.rng(a, w)[1]
            # restrict the mask to bits a can have
            b &= (1 << hi.bit_length()) - 1
            if b == (1 << hi.bit_length()) - 1:
                return a
            if b == 0:
                return 0
            terms, rhi, m, pos = [], 0, b, 0
            runs = []
            while m:
                while not m & 1:
                    m >>= 1
                    pos += 1
                ln = 0
                while m & 1:
                    m >>= 1
                    ln += 1
                runs.append((pos, ln))
                pos += ln
            if len(runs) > 6:
                return self.uf2("and", a, b, w, min(hi, b))
            for (p, ln) in runs:
                t = self.udiv(a, 1 << p, w)
                t = self.urem(t, 1 << ln, w)
                terms.append(t * (1 << p) if p else t)
            e = terms[0]
            for t in terms[1:]:
                e = e + t
            return self.setr(e, 0, min(b, hi))
        ra, rb = self.rng(a, w), self.rng(b, w)
        if same(a, b):
            return a
        if rb[1] <= 1:
            a, b, ra, rb = b, a, rb, ra
        if ra[1] <= 1:
            return self.ite(a == 1, self.urem(b, 2, w), 0, w)
        return self.uf2("and", a, b, w, min(ra[1], rb[1]))

    def uf2(self, nm, a, b, w, hi):
        a, b = self.lift(a, w), self.lift(b, w)
        if a.get_id() > b.get_id():
            a, b = b, a
        f = z3.Function("bit%s%d" % (nm, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
        e = f(a, b)
        self.app_range(e, w, 0, hi)
        self.range_facts.append(z3.And(e <= a, e <= b))
        return e

    def or_(self, a, b, w, disjoint=False):
        if isinstance(a, int) and isinstance(b, int):
            return a | b
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and b == 0:
            return a
        ra, rb = self.rng(a, w), self.rng(b, w)
        bound = (1 << max(ra[1], rb[1]).bit_length()) - 1
        if disjoint:
            return self.setr(self.add(a, b, w, True), max(ra[0], rb[0]), min(bound, ra[1] + rb[1]))
        # structural disjointness: one is a multiple of 2^k, the other < 2^k
        for x, y in ((a, b), (b, a)):
            hy = self.rng(y, w)[1]
            k = hy.bit_length()
            if self.multiple(x, k):
                return self.setr(self.lift(x, w) + self.lift(y, w), max(ra[0], rb[0]), min(bound, ra[1] + rb[1]))
        c = self.and_(a, b, w)
        return self.setr(self.lift(a, w) + self.lift(b, w) - c, max(ra[0], rb[0]), bound)

    def multiple(self, x, k):
        if k == 0:
            return True
        if isinstance(x, int):
            return x % (1 << k) == 0
        if z3.is_int_value(x):
            return x.as_long() % (1 << k) == 0
        if z3.is_mul(x):
            return any(z3.is_int_value(c) and c.as_long() % (1 << k) == 0 for c in x.children())
        if z3.is_add(x):
            return all(self.multiple(c, k) for c in x.children())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return self.multiple(x.arg(1), k) and self.multiple(x.arg(2), k)
        if z3.is_app_of(x, z3.Z3_OP_MOD) and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() % (1 << k) == 0:
            return self.multiple(x.arg(0), k)
        return False

    def xor(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and b == 0:
            return a
        if same(a, b):
            return 0
        if isinstance(b, int) and b == (1 << w) - 1:
            ra = self.rng(a, w)
            return self.setr(b - a, b - ra[1], b - ra[0])
        ra, rb = self.rng(a, w), self.rng(b, w)
        bound = (1 << max(ra[1], rb[1]).bit_length()) - 1
        c = self.and_(a, b, w)
        return self.setr(self.lift(a, w) + self.lift(b, w) - 2 * c, 0, bound)

    def zext(self, a, w, w2):
        return a

    def sext(self, a, w, w2):
        if isinstance(a, int):
            return self.signed(a, w) % (1 << w2)
        r = self.rng(a, w)
        if r[1] < 1 << (w - 1):
            return a
        d = (1 << w2) - (1 << w)
        return self.setr(z3.If(a >= (1 << (w - 1)), a + d, a), 0, (1 << w2) - 1)

    def trunc(self, a, w, w2):
        if isinstance(a, int):
            return a % (1 << w2)
        r = self.rng(a, w)
        if r[1] < 1 << w2:
            return a
        sp = self.split(a, 1 << w2)
        if sp:
            return sp[1]
        if self.q(a < (1 << w2)):
            return a
        return self.setr(a % (1 << w2), 0, (1 << w2) - 1)

    def cmp(self, pred, a, b, w):
        if pred[0] == "s":
            a, b = self.signed(a, w), self.signed(b, w)
        elif isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            ra, rb = self.rng(a, w), self.rng(b, w)
            p = pred[-2:]
            if pred in ("ult",) and ra[1] < rb[0] or pred == "ule" and ra[1] <= rb[0] or \
               pred == "ugt" and ra[0] > rb[1] or pred == "uge" and ra[0] >= rb[1]:
                return True
            if pred == "ult" and ra[0] >= rb[1] or pred == "ule" and ra[0] > rb[1] or \
               pred == "ugt" and ra[1] <= rb[0] or pred == "uge" and ra[1] < rb[0]:
                return False
            if pred in ("eq", "ne") and (ra[1] < rb[0] or rb[1] < ra[0]):
                return pred == "ne"
        if pred in ("eq", "ne") and same(a, b):
            return pred == "eq"
        if isinstance(a, int) and isinstance(b, int):
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[
                pred if pred in ("eq", "ne") else pred[1:]]
        p = pred if pred in ("eq", "ne") else pred[1:]
        if isinstance(a, int):
            a = z3.IntVal(a)
        if p == "eq":
            return a == b
        if p == "ne":
            return a != b
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]

    def b2v(self, c, w):
        if isinstance(c, bool):
            return int(c)
        return self.setr(z3.If(c, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def v2b(self, v, w):
        if isinstance(v, int):
            return bool(v & 1)
        if self.rng(v, w)[1] <= 1:
            return v == 1
        return (v % 2) == 1

    def bitfn(self, nm, a, w):
        if isinstance(a, int):
            if nm == "ctpop":
                return bin(a).count("1")
            if nm == "ctlz":
                return w - a.bit_length()
            if nm == "cttz":
                return w if a == 0 else (a & -a).bit_length() - 1
        f = z3.Function("%s%d" % (nm, w), z3.IntSort(), z3.IntSort())
        e = f(a)
        self.app_range(e, w, 0, w)
        if nm == "ctlz":
            # 2^(w-1-e) <= a < 2^(w-e)
            c = [z3.Implies(a == 0, e == w)]
            for v in range(w):
                c.append((e == v) == z3.And(a >= (1 << (w - 1 - v)), a < (1 << (w - v))))
            self.range_facts.append(z3.And(*c))
        return e

    def fsh(self, a, b, s, w, left):
        if isinstance(s, int):
            s %= w
            if s == 0:
                return a if left else b
            k = s if left else w - s
            return self.or_(self.shl(a, k, w), self.lshr(b, w - k, w), w)
        raise Unsupported("variable funnel shift in int theory")

    # linear decomposition of an index value (signed interpretation of w-bit)
    def index(self, a, w):
        return self.signed(a, w)

    def as_z(self, v, w):
        return z3.IntVal(v) if isinstance(v, int) else v


class BVTh(Theory):
    kind = "bv"

    def sort(self, w):
        return z3.BitVecSort(w)

    def idxsort(self):
        return z3.BitVecSort(64)

    def rng(self, a, w=None):
        if isinstance(a, int):
            return a, a
        r = self.rt.get(a.get_id())
        if r:
            return r[1], r[2]
        return 0, (1 << a.size()) - 1

    def setr(self, e, lo, hi):
        if not isinstance(e, int):
            self.rt[e.get_id()] = (e, lo, hi)
        return e

    def fresh(self, nm, w, lo=0, hi=None):
        v = z3.BitVec(self.name(nm), w)
        full = (1 << w) - 1
        if hi is None:
            hi = full
        if lo > 0:
            self.range_facts.append(z3.UGE(v, lo))
        if hi < full:
            self.range_facts.append(z3.ULE(v, hi))
        self.setr(v, lo, hi)
        return v

    def app_range(self, e, w, lo=0, hi=None):
        full = (1 << w) - 1
        hi = full if hi is None else hi
        if e.get_id() not in self.rt and (not isinstance(lo, int) or not isinstance(hi, int) or lo > 0 or hi < full):
            ex = lambda x: x if isinstance(x, int) or x.size() == w else (z3.Extract(w - 1, 0, x) if x.size() > w else z3.ZeroExt(w - x.size(), x))
            self.arange.add(len(self.range_facts))
            self.range_facts.append(z3.And(z3.UGE(e, ex(lo)), z3.ULE(e, ex(hi))))
        self.setr(e, lo if isinstance(lo, int) else 0, hi if isinstance(hi, int) else full)
        return e

    def lift(self, v, w):
        return z3.BitVecVal(v, w) if isinstance(v, int) else v

    as_z = lift

    def ite(self, c, a, b, w):
        if c is True:
            return a
        if c is False:
            return b
        if same(a, b):
            return a
        return z3.If(c, self.lift(a, w), self.lift(b, w))

    def _bin(self, a, b, w, fi, fz):
        if isinstance(a, int) and isinstance(b, int):
            return fi(a, b) % (1 << w)
        return fz(self.lift(a, w), self.lift(b, w))

    def add(self, a, b, w, nuw=False):
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, int) and a == 0:
            return b
        if isinstance(b, int) and z3.is_expr(a) and z3.is_app_of(a, z3.Z3_OP_BADD) and z3.is_bv_value(a.arg(a.num_args() - 1)) \
                and a.num_args() == 2:
            c = (a.arg(1).as_long() + b) % (1 << w)
            return a.arg(0) if c == 0 else a.arg(0) + z3.BitVecVal(c, w)
        return self._bin(a, b, w, lambda x, y: x + y, lambda x, y: x + y)

    def sub(self, a, b, w, nuw=False):
        if isinstance(b, int):
            return self.add(a, (-b) % (1 << w), w)
        if same(a, b):
            return 0
        if self.ufmod and z3.is_expr(b) and z3.is_app_of(b, z3.Z3_OP_BMUL) and b.num_args() == 2 and z3.is_expr(a):
            # a - (a / d) * d is the remainder
            for q, d in ((b.arg(0), b.arg(1)), (b.arg(1), b.arg(0))):
                if q.num_args() == 2 and q.decl().name() == "udiv%d" % w and q.arg(0).eq(a) and q.arg(1).eq(d):
                    return self.umod(a, d, w)
        return self._bin(a, b, w, lambda x, y: x - y, lambda x, y: x - y)

    def mul(self, a, b, w, nuw=False):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and x == 0:
                return 0
            if isinstance(x, int) and x == 1:
                return y
        return self._bin(a, b, w, lambda x, y: x * y, lambda x, y: x * y)

    def udiv(self, a, b, w):
        if isinstance(b, int) and b and b & (b - 1) == 0:
            return self.lshr(a, b.bit_length() - 1, w)
        if self.ufmod and not isinstance(b, int):
            return z3.Function("udiv%d" % w, *[z3.BitVecSort(w)] * 3)(self.lift(a, w), b)
        return self._bin(a, b, w, lambda x, y: x // y, z3.UDiv)

    ufmod = False

    def urem(self, a, b, w):
        if isinstance(b, int) and b and b & (b - 1) == 0:
            return self.and_(a, b - 1, w)
        if self.ufmod and not isinstance(b, int):
            return self.umod(self.lift(a, w), b, w)
        return self._bin(a, b, w, lambda x, y: x % y, z3.URem)

    def umod(self, a, b, w):
        """the remainder by an unknown divisor as an uninterpreted function with its range (spec key "ufmod")"""
        e = z3.Function("umod%d" % w, *[z3.BitVecSort(w)] * 3)(a, b)
        if e.get_id() not in self.rt:
            self.range_facts.append(z3.Implies(b != 0, z3.And(z3.ULT(e, b), z3.ULE(e, a))))
        r = self.rng(b, w)
        return self.setr(e, 0, max(r[1] - 1, 0))

    def signed(self, a, w):
        if isinstance(a, int) and a >= 1 << (w - 1):
            return a - (1 << w)
        return a

    def sdiv(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return IntTh.sdiv(self, a, b, w)
        return self.lift(a, w) / self.lift(b, w)

    def srem(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return IntTh.srem(self, a, b, w)
        return z3.SRem(self.lift(a, w), self.lift(b, w))

    def shl(self, a, s, w, nuw=False):
        if isinstance(s, int) and s >= w:
            return 0
        if isinstance(s, int) and s == 0:
            return a
        return self._bin(a, s, w, lambda x, y: x << y, lambda x, y: x << y)

    def lshr(self, a, s, w):
        if isinstance(s, int) and s >= w:
            return 0
        if isinstance(s, int) and s == 0:
            return a
        return self._bin(a, s, w, lambda x, y: x >> y, z3.LShR)

    def ashr(self, a, s, w):
        if isinstance(a, int) and isinstance(s, int):
            return (self.signed(a, w) >> s) % (1 << w)
        return self.lift(a, w) >> self.lift(s, w)

    def and_(self, a, b, w):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and x == 0:
                return 0
            if isinstance(x, int) and x == (1 << w) - 1:
                return y
        return self._bin(a, b, w, lambda x, y: x & y, lambda x, y: x & y)

    def or_(self, a, b, w, disjoint=False):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and x == 0:
                return y
        return self._bin(a, b, w, lambda x, y: x | y, lambda x, y: x | y)

    def xor(self, a, b, w):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and x == 0:
                return y
        if same(a, b):
            return 0
        return self._bin(a, b, w, lambda x, y: x ^ y, lambda x, y: x ^ y)

    def zext(self, a, w, w2):
        return a if isinstance(a, int) else z3.ZeroExt(w2 - w, a)

    def sext(self, a, w, w2):
        return self.signed(a, w) % (1 << w2) if isinstance(a, int) else z3.SignExt(w2 - w, a)

    def trunc(self, a, w, w2):
        if isinstance(a, int):
            return a % (1 << w2)
        if z3.is_app_of(a, z3.Z3_OP_ZERO_EXT) and a.arg(0).size() == w2:
            return a.arg(0)
        return z3.Extract(w2 - 1, 0, a)

    def cmp(self, pred, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a, b = self.signed(a, w), self.signed(b, w)
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[
                pred if pred in ("eq", "ne") else pred[1:]]
        if pred in ("eq", "ne") and same(a, b):
            return pred == "eq"
        A, B = self.lift(a, w), self.lift(b, w)
        return {"eq": lambda: A == B, "ne": lambda: A != B, "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B),
                "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B), "slt": lambda: A < B, "sle": lambda: A <= B,
                "sgt": lambda: A > B, "sge": lambda: A >= B}[pred]()

    def b2v(self, c, w):
        if isinstance(c, bool):
            return int(c)
        return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))

    def v2b(self, v, w):
        if isinstance(v, int):
            return bool(v & 1)
        return z3.Extract(0, 0, v) == 1

    def bitfn(self, nm, a, w):
        if isinstance(a, int):
            return IntTh.bitfn(self, nm, a, w)
        if nm == "ctpop":
            e = z3.BitVecVal(0, w)
            for i in range(w):
                e = e + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
            return e
        if nm == "ctlz":
            e = z3.BitVecVal(w, w)
            for i in range(w):
                e = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), e)
            return e
        e = z3.BitVecVal(w, w)
        for i in reversed(range(w)):
            e = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), e)
        return e

    def fsh(self, a, b, s, w, left):
        if isinstance(s, int):
            s %= w
            if s == 0:
                return a if left else b
            k = s if left else w - s
            return self.or_(self.shl(a, k, w), self.lshr(b, w - k, w), w)
        A, B, S = self.lift(a, w), self.lift(b, w), z3.URem(s, z3.BitVecVal(w, w))
        if left:
            return z3.If(S == 0, A, (A << S) | z3.LShR(B, z3.BitVecVal(w, w) - S))
        return z3.If(S == 0, B, z3.LShR(B, S) | (A << (z3.BitVecVal(w, w) - S)))

    def index(self, a, w):
        if isinstance(a, int):
            return self.signed(a, w)
        if w < 64:
            return z3.SignExt(64 - w, a)
        return a
