"""Decision procedure for boolean functions over GF(2): a bit-vector goal is expanded to algebraic normal form
(a set of monomials per bit).  ANF is canonical, so the goal is valid iff its ANF is the constant 1."""
import z3

ONE = frozenset([frozenset()])
ZERO = frozenset()


class Blowup(Exception):
    pass


class Anf:
    def __init__(self, limit=2000000):
        self.vars, self.memo, self.limit, self.keep = {}, {}, limit, []

    def var(self, name, i):
        return frozenset([frozenset([self.vars.setdefault((name, i), len(self.vars))])])

    def mul(self, a, b):
        if a == ONE:
            return b
        if b == ONE:
            return a
        if not a or not b:
            return ZERO
        if a == b:
            return a
        if len(a) * len(b) > self.limit:
            raise Blowup()
        r = set()
        for x in a:
            for y in b:
                r ^= {x | y}
        return frozenset(r)

    def ite(self, c, a, b):
        return b ^ self.mul(c, a ^ b)

    def bits(self, e):
        """little endian list of ANFs (bit vectors) or one-element list (bool)"""
        st = [e]
        while st:
            x = st[-1]
            if x.get_id() in self.memo:
                st.pop()
                continue
            todo = [c for c in x.children() if c.get_id() not in self.memo]
            if todo:
                st.extend(todo)
                continue
            self.memo[x.get_id()] = self.node(x)
            self.keep.append(x)
            st.pop()
        return self.memo[e.get_id()]

    def node(self, x):
        k = x.decl().kind()
        ch = [self.memo[c.get_id()] for c in x.children()]
        if z3.is_bv_value(x):
            v = x.as_long()
            return [ONE if v >> i & 1 else ZERO for i in range(x.size())]
        if z3.is_true(x):
            return [ONE]
        if z3.is_false(x):
            return [ZERO]
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            n = x.size() if z3.is_bv(x) else 1
            return [self.var(str(x), i) for i in range(n)]
        w = x.size() if z3.is_bv(x) else 1
        if k in (z3.Z3_OP_BXOR, z3.Z3_OP_XOR):
            return [self.xors([c[i] for c in ch]) for i in range(w)]
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_AND):
            return [self.prod([c[i] for c in ch]) for i in range(w)]
        if k in (z3.Z3_OP_BOR, z3.Z3_OP_OR):
            return [self.prod([c[i] ^ ONE for c in ch]) ^ ONE for i in range(w)]
        if k in (z3.Z3_OP_BNOT, z3.Z3_OP_NOT):
            return [b ^ ONE for b in ch[0]]
        if k == z3.Z3_OP_CONCAT:
            r = []
            for c in reversed(ch):
                r += c
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            return ch[0][lo:hi + 1]
        if k == z3.Z3_OP_ZERO_EXT:
            return ch[0] + [ZERO] * (w - len(ch[0]))
        if k == z3.Z3_OP_SIGN_EXT:
            return ch[0] + [ch[0][-1]] * (w - len(ch[0]))
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR):
            if not z3.is_bv_value(x.arg(1)):
                raise Blowup("symbolic shift")
            n = min(x.arg(1).as_long(), w)
            if k == z3.Z3_OP_BSHL:
                return [ZERO] * n + ch[0][:w - n]
            f = ch[0][-1] if k == z3.Z3_OP_BASHR else ZERO
            return ch[0][n:] + [f] * n
        if k == z3.Z3_OP_ITE:
            c = ch[0][0]
            return [self.ite(c, a, b) for a, b in zip(ch[1], ch[2])]
        if k == z3.Z3_OP_IMPLIES:
            return [self.mul(ch[0][0], ch[1][0] ^ ONE) ^ ONE]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT):
            r = ONE
            for a, b in zip(ch[0], ch[1]):
                r = self.mul(r, a ^ b ^ ONE)
            return [r ^ ONE] if k == z3.Z3_OP_DISTINCT else [r]
        if k in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ) and z3.is_bv_value(x.arg(1)):
            v = x.arg(1).as_long()
            s = ch[0][-1]
            if k == z3.Z3_OP_SLT and v == 0:
                return [s]
            if k == z3.Z3_OP_SGEQ and v == 0:
                return [s ^ ONE]
            if k == z3.Z3_OP_SGT and v == (1 << len(ch[0])) - 1:
                return [s ^ ONE]
            if k == z3.Z3_OP_SLEQ and v == (1 << len(ch[0])) - 1:
                return [s]
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
            c = ZERO if k == z3.Z3_OP_BADD else ONE
            acc = ch[0]
            for b in ch[1:]:
                c = ZERO if k == z3.Z3_OP_BADD else ONE
                out = []
                for p, q in zip(acc, b):
                    if k == z3.Z3_OP_BSUB:
                        q = q ^ ONE
                    out.append(p ^ q ^ c)
                    c = self.mul(p, q) ^ self.mul(c, p ^ q)
                    if len(c) > self.limit:
                        raise Blowup()
                acc = out
            return acc
        raise Blowup("operator " + x.decl().name())

    def xors(self, l):
        r = l[0]
        for y in l[1:]:
            r = r ^ y
        return r

    def prod(self, l):
        if any(not x for x in l):
            return ZERO
        r = l[0]
        for y in l[1:]:
            r = self.mul(r, y)
        return r


def decide(goal, anf=None):
    """'valid' | 'invalid' | None"""
    anf = anf or Anf()
    try:
        # conjunctions / equalities are decided bit by bit (a product of non-constant factors would blow up)
        todo = [goal]
        bad = False
        while todo:
            g = todo.pop()
            if z3.is_and(g):
                todo += g.children()
                continue
            if z3.is_eq(g) and z3.is_bv(g.arg(0)):
                a, b = anf.bits(g.arg(0)), anf.bits(g.arg(1))
                if any(x != y for x, y in zip(a, b)):
                    return "invalid"
                continue
            if anf.bits(g)[0] != ONE:
                return "invalid"
        return "valid"
    except Blowup:
        return None
