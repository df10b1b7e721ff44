"""Second decision procedure: bit-vector obligations as linear integer arithmetic.

Every w-bit term is read as a signed integer; each operation that may wrap gets
an explicit multiple of 2^w.  Terms outside the fragment become unconstrained
integers, so the translation only ever loses information: `unsat` is sound.
"""
import z3


class LIA:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.n = 0

    def new(self, w):
        self.n += 1
        v = z3.Int('u!%d' % self.n)
        self.rng(v, w)
        return v

    def rng(self, v, w):
        self.side.append(v >= -(1 << (w - 1)))
        self.side.append(v < (1 << (w - 1)))

    def wrap(self, e, w):
        """signed w-bit value of integer e"""
        self.n += 1
        k = z3.Int('k!%d' % self.n)
        r = z3.Int('r!%d' % self.n)
        self.side.append(r == e - k * (1 << w))
        self.rng(r, w)
        return r

    def uns(self, t):
        w = t.size()
        x = self.bv(t)
        if isinstance(x, z3.IntNumRef):
            v = x.as_long()
            return z3.IntVal(v if v >= 0 else v + (1 << w))
        return z3.If(x < 0, x + (1 << w), x)

    def bv(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = (self._bv(t), t)
            self.memo[k] = r
        return r[0]

    def _bv(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_signed_long())
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_UNINTERPRETED and not ch:
            v = z3.Int('v!' + t.decl().name())
            self.rng(v, w)
            return v
        if d == z3.Z3_OP_BADD:
            e = self.bv(ch[0])
            for c in ch[1:]:
                e = e + self.bv(c)
            return self.wrap(e, w)
        if d == z3.Z3_OP_BSUB:
            e = self.bv(ch[0])
            for c in ch[1:]:
                e = e - self.bv(c)
            return self.wrap(e, w)
        if d == z3.Z3_OP_BNEG:
            return self.wrap(-self.bv(ch[0]), w)
        if d == z3.Z3_OP_BMUL and len(ch) == 2 and (z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1])):
            c, x = (ch[0], ch[1]) if z3.is_bv_value(ch[0]) else (ch[1], ch[0])
            return self.wrap(c.as_signed_long() * self.bv(x), w)
        if d == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.bv(ch[1]), self.bv(ch[2]))
        if d == z3.Z3_OP_SIGN_EXT:
            return self.bv(ch[0])
        if d == z3.Z3_OP_ZERO_EXT:
            return self.uns(ch[0])
        if d == z3.Z3_OP_EXTRACT and t.params()[1] == 0:
            return self.wrap(self.bv(ch[0]), w)
        if d == z3.Z3_OP_CONCAT and all(z3.is_bv_value(c) and c.as_long() == 0 for c in ch[:-1]):
            return self.uns(ch[-1])
        return self.new(w)

    def b(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = (self._b(t), t)
            self.memo[k] = r
        return r[0]

    def _b(self, t):
        d = t.decl().kind()
        ch = t.children()
        if z3.is_true(t) or z3.is_false(t):
            return t
        if d == z3.Z3_OP_AND:
            return z3.And(*[self.b(c) for c in ch])
        if d == z3.Z3_OP_OR:
            return z3.Or(*[self.b(c) for c in ch])
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if d == z3.Z3_OP_XOR:
            return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if d == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bv(ch[0]):
                e = self.bv(ch[0]) == self.bv(ch[1])
            elif z3.is_bool(ch[0]):
                e = self.b(ch[0]) == self.b(ch[1])
            else:
                return self.fresh_b()
            return e if d == z3.Z3_OP_EQ else z3.Not(e)
        S = {z3.Z3_OP_SLEQ: lambda a, b: a <= b, z3.Z3_OP_SGEQ: lambda a, b: a >= b, z3.Z3_OP_SLT: lambda a, b: a < b, z3.Z3_OP_SGT: lambda a, b: a > b}
        U = {z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_UGEQ: lambda a, b: a >= b, z3.Z3_OP_ULT: lambda a, b: a < b, z3.Z3_OP_UGT: lambda a, b: a > b}
        if d in S:
            return S[d](self.bv(ch[0]), self.bv(ch[1]))
        if d in U:
            return U[d](self.uns(ch[0]), self.uns(ch[1]))
        if d == z3.Z3_OP_UNINTERPRETED and not ch:
            return t
        return self.fresh_b()

    def fresh_b(self):
        self.n += 1
        return z3.Bool('b!%d' % self.n)


def unsat(conds, timeout_ms):
    L = LIA()
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    for c in conds:
        if c is True:
            continue
        if c is False:
            return True
        s.add(L.b(c))
    for c in L.side:
        s.add(c)
    return s.check() == z3.unsat


def scaled(conds):
    """does a condition multiply by a large constant (unit conversions)?"""
    seen = set()
    work = [c for c in conds if isinstance(c, z3.ExprRef)]
    while work:
        t = work.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if t.decl().kind() == z3.Z3_OP_BMUL and any(z3.is_bv_value(c) and 1000 <= abs(c.as_signed_long()) < (1 << 62) for c in t.children()):
            return True
        work.extend(t.children())
    return False
