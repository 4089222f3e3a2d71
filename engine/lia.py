"""Bit-vector formulas as integer arithmetic.

Every bit-vector term becomes an integer term in [0, 2^w).  Sums, products by
constants, shifts by constants, divisions by constants, extractions and
concatenations are translated exactly (with a bounded number of wraps when
interval analysis cannot exclude them); everything else becomes an unknown
integer of the right range, so "unsat" carries over to the original formula
and nothing else is used.
"""
import z3

V = z3.IntVal


class Lia:
    def __init__(self, bounds):
        self.bounds = bounds  # id -> (lo, hi) of terms, facts of the path condition
        self.cache = {}
        self.side = []
        self.n = 0
        self.keep = []

    def fresh(self, lo, hi):
        self.n += 1
        x = z3.Int('lia!%d' % self.n)
        self.side.append(x >= lo)
        self.side.append(x <= hi)
        return x

    def opaque(self, t, lo=0, hi=None):
        w = t.size()
        m = (1 << w) - 1
        hi = m if hi is None else min(hi, m)
        b = self.bounds.get(t.get_id())
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        return self.fresh(lo, hi), lo, hi

    def wrap(self, e, lo, hi, w):
        """e in [lo, hi] modulo 2^w"""
        m = 1 << w
        k0, k1 = lo // m, hi // m
        if k0 == k1:
            return (e - k0 * m if k0 else e), lo - k0 * m, hi - k0 * m
        d = self.fresh(0, m - 1)
        k = self.fresh(k0, k1)
        self.side.append(d == e - k * m)
        return d, 0, m - 1

    def tz(self, t):
        """number of low bits known to be zero"""
        k = t.decl().kind()
        if z3.is_bv_value(t):
            v = t.as_long()
            return t.size() if v == 0 else (v & -v).bit_length() - 1
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
            return min(t.size(), t.arg(1).as_long() + self.tz(t.arg(0)))
        if k == z3.Z3_OP_CONCAT:
            n = 0
            for c in reversed(t.children()):
                z = self.tz(c)
                n += z
                if z < c.size():
                    break
            return n
        if k == z3.Z3_OP_BMUL:
            return min(t.size(), sum(self.tz(c) for c in t.children()))
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BOR):
            return min(self.tz(c) for c in t.children())
        return 0

    def term(self, t):
        i = t.get_id()
        r = self.cache.get(i)
        if r is None:
            e, lo, hi = self.term1(t)
            b = self.bounds.get(i)
            if b:
                lo, hi = max(lo, b[0]), min(hi, b[1])
            r = self.cache[i] = (e, lo, hi)
            self.keep.append(t)
        return r

    def term1(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return V(v), v, v
        if not z3.is_app(t):
            return self.opaque(t)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_BADD:
            e, lo, hi = None, 0, 0
            for c in ch:
                x, a, b = self.signed_part(c)
                e = x if e is None else e + x
                lo, hi = lo + a, hi + b
            return self.wrap(e, lo, hi, w)
        if k == z3.Z3_OP_BSUB and len(ch) == 2:
            x, a, b = self.term(ch[0])
            y, c, d = self.term(ch[1])
            return self.wrap(x - y, a - d, b - c, w)
        if k == z3.Z3_OP_BNEG:
            x, a, b = self.term(ch[0])
            return self.wrap(-x, -b, -a, w)
        if k == z3.Z3_OP_BNOT:
            x, a, b = self.term(ch[0])
            m = (1 << w) - 1
            return m - x, m - b, m - a
        if k == z3.Z3_OP_BMUL and len(ch) == 2 and any(z3.is_bv_value(c) for c in ch):
            x, a, b = self.signed_part(t)
            return self.wrap(x, a, b, w)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= w:
                return V(0), 0, 0
            x, a, b = self.term(ch[0])
            return self.wrap(x * (1 << s), a << s, b << s, w)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= w:
                return V(0), 0, 0
            return self.div(ch[0], 1 << s)[0]
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            return self.div(ch[0], ch[1].as_long())[0]
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            return self.div(ch[0], ch[1].as_long())[1]
        if k == z3.Z3_OP_ZERO_EXT:
            return self.term(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            x, a, b = self.term(ch[0])
            n = ch[0].size()
            h = 1 << (n - 1)
            if b < h:
                return x, a, b
            up = (1 << w) - (1 << n)
            if a >= h:
                return x + up, a + up, b + up
            return z3.If(x >= h, x + up, x), 0, (1 << w) - 1
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = t.params()
            if lo_ == 0:
                return self.div(ch[0], 1 << (hi_ + 1))[1]
            (q, a, b), _ = self.div(ch[0], 1 << lo_)
            n = hi_ - lo_ + 1
            if b < 1 << n:
                return q, a, b
            k2 = self.fresh(a >> n, b >> n)
            d = self.fresh(0, (1 << n) - 1)
            self.side.append(q == k2 * (1 << n) + d)
            return d, 0, (1 << n) - 1
        if k == z3.Z3_OP_CONCAT:
            e, lo, hi = V(0), 0, 0
            for c in ch:
                x, a, b = self.term(c)
                n = c.size()
                e = e * (1 << n) + x if not z3.is_int_value(e) or e.as_long() else x
                lo, hi = (lo << n) + a, (hi << n) + b
            return e, lo, hi
        if k == z3.Z3_OP_ITE:
            c = self.bool(ch[0])
            x, a, b = self.term(ch[1])
            y, p, q = self.term(ch[2])
            return z3.If(c, x, y), min(a, p), max(b, q)
        if k == z3.Z3_OP_BAND:
            cs = [c for c in ch if z3.is_bv_value(c)]
            vs = [c for c in ch if not z3.is_bv_value(c)]
            if len(cs) == 1 and len(vs) == 1:
                m = cs[0].as_long()
                if m & (m + 1) == 0:
                    return self.div(vs[0], m + 1)[1]
                return self.opaque(t, 0, m)
            his = [self.term(c)[2] for c in ch]
            x, lo, hi = self.opaque(t, 0, min(his))
            for c in ch:
                self.side.append(x <= self.term(c)[0])
            return x, lo, hi
        if k == z3.Z3_OP_BOR:
            if len(ch) == 2:
                for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                    x, p, q = self.term(b)
                    if q < 1 << self.tz(a):
                        y, r, s = self.term(a)
                        return x + y, p + r, q + s
            x, lo, hi = self.opaque(t)
            for c in ch:
                self.side.append(x >= self.term(c)[0])
            return x, lo, hi
        return self.opaque(t)

    def signed_part(self, c):
        """addend as integer term, with coefficients read as signed"""
        if z3.is_bv_value(c):
            v = c.as_long()
            if v >> (c.size() - 1):
                v -= 1 << c.size()
            return V(v), v, v
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_BMUL and c.num_args() == 2:
            x, y = c.children()
            if z3.is_bv_value(y):
                x, y = y, x
            if z3.is_bv_value(x):
                v = x.as_long()
                if v >> (c.size() - 1):
                    v -= 1 << c.size()
                e, a, b = self.term(y)
                return e * v, min(a * v, b * v), max(a * v, b * v)
        return self.term(c)

    def div(self, t, c):
        x, a, b = self.term(t)
        if c == 1:
            return (x, a, b), (V(0), 0, 0)
        key = ('div', t.get_id(), c)
        r = self.cache.get(key)
        if r is None:
            if b < c:
                r = (V(0), 0, 0), (x, a, b)
            else:
                q = self.fresh(a // c, b // c)
                m = self.fresh(0, c - 1)
                self.side.append(x == q * c + m)
                r = (q, a // c, b // c), (m, 0, c - 1)
            self.cache[key] = r
        return r

    def bool(self, t):
        i = ('b', t.get_id())
        r = self.cache.get(i)
        if r is None:
            r = self.cache[i] = self.bool1(t)
            self.keep.append(t)
        return r

    def bool1(self, t):
        if z3.is_quantifier(t) or not z3.is_app(t):
            return self.freshbool()
        k = t.decl().kind()
        ch = t.children()
        if z3.is_true(t) or z3.is_false(t):
            return t
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.bool(ch[0]))
        if k == z3.Z3_OP_AND:
            return z3.And([self.bool(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.bool(c) for c in ch])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.bool(ch[0]), self.bool(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.bool(ch[0]), self.bool(ch[1]), self.bool(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_XOR, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bv(ch[0]):
                e = self.term(ch[0])[0] == self.term(ch[1])[0]
            elif z3.is_bool(ch[0]):
                e = self.bool(ch[0]) == self.bool(ch[1])
            else:
                return self.freshbool()
            return e if k == z3.Z3_OP_EQ else z3.Not(e)
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            x, y = self.term(ch[0])[0], self.term(ch[1])[0]
            return {z3.Z3_OP_ULEQ: x <= y, z3.Z3_OP_ULT: x < y, z3.Z3_OP_UGEQ: x >= y, z3.Z3_OP_UGT: x > y}[k]
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            x, y = self.signed(ch[0]), self.signed(ch[1])
            return {z3.Z3_OP_SLEQ: x <= y, z3.Z3_OP_SLT: x < y, z3.Z3_OP_SGEQ: x >= y, z3.Z3_OP_SGT: x > y}[k]
        return self.freshbool()

    def signed(self, t):
        x, a, b = self.term(t)
        h = 1 << (t.size() - 1)
        if b < h:
            return x
        if a >= h:
            return x - 2 * h
        return z3.If(x >= h, x - 2 * h, x)

    def freshbool(self):
        self.n += 1
        return z3.Bool('lia!b%d' % self.n)


def bounds_of(pc):
    """constant bounds of terms, from top-level comparisons"""
    out = {}

    def put(t, lo, hi):
        i = t.get_id()
        a, b = out.get(i, (0, (1 << t.size()) - 1))
        out[i] = (max(a, lo), min(b, hi))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONCAT and t.num_args() == 2 and \
                z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
            put(t.arg(1), lo, hi)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ZERO_EXT:
            put(t.arg(0), lo, hi)

    for t in pc:
        neg = False
        while z3.is_not(t):
            t = t.arg(0)
            neg = not neg
        if not z3.is_app(t) or t.num_args() != 2 or not z3.is_bv(t.arg(0)):
            continue
        k = t.decl().kind()
        a, b = t.arg(0), t.arg(1)
        if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = b, a
            k = z3.Z3_OP_ULEQ if k == z3.Z3_OP_UGEQ else z3.Z3_OP_ULT
        m = (1 << a.size()) - 1
        if k == z3.Z3_OP_EQ and not neg:
            for x, y in ((a, b), (b, a)):
                if z3.is_bv_value(y) and not z3.is_bv_value(x):
                    put(x, y.as_long(), y.as_long())
            continue
        if k not in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT):
            continue
        strict = k == z3.Z3_OP_ULT
        if neg:
            a, b, strict = b, a, not strict
        # a <= b (a < b when strict)
        if z3.is_bv_value(b) and not z3.is_bv_value(a):
            put(a, 0, b.as_long() - (1 if strict else 0))
        elif z3.is_bv_value(a) and not z3.is_bv_value(b):
            put(b, a.as_long() + (1 if strict else 0), m)
    return out


def proves(pc, goal, ms):
    bs = bounds_of(pc)
    # x <= y <= const
    L = Lia(bs)
    try:
        fs = [L.bool(t) for t in pc] + [z3.Not(L.bool(goal))]
    except RecursionError:
        return False
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', int(ms))
    s.add(L.side)
    s.add(fs)
    return s.check() == z3.unsat
