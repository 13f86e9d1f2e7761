"""Bit-vector constraints as linear integer arithmetic with division by constants.  Exact: every supported term is
translated to an integer congruent to it modulo 2^width together with an interval that contains it; anything else raises
Unsupported.  Digit conversions (shift-and-add division by ten) are out of reach of bit blasting and immediate here."""
import functools
import operator
import random
import re
import z3


class Unsupported(Exception):
    pass


def pieces(t):
    if t.decl().kind() != z3.Z3_OP_CONCAT:
        return [t]
    return [p for c in t.children() for p in pieces(c)]


def word_of(t):
    """k if t is the k-th input word"""
    if t.decl().kind() != z3.Z3_OP_CONCAT or t.size() != 32:
        return None
    ch = pieces(t)
    if len(ch) != 4:
        return None
    ix = []
    for c in ch:
        m = re.match(r'in(\d+)$', c.decl().name()) if c.num_args() == 0 else None
        if not m:
            return None
        ix.append(int(m.group(1)))
    return ix[3] // 4 if ix[3] % 4 == 0 and ix == [ix[3] + 3, ix[3] + 2, ix[3] + 1, ix[3]] else None


P10 = [10 ** k for k in range(10)]


class Lia:
    """One translator per set of bounds of the input words, kept by the caller (see Cache)."""

    def __init__(self, bounds):
        self.bounds = bounds
        self.cache = {}
        self.keep = []
        self.words = {}
        self.vals = {}
        self.lemmas = 0
        self.diffs = {}
        self.levels, self.defs, self.digit, self.ranges, self.linear = {}, {}, {}, [], []
        self.R = random.Random(7)

    # sample values, to guess which terms are quotients and digits; every guess is proved before it is used
    def sample_word(self, k):
        lo, hi = self.bounds.get(k, (-2**31, 2**31 - 1))
        r = random.Random(k)
        out = [lo, hi, (lo + hi) // 2]
        while len(out) < 24:
            a = r.randrange(1 << r.randrange(1, 32))
            out += [x for x in (a, -a, lo + a, hi - a) if lo <= x <= hi]
        return tuple(x & 0xFFFFFFFF for x in out[:24])

    def val(self, t):
        k = t.get_id()
        if k not in self.vals:
            self.vals[k] = self.val1(t)
            self.keep.append(t)
        return self.vals[k]

    def val1(self, t):
        n, k = t.size(), t.decl().kind()
        M = (1 << n) - 1
        if z3.is_bv_value(t):
            return (t.as_long(),) * 24
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            i = int(t.decl().name()[2:])
            return tuple(x >> 8 * (i % 4) & 255 for x in self.sample_word(i // 4))
        if k == z3.Z3_OP_ITE:
            return tuple(a if c else b for c, a, b in zip(self.bval(t.arg(0)), self.val(t.arg(1)), self.val(t.arg(2))))
        a = [self.val(c) for c in t.children()]
        sg = lambda x, w=n: x - (1 << w) if x >> (w - 1) else x
        if k == z3.Z3_OP_BADD:
            f = lambda *x: sum(x)
        elif k == z3.Z3_OP_BSUB:
            f = lambda x, y: x - y
        elif k == z3.Z3_OP_BNEG:
            f = lambda x: -x
        elif k == z3.Z3_OP_BMUL:
            f = lambda *x: functools.reduce(lambda p, q: p * q, x)
        elif k == z3.Z3_OP_BSHL:
            f = lambda x, y: x << y if y < n else 0
        elif k == z3.Z3_OP_BLSHR:
            f = lambda x, y: x >> y
        elif k == z3.Z3_OP_BASHR:
            f = lambda x, y: sg(x) >> y
        elif k == z3.Z3_OP_BNOT:
            f = lambda x: ~x
        elif k == z3.Z3_OP_BXOR:
            f = lambda *x: functools.reduce(lambda p, q: p ^ q, x)
        elif k == z3.Z3_OP_BOR:
            f = lambda *x: functools.reduce(lambda p, q: p | q, x)
        elif k == z3.Z3_OP_BAND:
            f = lambda *x: functools.reduce(lambda p, q: p & q, x)
        elif k == z3.Z3_OP_CONCAT:
            ws = [c.size() for c in t.children()]

            def f(*x):
                r = 0
                for v, w in zip(x, ws):
                    r = r << w | v
                return r
        elif k == z3.Z3_OP_EXTRACT:
            lo = t.params()[1]
            f = lambda x: x >> lo
        elif k == z3.Z3_OP_ZERO_EXT:
            f = lambda x: x
        elif k == z3.Z3_OP_SIGN_EXT:
            w = t.arg(0).size()
            f = lambda x: sg(x, w)
        elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
            f = lambda x, y: x // y if y else M
        elif k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            f = lambda x, y: x % y if y else x
        else:
            raise Unsupported('value')
        return tuple(f(*x) & M for x in zip(*a))

    def bval(self, f):
        k = f.decl().kind()
        if z3.is_true(f) or z3.is_false(f):
            return (z3.is_true(f),) * 24
        if k == z3.Z3_OP_NOT:
            return tuple(not x for x in self.bval(f.arg(0)))
        if k == z3.Z3_OP_EQ and z3.is_bv(f.arg(0)):
            return tuple(x == y for x, y in zip(self.val(f.arg(0)), self.val(f.arg(1))))
        cmps = {z3.Z3_OP_SLEQ: (1, operator.le), z3.Z3_OP_SLT: (1, operator.lt), z3.Z3_OP_SGEQ: (1, operator.ge),
                z3.Z3_OP_SGT: (1, operator.gt), z3.Z3_OP_ULEQ: (0, operator.le), z3.Z3_OP_ULT: (0, operator.lt),
                z3.Z3_OP_UGEQ: (0, operator.ge), z3.Z3_OP_UGT: (0, operator.gt)}
        if k in cmps:
            h, op = cmps[k]
            h <<= f.arg(0).size() - 1
            return tuple(op(x ^ h, y ^ h) for x, y in zip(self.val(f.arg(0)), self.val(f.arg(1))))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            g = all if k == z3.Z3_OP_AND else any
            return tuple(g(x) for x in zip(*[self.bval(c) for c in f.children()]))
        raise Unsupported('value')

    def quotient(self, t, r):
        """r, or the same value in a simpler form: |word| / 10^k or |word| / 10^k % 10"""
        if t.size() != 32 or not self.words:
            return r
        try:
            v = self.val(t)
        except Unsupported:
            return r
        for w in list(self.words):
            lo, hi = self.bounds.get(w, (-2**31, 2**31 - 1))
            if lo < 0 < hi or lo == hi:
                continue
            xs = [abs(x - (1 << 32) if x >> 31 else x) for x in self.sample_word(w)]
            top = max(abs(lo), abs(hi))
            for k, p in enumerate(P10):
                if p > top:
                    break
                if tuple(a // p for a in xs) == v:
                    kind = 'q'
                elif tuple(a // p % 10 for a in xs) == v:
                    kind = 'd'
                elif tuple((10 * (a // p)) & 0xFFFFFFFF for a in xs) == v:
                    kind = 't'
                else:
                    continue
                y = self.level(w, k)
                if kind == 'd':
                    self.level(w, k + 1)
                c = y if kind == 'q' else (self.digit[w, k], 0, 9) if kind == 'd' else (10 * y[0], 10 * y[1], 10 * y[2])
                s = z3.SolverFor('QF_LIA')
                s.set('timeout', 3000)
                # the definition of one level and the bounds of all are enough
                s.add(*self.defs[w][k + 1 if kind == 'd' else k], *self.ranges)
                if k == 0:
                    s.add(*self.side())
                s.add(r[0] != c[0] if abs(r[1]) + abs(r[2]) + c[2] < 1 << 32 else (r[0] - c[0]) % (1 << 32) != 0)
                if s.check() == z3.unsat:
                    self.lemmas += 1
                    return c
        return r

    def level(self, w, k):
        """|word| / 10^k as a variable"""
        ls = self.levels.setdefault(w, [])
        ds = self.defs.setdefault(w, [])
        lo, hi = self.bounds.get(w, (-2**31, 2**31 - 1))
        while len(ls) <= k:
            n = len(ls)
            y = z3.Int('y%d_%d' % (w, n))
            l, h = min(abs(lo), abs(hi)) // 10 ** n, max(abs(lo), abs(hi)) // 10 ** n
            if n == 0:
                ds.append([y == (self.words[w] if lo >= 0 else -self.words[w])])
                self.linear += ds[-1]
            else:
                d = z3.Int('d%d_%d' % (w, n))
                self.digit[w, n - 1] = d
                self.linear += [ls[n - 1][0] == 10 * y + d, d >= 0, d <= 9]
                ds.append([y == ls[n - 1][0] / 10, d == ls[n - 1][0] % 10])
            self.ranges += [y >= l, y <= h]
            ls.append((y, l, h))
        return ls[k]


    def word(self, k):
        lo, hi = self.bounds.get(k, (-2**31, 2**31 - 1))
        if k not in self.words:
            self.words[k] = z3.Int('w%d' % k)
        return self.words[k], lo, hi

    def side(self):
        r = []
        for k, v in self.words.items():
            lo, hi = self.bounds.get(k, (-2**31, 2**31 - 1))
            r += [v >= lo, v <= hi]
        return r

    def unsigned(self, t):
        e, lo, hi = self.term(t)
        m = 1 << t.size()
        if lo >= 0 and hi < m:
            return e, lo, hi
        if lo >= -m and hi < 0:
            return e + m, lo + m, hi + m
        if lo >= -m and hi < m:
            return z3.If(e < 0, e + m, e), 0, m - 1
        return e % m, 0, m - 1

    def signed(self, t):
        e, lo, hi = self.term(t)
        h = 1 << (t.size() - 1)
        if lo >= -h and hi < h:
            return e, lo, hi
        if lo >= 0 and hi < 2 * h:
            return z3.If(e >= h, e - 2 * h, e), -h, h - 1
        return (e + h) % (2 * h) - h, -h, h - 1

    def term(self, t):
        k = t.get_id()
        if k not in self.cache:
            r = self.term1(t)
            if t.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BSHL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM,
                                   z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BNEG, z3.Z3_OP_CONCAT):
                r = self.quotient(t, r)
            self.cache[k] = r
            self.keep.append(t)
        return self.cache[k]

    def term1(self, t):
        n = t.size()
        d = t.decl()
        k = d.kind()
        M = 1 << n
        if z3.is_bv_value(t):
            v = t.as_signed_long() if n > 8 else t.as_long()
            return z3.IntVal(v), v, v
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            m = re.match(r'in(\d+)$', d.name())
            if not m:
                raise Unsupported(d.name())
            i = int(m.group(1))
            w, lo, hi = self.word(i // 4)
            if lo >= 0 and hi < 256:
                return (w, lo, hi) if i % 4 == 0 else (z3.IntVal(0), 0, 0)
            return (w / (1 << 8 * (i % 4))) % 256, 0, 255
        w = word_of(t) if k == z3.Z3_OP_CONCAT else None
        if w is not None:
            return self.word(w)
        if k == z3.Z3_OP_BADD:
            xs = [self.term(c) for c in t.children()]
            return self.small(z3.Sum([x[0] for x in xs]), sum(x[1] for x in xs), sum(x[2] for x in xs), n)
        if k == z3.Z3_OP_BSUB:
            a, b = self.term(t.arg(0)), self.term(t.arg(1))
            return self.small(a[0] - b[0], a[1] - b[2], a[2] - b[1], n)
        if k == z3.Z3_OP_BNEG:
            a = self.term(t.arg(0))
            return -a[0], -a[2], -a[1]
        if k == z3.Z3_OP_BMUL or k == z3.Z3_OP_UNINTERPRETED and d.name() == 'umul':
            cs = [c for c in t.children() if not z3.is_bv_value(c)]
            f = 1
            for c in t.children():
                if z3.is_bv_value(c):
                    f *= c.as_signed_long()
            if len(cs) != 1:
                raise Unsupported('product')
            a = self.term(cs[0])
            return self.small(a[0] * f, min(a[1] * f, a[2] * f), max(a[1] * f, a[2] * f), n)
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR):
            if not z3.is_bv_value(t.arg(1)):
                raise Unsupported('shift')
            s = t.arg(1).as_long()
            if s >= n:
                raise Unsupported('shift')
            if k == z3.Z3_OP_BSHL:
                a = self.term(t.arg(0))
                return self.small(a[0] * (1 << s), a[1] << s, a[2] << s, n)
            a = self.signed(t.arg(0)) if k == z3.Z3_OP_BASHR else self.unsigned(t.arg(0))
            return a[0] / (1 << s), a[1] >> s, a[2] >> s
        if k == z3.Z3_OP_CONCAT:
            # the sign copies z3 makes of an arithmetic shift
            ch = pieces(t)
            lowpart = ch[-1]
            top = ch[:-1]
            if lowpart.decl().kind() == z3.Z3_OP_EXTRACT and z3.is_bv(lowpart):
                x, hi = lowpart.arg(0), lowpart.params()[0]
                if all(c.decl().kind() == z3.Z3_OP_EXTRACT and c.params() == [hi, hi] and c.arg(0).eq(x) for c in top) and hi == x.size() - 1:
                    return self.signed(lowpart)
            e, lo, hi = z3.IntVal(0), 0, 0
            for c in ch:
                a = self.unsigned(c)
                s = c.size()
                e, lo, hi = e * (1 << s) + a[0], (lo << s) + a[1], (hi << s) + a[2]
            return z3.simplify(e), lo, hi
        if k == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            x = t.arg(0)
            if x.decl().kind() == z3.Z3_OP_CONCAT:
                top = x.size()
                for c in pieces(x):
                    top -= c.size()
                    if l >= top:
                        if h < top + c.size():
                            if h - l + 1 == c.size():
                                return self.term(c)
                            y = z3.Extract(h - top, l - top, c)
                            self.keep.append(y)
                            return self.term(y)
                        break
            if x.decl().kind() == z3.Z3_OP_EXTRACT:
                y = z3.Extract(h + x.params()[1], l + x.params()[1], x.arg(0))
                self.keep.append(y)
                return self.term(y)
            if l == 0:
                return self.term(t.arg(0))      # congruent modulo 2^(h+1)
            x = t.arg(0)
            a = self.unsigned(x)
            s = self.signed(x) if h == x.size() - 1 else a
            if s[1] >= 0:
                a = s
            return a[0] / (1 << l), a[1] >> l, a[2] >> l
        if k == z3.Z3_OP_ZERO_EXT:
            return self.unsigned(t.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            return self.signed(t.arg(0))
        if k == z3.Z3_OP_BAND:
            cs = [c for c in t.children() if z3.is_bv_value(c)]
            xs = [c for c in t.children() if not z3.is_bv_value(c)]
            if len(cs) == 1 and len(xs) == 1:
                m = cs[0].as_long()
                a = self.unsigned(xs[0])
                if m & (m + 1) == 0:
                    return (a[0], a[1], a[2]) if a[2] <= m else (a[0] % (m + 1), 0, m)
            raise Unsupported('and')
        if k in (z3.Z3_OP_BXOR, z3.Z3_OP_BOR) and any(z3.is_bv_value(c) and c.as_long() == 0 for c in t.children()) and t.num_args() == 2:
            a = self.term(t.arg(0))
            return a if not z3.is_bv_value(t.arg(0)) or t.arg(0).as_long() else self.term(t.arg(1))
        if k == z3.Z3_OP_BXOR and t.num_args() == 2:
            for i in (0, 1):
                if z3.is_bv_value(t.arg(i)) and t.arg(i).as_long() == 1:
                    a = self.term(t.arg(1 - i))
                    if a[1] >= 0 and a[2] <= 1:
                        return 1 - a[0], 0, 1
        if k == z3.Z3_OP_BNOT:
            a = self.term(t.arg(0))
            return -1 - a[0], -1 - a[2], -1 - a[1]
        if k == z3.Z3_OP_ITE:
            c = self.boolean(t.arg(0))
            a, b = self.term(t.arg(1)), self.term(t.arg(2))
            return z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            if not z3.is_bv_value(t.arg(1)) or t.arg(1).as_long() == 0:
                raise Unsupported('division')
            c = t.arg(1).as_long()
            a = self.unsigned(t.arg(0))
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                return a[0] / c, a[1] // c, a[2] // c
            return (a[0] % c, 0, c - 1) if a[2] >= c else a
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) or k == z3.Z3_OP_UNINTERPRETED and d.name() == 'usdiv':
            if not z3.is_bv_value(t.arg(1)) or t.arg(1).as_signed_long() <= 0:
                raise Unsupported('division')
            c = t.arg(1).as_signed_long()
            a = self.signed(t.arg(0))
            if a[1] >= 0:
                return a[0] / c, a[1] // c, a[2] // c
            return z3.If(a[0] >= 0, a[0] / c, -((-a[0]) / c)), -(-a[1] // c), max(a[2], 0) // c
        raise Unsupported(str(d))

    def small(self, e, lo, hi, n):
        if hi - lo < 1 << 62 and -1 << 62 < lo and hi < 1 << 62:
            return e, lo, hi
        return e % (1 << n), 0, (1 << n) - 1

    def boolean(self, f):
        k = f.decl().kind()
        if z3.is_true(f) or z3.is_false(f):
            return f
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.boolean(f.arg(0)))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            xs = [self.boolean(c) for c in f.children()]
            return z3.And(xs) if k == z3.Z3_OP_AND else z3.Or(xs)
        if k == z3.Z3_OP_ITE:
            return z3.If(*[self.boolean(c) for c in f.children()])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(*[self.boolean(c) for c in f.children()])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF, z3.Z3_OP_XOR):
            a, b = f.arg(0), f.arg(1)
            if f.num_args() != 2:
                raise Unsupported('distinct')
            if z3.is_bool(a):
                r = self.boolean(a) == self.boolean(b)
            else:
                x, y = self.term(a), self.term(b)
                M = 1 << a.size()
                lo, hi = x[1] - y[2], x[2] - y[1]
                q = None
                if a.size() == 32 and not z3.is_bv_value(a) and not z3.is_bv_value(b):
                    # z3 turns p + q = 0 into p = -q
                    d = a - b
                    if d.get_id() not in self.diffs:
                        self.keep.append(d)
                        self.diffs[d.get_id()] = self.quotient(d, (x[0] - y[0], lo, hi))
                    q = self.diffs[d.get_id()]
                    if q[1] == lo and q[2] == hi:
                        q = None
                if q:
                    r = q[0] == 0
                elif lo > -M and hi < M:
                    r = x[0] == y[0]
                else:
                    r = (x[0] - y[0]) % M == 0
            return r if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) else z3.Not(r)
        s = {z3.Z3_OP_SLEQ: ('le', 1), z3.Z3_OP_SLT: ('lt', 1), z3.Z3_OP_SGEQ: ('ge', 1), z3.Z3_OP_SGT: ('gt', 1),
             z3.Z3_OP_ULEQ: ('le', 0), z3.Z3_OP_ULT: ('lt', 0), z3.Z3_OP_UGEQ: ('ge', 0), z3.Z3_OP_UGT: ('gt', 0)}.get(k)
        if s:
            g = self.signed if s[1] else self.unsigned
            a, b = g(f.arg(0))[0], g(f.arg(1))[0]
            return {'le': a <= b, 'lt': a < b, 'ge': a >= b, 'gt': a > b}[s[0]]
        raise Unsupported(str(f.decl()))


class Cache:
    """translators by bounds"""

    def __init__(self):
        self.l = {}

    def get(self, assertions):
        b = Bounds()
        for a in list(assertions) * 2:
            b.scan(a, True)
        k = tuple(sorted(b.bounds.items()))
        if k not in self.l:
            self.l[k] = Lia(b.bounds)
        return self.l[k]


class Bounds:
    def __init__(self):
        self.bounds = {}

    def limit(self, w, v, pos):
        lo, hi = self.bounds.get(w, (-2**31, 2**31 - 1))
        if pos:
            lo, hi = max(lo, v), min(hi, v)
        elif v == lo:
            lo += 1
        elif v == hi:
            hi -= 1
        self.bounds[w] = (lo, hi)

    # bounds of input words that the path condition states outright
    def scan(self, f, pos):
        k = f.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.scan(f.arg(0), not pos)
        if k == z3.Z3_OP_EQ:
            for x, c in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if x.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(c) and all(z3.is_bv_value(y) for y in x.children()[1:]):
                    a, b = x.arg(1).eq(c), x.arg(2).eq(c)
                    if a != b:
                        self.scan(x.arg(0), a == pos)
                    return
        if k == z3.Z3_OP_AND and f.num_args() == 4:
            e = {}
            for c in f.children():
                if c.decl().kind() == z3.Z3_OP_EQ and z3.is_bv_value(c.arg(1)) and c.arg(0).num_args() == 0:
                    e[c.arg(0).decl().name()] = c.arg(1).as_long()
            w = int(min(e, key=lambda n: int(n[2:]))[2:]) // 4 if len(e) == 4 and all(n[:2] == 'in' for n in e) else None
            if w is not None and all('in%d' % (4 * w + j) in e for j in range(4)):
                v = sum(e['in%d' % (4 * w + j)] << 8 * j for j in range(4))
                return self.limit(w, v - (1 << 32) if v >> 31 else v, pos)
        if k == z3.Z3_OP_AND and pos:
            for c in f.children():
                self.scan(c, True)
        if k != z3.Z3_OP_SLEQ and not (k == z3.Z3_OP_EQ and z3.is_bv(f.arg(0))):
            return
        a, b = f.arg(0), f.arg(1)
        for x, c, left in ((a, b, True), (b, a, False)):
            if z3.is_bv_value(c) and x.size() == 32:
                w = word_of(x)
                if w is None:
                    continue
                v = c.as_signed_long()
                lo, hi = self.bounds.get(w, (-2**31, 2**31 - 1))
                if k == z3.Z3_OP_EQ:
                    self.limit(w, v, pos)
                    continue
                elif left == pos:       # w <= v, or not (v <= w): w < v
                    hi = min(hi, v if pos else v - 1)
                else:
                    lo = max(lo, v if pos else v + 1)
                self.bounds[w] = (lo, hi)


def check(assertions, timeout_ms, cache):
    """('unsat', None), ('sat', {input byte: value}) or ('unknown', why)"""
    try:
        fs = [z3.simplify(a, flat=False, som=False) for a in assertions]
        l = cache.get(fs)
        if any(lo > hi for lo, hi in l.bounds.values()):
            return 'unsat', None
        gs = [l.boolean(f) for f in assertions]
    except Unsupported as e:
        return 'unknown', str(e)
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', timeout_ms)
    s.add(*l.side(), *l.ranges, *l.linear)
    s.add(*gs)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None
    if r != z3.sat:
        return 'unknown', 'timeout'
    m = s.model()
    bs = {}
    for k, v in l.words.items():
        x = m.eval(v, model_completion=True).as_long() & 0xFFFFFFFF
        for j in range(4):
            bs[4 * k + j] = x >> 8 * j & 255
    return 'sat', bs
