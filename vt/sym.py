"""Symbolic core: 32-bit values (python int or z3 BitVec), word memory, path explorer."""
import random
import time
import z3
from . import lia

M32 = 0xFFFFFFFF
BV = z3.BitVecVal
_W = z3.BitVecSort(32)
UMUL = z3.Function('umul', _W, _W, _W)
UDIV = z3.Function('usdiv', _W, _W, _W)
_V0, _V1 = z3.Var(0, _W), z3.Var(1, _W)


def concretise_ops(f):
    return z3.substitute_funs(f, (UMUL, _V0 * _V1), (UDIV, _V0 / _V1))


class Fork(Exception):
    def __init__(self, term, values):
        self.term, self.values = term, values


class Fault(Exception):
    """The program did something impossible (bad address, bad instruction, ...)."""


class UB(Exception):
    """The reference program has undefined behaviour on this path: nothing is claimed there."""


class Budget(Exception):
    """A resource bound of the check was hit: the verdict is inconclusive there."""


def bv(x):
    return BV(x, 32) if isinstance(x, int) else x


def isc(x):
    return isinstance(x, int)


def sx(x, bits=32):
    x &= (1 << bits) - 1
    return x - (1 << bits) if x >> (bits - 1) else x


def norm(t):
    """simplify; python int if the term is a constant"""
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def add(a, b):
    if isc(a) and isc(b):
        return (a + b) & M32
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return b
    return bv(a) + bv(b)


def sub(a, b):
    if isc(a) and isc(b):
        return (a - b) & M32
    if isc(b) and b == 0:
        return a
    return bv(a) - bv(b)


def mul(a, b):
    if isc(a) and isc(b):
        return (a * b) & M32
    if isc(a):
        a, b = b, a
    if isc(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        return bv(a) * bv(b)
    # both symbolic: abstracted, refined by Engine.refute when the abstraction does not settle the query
    a, b = z3.simplify(a), z3.simplify(b)
    if a.hash() > b.hash():
        a, b = b, a
    return UMUL(a, b)


def and_(a, b):
    if isc(a) and isc(b):
        return a & b
    if isc(a):
        a, b = b, a
    if isc(b):
        if b == 0:
            return 0
        if b == M32:
            return a
    return bv(a) & bv(b)


def or_(a, b):
    if isc(a) and isc(b):
        return a | b
    return bv(a) | bv(b)


def xor(a, b):
    if isc(a) and isc(b):
        return a ^ b
    return bv(a) ^ bv(b)


def shl(a, b):      # b < 32 semantics as SMT-LIB (>=32 gives 0)
    if isc(a) and isc(b):
        return (a << b) & M32 if b < 32 else 0
    return bv(a) << bv(b)


def lshr(a, b):
    if isc(a) and isc(b):
        return a >> b if b < 32 else 0
    return z3.LShR(bv(a), bv(b))


def ashr(a, b):
    if isc(a) and isc(b):
        return (sx(a) >> min(b, 31)) & M32
    return bv(a) >> bv(b)


def sdiv(a, b):
    if isc(a) and isc(b):
        x, y = sx(a), sx(b)
        if y == 0:
            return M32 if x >= 0 else 1     # SMT-LIB; callers special-case zero
        q = abs(x) // abs(y)
        return (-q if (x < 0) != (y < 0) else q) & M32
    if isc(b):
        return bv(a) / bv(b)
    return UDIV(z3.simplify(bv(a)), z3.simplify(b))


def srem(a, b):
    if isc(a) and isc(b):
        x, y = sx(a), sx(b)
        if y == 0:
            return a
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & M32
    return sub(a, mul(sdiv(a, b), b))


def ult(a, b):
    if isc(a) and isc(b):
        return a < b
    return z3.ULT(bv(a), bv(b))


def slt(a, b):
    if isc(a) and isc(b):
        return sx(a) < sx(b)
    return bv(a) < bv(b)


def eq(a, b):
    if isc(a) and isc(b):
        return a == b
    return bv(a) == bv(b)


def not_(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def andb(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return z3.And(a, b)


def orb(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return z3.Or(a, b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isc(a) and isc(b) and a == b:
        return a
    return z3.If(c, bv(a), bv(b))


def byte_of(w, i):
    if isc(w):
        return (w >> (8 * i)) & 0xFF
    return z3.Extract(8 * i + 7, 8 * i, w)


def zext8(b):
    return b if isc(b) else z3.ZeroExt(24, b)


def sext8(b):
    return sx(b, 8) & M32 if isc(b) else z3.SignExt(24, b)


def lo8(w):
    return w & 0xFF if isc(w) else z3.Extract(7, 0, w)


def cat4(bs):
    """bytes (lsb first) -> word"""
    if all(isc(b) for b in bs):
        return bs[0] | bs[1] << 8 | bs[2] << 16 | bs[3] << 24
    t = [BV(b, 8) if isc(b) else b for b in bs]
    # undo Extract(0..3) of one word
    x = t[0]
    if all(z3.is_app_of(e, z3.Z3_OP_EXTRACT) for e in t):
        base = t[0].arg(0)
        if base.size() == 32 and all(
                e.arg(0).eq(base) and e.params() == [8 * i + 7, 8 * i] for i, e in enumerate(t)):
            return base
    return z3.Concat(t[3], t[2], t[1], t[0])


class Mem:
    """word-granular memory; `regions` = list of (lo, hi) valid ranges; default content zero"""
    __slots__ = ('w', 'regions')

    def __init__(self, regions, w=None):
        self.w = {} if w is None else w
        self.regions = regions

    def clone(self):
        return Mem(self.regions, dict(self.w))

    def check(self, a, n):
        for lo, hi in self.regions:
            if lo <= a and a + n <= hi:
                return
        raise Fault('access to unmapped address 0x%x' % a)

    def lw(self, a):
        self.check(a, 4)
        if a & 3 == 0:
            return self.w.get(a, 0)
        return cat4([self._b(a + i) for i in range(4)])

    def sw(self, a, v):
        self.check(a, 4)
        if a & 3 == 0:
            self.w[a] = v
            return
        for i in range(4):
            self._sb(a + i, byte_of(v, i))

    def _b(self, a):
        return byte_of(self.w.get(a & ~3, 0), a & 3)

    def _sb(self, a, v):
        k = a & ~3
        old = self.w.get(k, 0)
        if isc(old) and isc(v):
            sh = 8 * (a & 3)
            self.w[k] = old & ~(0xFF << sh) & M32 | v << sh
            return
        bs = [byte_of(old, i) for i in range(4)]
        bs[a & 3] = v
        self.w[k] = cat4(bs)

    def lb(self, a):
        self.check(a, 1)
        return self._b(a)

    def sb(self, a, v):
        self.check(a, 1)
        self._sb(a, v)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.steps = 0
        self.unknown = 0
        self.compared = 0
        self.undefined = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))

    def dict(self):
        d = dict(self.__dict__)
        d['solver_s'] = round(d['solver_s'], 3)
        return d


class Engine:
    """One solver, DFS with push/pop; machines call decide()/concretise() which may raise Fork."""

    def __init__(self, timeout_ms=8000, max_steps=400000, max_paths=4000, max_conc=80, deadline=None, arith=False):
        self.arith = arith
        self.lia = lia.Cache()
        self.s = z3.SolverFor('QF_UFBV')
        self.s.set('timeout', timeout_ms)
        self.st = Stats()
        self.max_steps, self.max_paths, self.max_conc = max_steps, max_paths, max_conc
        self.deadline = deadline
        self.forced = None
        self.assumed = False

    def assume(self, cond):
        """restrict the current path to cond (C leaves the rest undefined)"""
        if isinstance(cond, bool):
            if not cond:
                raise UB()
            return
        c = z3.simplify(cond, flat=not self.arith)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise UB()
        self.s.add(c)
        self.assumed = True

    def check(self, *extra):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Budget('deadline')
        if self.arith:
            return self.check_arith(extra)
        self.s.push()
        for e in extra:
            self.s.add(e)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.st.queries += 1
        self.st.solver_s += time.time() - t
        if r == z3.unknown:
            self.st.unknown += 1
            raise Budget('solver timeout')
        return m

    def check_arith(self, extra):
        """integer arithmetic first: bit blasting does not come to an end on shift-and-add division"""
        t = time.time()
        self.s.push()
        try:
            for e in extra:
                self.s.add(e)
            self.st.queries += 1
            r, bs = lia.check(list(self.s.assertions()), 8000, self.lia)
            if r == 'unsat':
                return None
            if r == 'sat':
                self.s.push()
                for i, v in bs.items():
                    self.s.add(z3.BitVec('in%d' % i, 8) == v)
                m = self.s.model() if self.s.check() == z3.sat else None
                self.s.pop()
                if m is not None:
                    return m
            r = self.s.check()
            if r == z3.sat:
                return self.s.model()
            if r == z3.unsat:
                return None
            self.st.unknown += 1
            raise Budget('solver timeout')
        finally:
            self.s.pop()
            self.st.solver_s += time.time() - t

    def refute(self, bad):
        """model of the path condition and `bad` with real multiplication and division, or None"""
        m = self.check(bad)
        if m is None:
            return None
        fs = [f for f in self.s.assertions()] + [bad]
        rs = [concretise_ops(f) for f in fs]
        if all(f.eq(r) for f, r in zip(fs, rs)):
            return m
        t = time.time()
        s = z3.SolverFor('QF_BV')
        s.set('timeout', 6000)
        s.add(*rs)
        r = s.check()
        self.st.queries += 1
        self.st.solver_s += time.time() - t
        if r == z3.unsat:
            return None
        if r == z3.sat:
            return s.model()
        R = random.Random(1)
        vs = [z3.BitVec('in%d' % i, 8) for i in range(64)]
        for k in range(12):
            s = z3.SolverFor('QF_BV')
            s.set('timeout', 1000)
            s.add(*rs)
            big = R.random() < .3
            for i, v in enumerate(vs):
                s.add(v == (R.choice([0, 255, 128, 1, R.randrange(256)]) if big else
                            (R.randrange(1, 40) if i % 4 == 0 else 0)))
            if s.check() == z3.sat:
                return s.model()
        self.st.unknown += 1
        raise Budget('solver timeout')

    def decide(self, cond):
        """cond: python bool or z3 Bool -> python bool (forks when both are possible)"""
        if isinstance(cond, bool):
            return cond
        f = self.forced
        if f is not None and f[0].eq(cond):
            self.forced = None
            return f[1]
        c = z3.simplify(cond, flat=not self.arith)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        can_t = self.check(c) is not None
        can_f = self.check(z3.Not(c)) is not None
        if can_t and can_f:
            raise Fork(cond, [True, False])
        if not can_t and not can_f:
            if self.assumed:
                raise UB()
            raise Budget('path condition became unsatisfiable')
        return can_t

    def conc(self, t):
        """value -> concrete int (forks over every feasible value)"""
        if isinstance(t, int):
            return t
        f = self.forced
        if f is not None and f[0].eq(t):
            self.forced = None
            return f[1]
        n = norm(t)
        if isinstance(n, int):
            return n
        vals = []
        self.s.push()
        try:
            while True:
                m = self.check()
                if m is None:
                    break
                v = m.eval(n, model_completion=True).as_long()
                vals.append(v)
                self.s.add(n != BV(v, n.size()))
                if len(vals) > self.max_conc:
                    raise Budget('address/selector with more than %d values' % self.max_conc)
        finally:
            self.s.pop()
        if len(vals) == 1:
            return vals[0]
        if not vals:
            if self.assumed:
                raise UB()
            raise Budget('path condition became unsatisfiable')
        raise Fork(t, vals)

    def explore(self, mach, leaf):
        """run mach (has .run(engine) until exit, .clone()); call leaf(mach, fault) at each path end"""
        while True:
            try:
                mach.run(self)
                f = None
            except Fork as e:
                f = e
            except UB:
                self.st.undefined += 1
                return
            except Fault as e:
                self.st.paths += 1
                leaf(mach, str(e))
                return
            if f is None:
                self.st.paths += 1
                if self.st.paths > self.max_paths:
                    raise Budget('more than %d paths' % self.max_paths)
                leaf(mach, None)
                return
            term = f.term
            for v in f.values:
                c = (term if v else z3.Not(term)) if isinstance(v, bool) else term == BV(v, term.size())
                child = mach.clone()
                self.s.push()
                self.s.add(c)
                self.forced = (term, v)
                try:
                    self.explore(child, leaf)
                finally:
                    self.s.pop()
                    self.forced = None
            return
