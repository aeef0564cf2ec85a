"""Enclosure tracking: an interval operation is replaced by its contract (the result is SOME interval that contains the exact
result for the tracked members of its operands), which is what properties C01/C05 establish for the arithmetic itself.
A member is a rational function of the base symbols of the harness (entries of a point system, its solution, ...); identities
between rational functions are normalised with sympy and discharged by z3 as polynomial identities."""
import math
from fractions import Fraction

import numpy as np

from . import core
from .core import SymReal, q
from .env import Ex

_RING = []
_CACHE = {}
_GENS = {}


def _gen(i):
    if i not in _GENS:
        _GENS[i] = core.z3.Real('gen%d' % i)
    return _GENS[i]


def _field():
    """fraction field over QQ with a fixed supply of generators"""
    if not _RING:
        from sympy.polys.fields import field
        from sympy import QQ
        F = field(['s%d' % i for i in range(32)], QQ)
        _RING.append((F[0], list(F[1:])))
    return _RING[0]


class Tracker:
    def __init__(self, E):
        self.E = E
        self.c = E.c
        self.z3 = core.z3
        self.K, self.gens = _field()
        self.atoms = {}        # z3 term id -> (generator, term)
        self.genterm = []      # generator index -> z3 term
        self.vars = {}         # expression -> z3 variable
        self.mem = {}          # (lo id, hi id) -> [expr]   (terms kept alive in self.keep)
        self.keep = []
        self.pool = []         # expressions of the base symbols a memberless interval may contain
        self.poolhits = {}
        m = E.loader.modules['intvalpy.kernel.interval_arithmetics']
        self.cls = m.ClassicalArithmetic
        self.kcls = m.KaucherArithmetic
        for op, names in {'+': ('__add__', '__radd__'), '-': ('__sub__', '__rsub__'), '*': ('__mul__', '__rmul__'),
                          '/': ('__truediv__', '__rtruediv__')}.items():
            for k, n in enumerate(names):
                self._wrap(op, n, k == 1)
        setattr(self.cls, '__neg__', lambda s: self.op('-', 0, s))
        for n in ('__iadd__', '__isub__', '__imul__', '__itruediv__'):
            if n in self.cls.__dict__:
                delattr(self.cls, n)

        # the same values without a path per sign
        self.cls.mig = property(self.mig)
        self.cls.mag = property(self.mag)

    def zero_in(self, X):
        (lo, hi), k = self.key(X)
        return bool(core.sbool(self.z3.And(lo <= 0, hi >= 0)))

    def mig(self, X):
        z3 = self.z3
        if any(not isinstance(v, SymReal) and not math.isfinite(v) for v in (X.a, X.b)):
            raise core.Unsupported('mig of an unbounded interval')
        (lo, hi), k = self.key(X)
        return SymReal(z3.If(lo > 0, lo, z3.If(hi < 0, -hi, z3.RealVal(0))))

    def mag(self, X):
        z3 = self.z3
        if any(not isinstance(v, SymReal) and not math.isfinite(v) for v in (X.a, X.b)):
            raise core.Unsupported('mag of an unbounded interval')
        (lo, hi), k = self.key(X)
        return SymReal(z3.If(hi >= -lo, hi, -lo))

    def _wrap(self, op, name, rev):
        orig = getattr(self.cls, name, None)
        tr = self

        def f(self, other):
            if tr.number(other) or isinstance(other, tr.cls):
                return tr.op(op, other, self) if rev else tr.op(op, self, other)
            if isinstance(other, tr.kcls):
                raise core.Unsupported('Kaucher interval in tracked arithmetic')
            if orig is None:
                return NotImplemented
            if op == '/' and rev:
                return other * tr.op('/', 1.0, self)      # an array: multiplied by the inverse, as the package does
            return orig(self, other)
        setattr(self.cls, name, f)

    def number(self, v):
        return isinstance(v, (int, float, SymReal, np.integer, np.floating)) and not isinstance(v, bool)

    # ---------------------------------------------------------------- members
    def atom(self, t):
        if self.z3.is_rational_value(t):
            f = t.as_fraction()
            from sympy import QQ
            return self.K(QQ(int(f.numerator), int(f.denominator)))
        k = t.get_id()
        if k not in self.atoms and self.opposite(t) is not None:
            e = -self.atom(self.opposite(t))
            self.atoms[k] = (e, t)
            self.vars.setdefault(e, t)
        if k not in self.atoms:
            if len(self.genterm) == len(self.gens):
                raise core.Unsupported('too many base values')
            g = self.gens[len(self.genterm)]
            self.genterm.append(t)
            self.atoms[k] = (g, t)
            self.vars[g] = t
        return self.atoms[k][0]

    def opposite(self, t):
        z3 = self.z3
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            return t.arg(0)
        if t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and t.arg(0).as_fraction() == -1:
            return t.arg(1)

    def var(self, e):
        """z3 variable standing for the exact value of the expression"""
        if e not in self.vars:
            if e.numer.is_ground and e.denom.is_ground:
                f = Fraction(int(e.numer.LC.numerator), int(e.numer.LC.denominator)) / \
                    Fraction(int(e.denom.LC.numerator), int(e.denom.LC.denominator)) if e else Fraction(0)
                self.vars[e] = q(f)
            else:
                self.vars[e] = self.c.fresh('mem')
        return self.vars[e]

    def poly(self, p):
        z3 = self.z3
        s = []
        for mon, co in p.terms():
            t = q(Fraction(int(co.numerator), int(co.denominator)))
            for i, n in enumerate(mon):
                for _ in range(n):
                    t = t * _gen(i)
            s.append(t)
        return z3.Sum(*s) if len(s) > 1 else s[0] if s else z3.RealVal(0)

    def numexpr(self, v):
        t = v.t if isinstance(v, SymReal) else q(v)
        return self.atom(self.z3.simplify(t) if not isinstance(v, SymReal) else t)

    def key(self, X):
        lo = X.a.t if isinstance(X.a, SymReal) else q(X.a)
        hi = X.b.t if isinstance(X.b, SymReal) else q(X.b)
        self.keep += [lo, hi]
        return (lo, hi), (lo.get_id(), hi.get_id())

    def members(self, X):
        if self.number(X):
            return [self.numexpr(X)]
        for v in (X.a, X.b):
            if not isinstance(v, SymReal) and not math.isfinite(v):
                return []
        (lo, hi), k = self.key(X)
        if k in self.mem:
            return self.mem[k]
        if k[0] == k[1]:
            return [self.atom(lo)]
        if k not in self.poolhits:
            hits = []
            for e in self.pool:
                v = self.var(e)
                if self.c._check(self.z3.Not(self.z3.And(lo <= v, v <= hi))) == self.z3.unsat:
                    hits.append(e)
            # nothing is cached: later facts may add members
            return hits
        return self.poolhits[k]

    def track(self, X, term):
        """X (an interval of the harness) contains the exact value `term` (a z3 term kept symbolic, an expression, or Ex)"""
        e = term if not isinstance(term, Ex) else self.atom(term.t)
        (lo, hi), k = self.key(X)
        self.mem.setdefault(k, [])
        if e not in self.mem[k]:
            self.mem[k].append(e)
            v = self.var(e)
            self.c.add(self.z3.And(lo <= v, v <= hi))

    def expr(self, x):
        return self.atom(x.t if isinstance(x, Ex) else self.z3.simplify(q(x)) if not isinstance(x, SymReal) else x.t)

    def value(self, e):
        """exact value of an expression"""
        return Ex(self.z3, self.var(e))

    def around(self, name, e, point=False):
        return _around(self.E, self, name, e, point)

    # ---------------------------------------------------------------- operations
    def fresh_interval(self):
        lo, hi = self.c.fresh('lo'), self.c.fresh('hi')
        self.c.add(lo <= hi)
        return self.cls(SymReal(lo), SymReal(hi))

    def op(self, op, X, Y):
        z3, c = self.z3, self.c
        if op == '/':
            if self.number(Y):
                if bool(Y == 0):
                    raise ValueError('division by zero')
            elif self.zero_in(Y):
                raise ValueError('division by an interval containing zero')
        mx, my = self.members(X), self.members(Y)
        R = self.fresh_interval()
        for a in mx:
            for b in my:
                if op == '/' and not b:
                    continue
                self.track(R, self.apply(op, a, b))
        return R

    def apply(self, op, a, b):
        """normal form of the exact result; that it equals the operation is decided by z3, once per pair of expressions"""
        k = (op, a, b)
        if k not in _CACHE:
            e = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
            z3 = self.z3
            an, ad, bn, bd, en, ed = [self.poly(p) for p in (a.numer, a.denom, b.numer, b.denom, e.numer, e.denom)]
            n = {'+': an * bd + bn * ad, '-': an * bd - bn * ad, '*': an * bn, '/': an * bd}[op]
            d = ad * bd if op != '/' else ad * bn
            t = z3.simplify(n * ed - en * d, som=True)
            ok = z3.is_rational_value(t) and t.as_fraction() == 0
            if not ok:
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(t != 0)
                ok = s.check() == z3.unsat
            self.c.stats['identities'] = self.c.stats.get('identities', 0) + 1
            if not ok:
                raise core.Unsupported('identity not confirmed')
            _CACHE[k] = e
        return _CACHE[k]


class NoTracker:
    """concrete replay: nothing is tracked"""
    def __init__(self, E):
        self.E = E

    def track(self, X, term):
        pass

    def expr(self, x):
        return x

    pool = []

    def value(self, e):
        return e

    def around(self, name, e, point=False):
        return _around(self.E, self, name, e, point)


def _around(E, T, name, e, point):
    """an arbitrary interval (class of proper ones) containing the value of the expression"""
    v = T.value(e)
    if point:
        X = E.ip.Interval(E.num(v), E.num(v))
    else:
        d1, d2 = E.real(name + '_l', lo=0), E.real(name + '_u', lo=0)
        X = E.ip.Interval(E.num(v - E.ex(d1), False), E.num(v + E.ex(d2), True), sortQ=False)
    T.track(X, e)
    return X


def tracker(E):
    return Tracker(E) if E.symbolic else NoTracker(E)
