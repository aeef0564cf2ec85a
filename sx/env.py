"""The environment a harness runs in: the same harness text is executed symbolically (deciding) and concretely
(replay of a counterexample against the real build)."""
import math
import random
from fractions import Fraction

import numpy as np

INF = float('inf')
_LIBM = []


def _libm():
    if not _LIBM:
        import ctypes
        _LIBM.append(ctypes.CDLL('libm.so.6'))
    return _LIBM[0]


class Violation(BaseException):
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label = label
        self.detail = detail


class Skip(BaseException):
    """a concrete assignment that does not meet the assumptions"""


def frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, np.integer)):
        return Fraction(int(v))
    f = float(v)
    if math.isfinite(f):
        return Fraction(f)
    return f


# ================================================================================================ symbolic
class SymEnv:
    symbolic = True

    def __init__(self, c, loader, tier='quick'):
        from . import core
        self.c = c
        self.core = core
        self.z3 = core.z3
        self.loader = loader
        self.ip = loader.modules.get('intvalpy') if loader else None
        self.np = loader.np if loader else np
        self.tier = tier
        self.mode = c.mode
        self.order = []

    # -------------------------------------------------------------- inputs
    def real(self, name, kind='float', lo=None, hi=None):
        t = self.z3.Real(name)
        self.c.inputs[name] = (kind, t)
        if lo is not None:
            self.c.add(t >= self.core.q(lo))
        if hi is not None:
            self.c.add(t <= self.core.q(hi))
        if kind == 'np':
            return self.core.SymNp(t)
        if kind == 'int':
            if self.c.opts.get('trueint'):
                k = self.z3.Int(name + '#')
                self.c.add(self.z3.ToReal(k) == t)
            return self.core.SymReal(t, True)
        return self.core.SymReal(t)

    def exact(self, name, lo=None, hi=None):
        """an arbitrary real number (not a machine number), optionally between two values"""
        t = self.z3.Real(name)
        meta = {}
        self.c.inputs[name] = ('exact', t)
        if lo is not None:
            self.c.add(self.ex(lo).t <= t)
        if hi is not None:
            self.c.add(t <= self.ex(hi).t)
        return Ex(self.z3, t)

    def boolean(self, name):
        b = self.z3.Bool(name)
        self.c.inputs[name] = ('bool', b)
        return self.c.branch(b)

    def arr(self, vals):
        a = np.array(vals, dtype=object)
        return a

    # -------------------------------------------------------------- exact expressions
    def ex(self, v):
        if isinstance(v, Ex):
            return v
        if isinstance(v, self.core.SymReal):
            return Ex(self.z3, v.t)
        if isinstance(v, (float, np.floating)) and not math.isfinite(v):
            return Ex(self.z3, None, float(v))
        if isinstance(v, self.core.SymBool):
            v = bool(v)
        return Ex(self.z3, self.core.q(v))

    def _b(self, c):
        if isinstance(c, self.core.SymBool):
            return c.t
        if isinstance(c, (bool, np.bool_)):
            return self.z3.BoolVal(bool(c))
        return c

    def And(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return self.core.sbool(self.z3.And(*[self._b(c) for c in cs])) if cs else True

    def Or(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return self.core.sbool(self.z3.Or(*[self._b(c) for c in cs])) if cs else False

    def Not(self, c):
        return self.core.sbool(self.z3.Not(self._b(c)))

    def Implies(self, a, b):
        return self.core.sbool(self.z3.Implies(self._b(a), self._b(b)))

    def Iff(self, a, b):
        return self.core.sbool(self._b(a) == self._b(b))

    def If(self, c, a, b):
        a, b = self.ex(a), self.ex(b)
        return Ex(self.z3, self.z3.If(self._b(c), a.t, b.t))

    def min(self, *vs):
        r = self.ex(vs[0])
        for v in vs[1:]:
            v = self.ex(v)
            r = Ex(self.z3, self.z3.If(v.t < r.t, v.t, r.t))
        return r

    def max(self, *vs):
        r = self.ex(vs[0])
        for v in vs[1:]:
            v = self.ex(v)
            r = Ex(self.z3, self.z3.If(v.t > r.t, v.t, r.t))
        return r

    def abs(self, v):
        v = self.ex(v)
        return Ex(self.z3, self.z3.If(v.t >= 0, v.t, -v.t))

    # relations
    def eq(self, a, b):
        return Rel(self, '==', self.ex(a), self.ex(b))

    def le(self, a, b):
        return Rel(self, '<=', self.ex(a), self.ex(b))

    def ge(self, a, b):
        return Rel(self, '<=', self.ex(b), self.ex(a))

    def lt(self, a, b):
        return Rel(self, '<', self.ex(a), self.ex(b))

    # -------------------------------------------------------------- assumptions and obligations
    def assume(self, c):
        if isinstance(c, Rel):
            c = c.cond()
        self.c.assume(c)

    def check(self, label, cond, lemmas=(), timeout=None):
        margin = None
        if isinstance(cond, Rel):
            margin = cond.margin()
            cond = cond.cond()
        n = len(self.c.results)
        ok = self.c.prove(cond, label, timeout=timeout)
        if not ok:
            r = self.c.results[-1]
            if r['verdict'] == 'sat':
                self._nicer(r, cond, margin)
        return ok

    def _nicer(self, r, cond, margin):
        """look for a better conditioned model of the same violation (only to ease the replay)"""
        core, z3 = self.core, self.z3
        goals = []
        if margin is not None:
            goals.append(z3.Not(margin))
        goals.append(z3.Not(self._b(cond)))
        for g in goals:
            for bound in (8, 1000):
                ext = []
                for name, it in self.c.inputs.items():
                    if name.startswith('__') or it[0] == 'bool':
                        continue
                    ext += [it[1] <= bound, it[1] >= -bound]
                res, m = quick_solve(core, r['pc'] + [g] + ext, 2500)
                if res == 'sat':
                    r['model'] = self.c.extract(m)
                    return
        return

    def fail(self, label):
        self.c.prove(False, label)
        raise self.core.PathEnd()

    def stop(self):
        raise self.core.PathEnd()

    def call(self, fn, *allowed):
        """(True, result) or (False, exception); exceptions outside `allowed` are violations"""
        try:
            return True, fn()
        except self.core.Control:
            raise
        except allowed as e:
            return False, e
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = tb[-1].name if tb else '?'
            self.c.prove(False, 'no-exception:%s in %s' % (type(e).__name__, where))
            self.c.results and self.c.results[-1].setdefault('exc', traceback.format_exc(limit=-6))
            raise self.core.PathEnd()

    def reach(self):
        self.c.reached = True

    def patch(self, name, value):
        """replaces a global of the package wherever it is imported (undone after the run)"""
        n = 0
        for m in list(self.loader.modules.values()):
            if name in m.__dict__ and (callable(m.__dict__[name]) or name == 'cvxopt'):
                m.__dict__[name] = value
                n += 1
        if not n:
            raise self.core.Unsupported('nothing to patch: ' + name)

    def linalg(self, name, fn, replay=False):
        """contract of a numpy.linalg function (symbolic execution only, or also during the replay)"""
        self.np.linalg_stubs[name] = fn

    def num(self, x, up=None):
        """number passed to the code for an exact value (concretely: rounded up or down)"""
        x = self.ex(x)
        return self.core.SymReal(x.t)

    def fresh(self, base='z'):
        return Ex(self.z3, self.c.fresh(base))

    def fact(self, cond):
        """contract of a stub"""
        self.c.add(self._b(cond.cond() if isinstance(cond, Rel) else cond))

    def possible(self, cond):
        """is the condition satisfiable on this path (only to cut hopeless paths)"""
        return self.c._check(self._b(cond)) != self.z3.unsat

    def close(self):
        pass

    def set_rounding(self, m):
        self.c.rm = m

    def get_rounding(self):
        return self.c.rm


def quick_solve(core, asserts, timeout):
    z3 = core.z3
    for mk in (lambda: z3.Solver(), lambda: z3.SolverFor('QF_NRA')):
        try:
            s = mk()
            s.set('timeout', timeout)
            s.add(*asserts)
            r = s.check()
            if r == z3.sat:
                return 'sat', s.model()
            if r == z3.unsat:
                return 'unsat', None
        except z3.Z3Exception:
            pass
    return 'unknown', None


class Rel:
    def __init__(self, env, op, a, b):
        self.env, self.op, self.a, self.b = env, op, a, b

    def cond(self):
        a, b = self.a, self.b
        r = (a == b) if self.op == '==' else (a <= b) if self.op == '<=' else (a < b)
        return r

    def margin(self):
        if self.a.t is None or self.b.t is None:
            return None
        d = self.a.t - self.b.t
        z3 = self.env.z3
        m = z3.Q(1, 100)
        if self.op == '==':
            return z3.And(d <= m, d >= -m)
        return d <= m

    def __bool__(self):
        c = self.cond()
        return bool(c)

    def __and__(self, o):
        return self.env.And(self.cond(), o.cond() if isinstance(o, Rel) else o)


class Ex:
    """exact real expression"""
    __slots__ = ('z', 't', 'inf')
    __array_ufunc__ = None

    def __init__(self, z3, t, inf=None):
        self.z, self.t, self.inf = z3, t, inf

    def _o(self, o):
        from .core import SymReal, q
        if isinstance(o, Ex):
            if o.t is None:
                raise ValueError('arithmetic on infinity')
            return o.t
        if isinstance(o, SymReal):
            return o.t
        return q(o)

    def __add__(self, o):
        return Ex(self.z, self.t + self._o(o))

    __radd__ = __add__

    def __sub__(self, o):
        return Ex(self.z, self.t - self._o(o))

    def __rsub__(self, o):
        return Ex(self.z, self._o(o) - self.t)

    def __mul__(self, o):
        return Ex(self.z, self.t * self._o(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Ex(self.z, self.t / self._o(o))

    def __rtruediv__(self, o):
        return Ex(self.z, self._o(o) / self.t)

    def __neg__(self):
        if self.t is None:
            return Ex(self.z, None, -self.inf)
        return Ex(self.z, -self.t)

    def __pow__(self, n):
        r = self.z.RealVal(1)
        for _ in range(n):
            r = r * self.t
        return Ex(self.z, r)

    def _cmp(self, o, op):
        from .core import sbool, SymReal
        oi = o.inf if isinstance(o, Ex) else (float(o) if isinstance(o, (float, np.floating)) and not math.isfinite(o) else None)
        if self.t is None or oi is not None:
            if self.t is None and math.isnan(self.inf) or oi is not None and math.isnan(oi):
                return op == '!='
            a = self.inf if self.t is None else 0.0
            b = oi if oi is not None else 0.0
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        a, b = self.t, self._o(o)
        return sbool({'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                      '==': lambda: a == b, '!=': lambda: a != b}[op]())

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    __hash__ = object.__hash__


# ================================================================================================ concrete
class ConcEnv:
    symbolic = False

    def __init__(self, ip, inputs, rng=None, mode='R', jitter=0, tier='quick'):
        self.ip = ip
        self.np = np
        self.inputs = inputs          # name -> (kind, Fraction)
        self.rng = rng
        self.mode = mode
        self.jitter = jitter
        self.values = {}
        self.tier = tier
        self.scale = 1.0
        self.checks = 0
        self._eqmap = {}
        self._undo = []

    def _perturb(self, v, name):
        """jittered machine number near the model value, keeping sign and zero"""
        if self.jitter == 0 or self.rng is None:
            return float(v)
        r = self.rng
        base = float(v)
        if v in self._eqmap and r.random() < 0.7:
            return self._eqmap[v]
        p = r.random()
        if base == 0.0 and p < 0.8:
            out = 0.0
        elif p < 0.3:
            out = base * (1 + r.uniform(-1, 1) * 10.0 ** r.uniform(-16, -1))
        elif p < 0.45:
            out = base
        elif p < 0.75:
            out = base * 10.0 ** r.uniform(-1.5, 1.5)
        elif p < 0.9:
            out = float(round(base * 8)) / 8 if abs(base) < 1e6 else base
        else:
            out = r.uniform(-4, 4)
        self._eqmap[v] = out
        return out

    def real(self, name, kind='float', lo=None, hi=None):
        it = self.inputs.get(name)
        v = Fraction(0) if it is None or it[1] is None else it[1]
        if it is None and self.rng is not None:
            v = Fraction(self.rng.uniform(-3, 3))
        if kind == 'int':
            x = int(round(v)) if v.denominator != 1 or True else int(v)
            if self.jitter and self.rng.random() < 0.4:
                x += self.rng.randint(-2, 2)
        else:
            x = self._perturb(v, name)
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise Skip()
        self.scale = max(self.scale, min(abs(float(x)), 1e100))
        self.values[name] = x
        return np.float64(x) if kind == 'np' else x

    def exact(self, name, lo=None, hi=None):
        it = self.inputs.get(name)
        v = it[1] if it is not None and it[1] is not None else Fraction(0)
        if lo is not None and hi is not None:
            lo, hi = self.ex(lo), self.ex(hi)
            if lo > hi:
                raise Skip()
            if not isinstance(lo, Fraction) or not isinstance(hi, Fraction):
                v = v
            elif self.jitter and self.rng.random() < 0.6:
                k = self.rng.randrange(5)
                v = [lo, hi, (lo + hi) / 2, lo + (hi - lo) * Fraction(self.rng.random()), Fraction(0)][k]
            v = min(max(v, lo), hi)
        elif self.jitter:
            v = Fraction(self._perturb(v, name))
        if (lo is not None and v < self.ex(lo)) or (hi is not None and v > self.ex(hi)):
            raise Skip()
        self.values[name] = v
        self.scale = max(self.scale, min(abs(float(v)), 1e100))
        return v

    def boolean(self, name):
        it = self.inputs.get(name)
        b = bool(it[1]) if it is not None and it[1] is not None else False
        if self.jitter and self.rng.random() < 0.3:
            b = not b
        self.values[name] = b
        return b

    def arr(self, vals):
        return np.array(vals)

    def ex(self, v):
        return frac(v)

    def And(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not bool(c)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return frac(a) if bool(c) else frac(b)

    def min(self, *vs):
        return min(frac(v) for v in vs)

    def max(self, *vs):
        return max(frac(v) for v in vs)

    def abs(self, v):
        return abs(frac(v))

    def _tol(self, a, b):
        if self.mode != 'R':
            return 0
        m = 1 + min(abs(float(a)), 1e100) + min(abs(float(b)), 1e100) + self.scale ** 2
        return Fraction(1e-9 * m)

    def eq(self, a, b):
        a, b = frac(a), frac(b)
        if isinstance(a, float) or isinstance(b, float):
            return a == b
        return abs(a - b) <= self._tol(a, b)

    def le(self, a, b):
        a, b = frac(a), frac(b)
        if isinstance(a, float) or isinstance(b, float):
            return a <= b
        return a <= b + self._tol(a, b)

    def ge(self, a, b):
        return self.le(b, a)

    def lt(self, a, b):
        a, b = frac(a), frac(b)
        if isinstance(a, float) or isinstance(b, float):
            return a < b
        return a < b + self._tol(a, b)

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def check(self, label, cond, lemmas=(), timeout=None):
        self.checks += 1
        if not bool(cond):
            raise Violation(label)
        return True

    def fail(self, label):
        raise Violation(label)

    def stop(self):
        raise Skip()

    def call(self, fn, *allowed):
        try:
            return True, fn()
        except allowed as e:
            return False, e
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            raise Violation('no-exception:%s' % type(e).__name__, traceback.format_exc(limit=-4))

    def reach(self):
        pass

    def patch(self, name, value):
        import sys
        for k, m in list(sys.modules.items()):
            if (k == 'intvalpy' or k.startswith('intvalpy.')) and hasattr(m, name) and (name == 'cvxopt' or callable(getattr(m, name)) and \
                    not isinstance(getattr(m, name), type(sys))):
                self._undo.append((m, name, getattr(m, name)))
                setattr(m, name, value)

    def linalg(self, name, fn, replay=False):
        if replay:
            self._undo.append((np.linalg, name, getattr(np.linalg, name)))
            setattr(np.linalg, name, fn)

    def num(self, x, up=None):
        x = frac(x)
        f = float(x)
        if up is not None and math.isfinite(f):
            if up and Fraction(f) < x:
                f = math.nextafter(f, INF)
            if not up and Fraction(f) > x:
                f = math.nextafter(f, -INF)
        return f

    def fact(self, cond):
        pass

    def possible(self, cond):
        return True

    def close(self):
        for m, n, v in reversed(self._undo):
            setattr(m, n, v)
        self._undo = []

    def set_rounding(self, m):
        _libm().fesetround(m)

    def get_rounding(self):
        return _libm().fegetround()

