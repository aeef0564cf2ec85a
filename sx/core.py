"""Symbolic executor: proxies over z3 terms, DFS path exploration by re-execution, proof obligations."""
import math
import numbers
import sys
import time
from fractions import Fraction

import numpy as np

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3

z3.set_param('memory_max_size', 6000)

FE_NEAR, FE_DOWN, FE_UP, FE_ZERO = 0, 0x400, 0x800, 0xc00


class Control(BaseException):
    """steers the exploration: never caught by the code under test"""


class Infeasible(Control):
    pass


class Unsupported(Control):
    pass


class PathEnd(Control):
    pass


CTX = None      # the current context


def ctx():
    return CTX


def q(v):
    """exact z3 constant of a python/numpy number"""
    if isinstance(v, (bool, np.bool_)):
        v = int(v)
    if isinstance(v, (int, np.integer)):
        return z3.RealVal(int(v))
    if isinstance(v, Fraction):
        return z3.Q(v.numerator, v.denominator)
    f = Fraction(float(v))
    return z3.Q(f.numerator, f.denominator)


_simplify_cache = {}


def sbool(t):
    """SymBool or a plain bool when the term is constant"""
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class SymBool:
    __slots__ = ('t',)
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else sbool(z3.And(self.t, t))

    __rand__ = __and__

    def __or__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else sbool(z3.Or(self.t, t))

    __ror__ = __or__

    def __invert__(self):
        return sbool(z3.Not(self.t))

    def __xor__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else sbool(z3.Xor(self.t, t))

    def __eq__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else sbool(self.t == t)

    def __ne__(self, o):
        t = self._o(o)
        return NotImplemented if t is None else sbool(self.t != t)

    __hash__ = object.__hash__

    # numeric use of a truth value: fork
    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __mul__(self, o):
        return bool(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return bool(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return bool(self) - o

    def __rsub__(self, o):
        return o - bool(self)

    def any(self):
        return self

    def all(self):
        return self


def _isnum(v):
    return isinstance(v, (int, float, np.integer, np.floating, np.bool_, Fraction)) and not isinstance(v, SymReal)


INTERVALISH = []       # classes whose operators must take precedence (filled by the loader)
DEFERCLS = ()


class SymReal:
    """A Python float (or int when isint) whose value is the z3 real term t (always finite)."""
    __slots__ = ('t', 'isint')

    def __init__(self, t, isint=False):
        self.t = t
        self.isint = isint

    # ------------------------------------------------------------ arithmetic
    def _bin(self, o, op, rev=False):
        if isinstance(o, SymReal):
            if isinstance(o, SymNp) and not isinstance(self, SymNp):
                return o._bin2(self, op, not rev)
            return self._bin2(o, op, rev)
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, np.float64) and not isinstance(self, SymNp):
            return SymNp(self.t, self.isint)._bin2(o, op, rev)
        if _isnum(o):
            return self._bin2(o, op, rev)
        return NotImplemented

    def _wrap(self, t, isint=False):
        return SymReal(t, isint)

    def _bin2(self, o, op, rev):
        a, b = (o, self) if rev else (self, o)
        return CTX.arith(op, a, b, SymNp if isinstance(self, SymNp) else SymReal)

    def __add__(self, o):
        return self._bin(o, '+')

    def __radd__(self, o):
        return self._bin(o, '+', True)

    def __sub__(self, o):
        return self._bin(o, '-')

    def __rsub__(self, o):
        return self._bin(o, '-', True)

    def __mul__(self, o):
        return self._bin(o, '*')

    def __rmul__(self, o):
        return self._bin(o, '*', True)

    def __truediv__(self, o):
        return self._bin(o, '/')

    def __rtruediv__(self, o):
        return self._bin(o, '/', True)

    def __pow__(self, o, m=None):
        return CTX.power(self, o)

    def __rpow__(self, o):
        raise Unsupported('number ** symbolic')

    def __floordiv__(self, o):
        return CTX.floordiv(self, o)

    def __mod__(self, o):
        return CTX.mod(self, o)

    def __neg__(self):
        return type(self)(z3.simplify(-self.t), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return CTX.absval(self)

    # ------------------------------------------------------------ comparison
    def _cmp(self, o, op):
        if isinstance(o, SymReal):
            b = o.t
        elif isinstance(o, SymBool):
            b = q(int(bool(o)))
        elif _isnum(o):
            if isinstance(o, (float, np.floating)):
                if math.isnan(o):
                    return op == '!='
                if math.isinf(o):
                    return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
            b = q(o)
        else:
            return NotImplemented
        a = self.t
        if CTX is not None and CTX.opts.get('signsplit') and z3.is_rational_value(b) and b.as_fraction() == 0 \
                and z3.is_mul(a) and a.num_args() == 2 and not any(z3.is_rational_value(x) for x in a.children()):
            # sign of a product
            u, v = a.children()
            pos = z3.Or(z3.And(u > 0, v > 0), z3.And(u < 0, v < 0))
            neg = z3.Or(z3.And(u > 0, v < 0), z3.And(u < 0, v > 0))
            return sbool({'<': neg, '<=': z3.Not(pos), '>': pos, '>=': z3.Not(neg), '==': z3.Or(u == 0, v == 0),
                          '!=': z3.And(u != 0, v != 0)}[op])
        return sbool({'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                      '==': lambda: a == b, '!=': lambda: a != b}[op]())

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        return hash(self.t.hash())

    def __bool__(self):
        return bool(self != 0)

    # ------------------------------------------------------------ misc protocol
    def __float__(self):
        raise Unsupported('float(symbolic)')

    def __int__(self):
        raise Unsupported('int(symbolic)')

    def __index__(self):
        raise Unsupported('index(symbolic)')

    def __floor__(self):
        return CTX.floor(self)

    def __ceil__(self):
        return CTX.ceil(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def is_integer(self):
        raise Unsupported('is_integer')

    # numpy object ufuncs look these up as methods
    def sqrt(self):
        return CTX.sqrt(self)

    def exp(self):
        return CTX.libm('exp', self)

    def log(self):
        return CTX.libm('log', self)

    def sin(self):
        return CTX.libm('sin', self)

    def cos(self):
        return CTX.libm('cos', self)

    def item(self):
        return self

    def __repr__(self):
        s = str(self.t)
        return '<%s>' % (s if len(s) < 60 else s[:57] + '...')

    def __format__(self, spec):
        return repr(self)


numbers.Number.register(SymReal)
numbers.Real.register(SymReal)


class SymNp(SymReal):
    """np.float64: its operators go through ufuncs, which the interval classes override."""
    __slots__ = ()

    _UF = {'+': np.add, '-': np.subtract, '*': np.multiply, '/': np.true_divide}

    def _bin(self, o, op, rev=False):
        au = getattr(type(o), '__array_ufunc__', None)
        if au is not None and not isinstance(o, (np.ndarray, np.generic)) and not isinstance(o, SymReal):
            uf = self._UF[op]
            r = o.__array_ufunc__(uf, '__call__', o, self) if rev else o.__array_ufunc__(uf, '__call__', self, o)
            return r
        return super()._bin(o, op, rev)

    def _cmp(self, o, op):
        return super()._cmp(o, op)


class Ctx:
    def __init__(self, mode='R', prefix=(), feas_timeout=400, proof_timeout=15000, opts=None):
        self.mode = mode
        self.prefix = list(prefix)
        self.decisions = []
        self.alts = []
        self.pc = []
        self.axioms = []
        self.solver = z3.Solver()
        self.solver.set('timeout', feas_timeout)
        self.proof_timeout = proof_timeout
        self.rm = FE_NEAR
        self.fresh_n = 0
        self.opcache = {}
        self.inputs = {}        # name -> (kind, term, meta)
        self.opts = opts or {}
        self.stats = {'branches': 0, 'feas_queries': 0, 'solver_s': 0.0, 'obligations': 0, 'discharged': 0,
                      'trivial': 0}
        self.results = []       # violations / unknowns found on this path
        self.libm_calls = {}
        self.reached = False
        self.known = {}

    # ------------------------------------------------------------------ basics
    def fresh(self, base='r'):
        self.fresh_n += 1
        return z3.Real('%s!%d' % (base, self.fresh_n))

    def fresh_int(self, base='k'):
        self.fresh_n += 1
        return z3.Int('%s!%d' % (base, self.fresh_n))

    def fresh_bool(self, base='b'):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (base, self.fresh_n))

    def add(self, c):
        """a constraint that always can be met (definition of a fresh variable, stub contract)"""
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise Infeasible()
            return
        t = c.t if isinstance(c, SymBool) else c
        self.add(t)
        if self._check() == z3.unsat:
            raise Infeasible()

    def _check(self, *extra):
        self.stats['feas_queries'] += 1
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.time() - t0
        return r

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        if key in self.known:
            return self.known[key][1]
        i = len(self.decisions)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
            self.decisions.append((v, forced))
            if not forced:
                self.add(c if v else z3.Not(c))
            self.known[key] = (c, v)
            return v
        self.stats['branches'] += 1
        nc = z3.Not(c)
        rt = self._check(c)
        if rt == z3.unsat:
            self.decisions.append((False, True))
            self.known[key] = (c, False)
            return False
        rf = self._check(nc)
        if rf == z3.unsat:
            self.decisions.append((True, True))
            self.known[key] = (c, True)
            return True
        self.alts.append(self.decisions + [(False, False)])
        self.decisions.append((True, False))
        self.add(c)
        self.known[key] = (c, True)
        return True

    def choose(self, n):
        """nondeterministic choice 0..n-1"""
        for k in range(n - 1):
            if self.branch(self.fresh_bool('choice')):
                return k
        return n - 1

    # ------------------------------------------------------------------ arithmetic
    def term(self, v):
        return v.t if isinstance(v, SymReal) else q(v)

    def arith(self, op, a, b, cls=SymReal):
        ai = a.isint if isinstance(a, SymReal) else isinstance(a, (int, np.integer)) and not isinstance(a, bool) or isinstance(a, (bool, np.bool_))
        bi = b.isint if isinstance(b, SymReal) else isinstance(b, (int, np.integer)) or isinstance(b, (bool, np.bool_))
        for v, other, left in ((a, b, True), (b, a, False)):
            if not isinstance(v, SymReal) and isinstance(v, (float, np.floating)) and not math.isfinite(v):
                return self.inf_arith(op, a, b)
        ta, tb = self.term(a), self.term(b)
        both_int = ai and bi
        ca = None if isinstance(a, SymReal) and not z3.is_rational_value(ta) else ta
        cb = None if isinstance(b, SymReal) and not z3.is_rational_value(tb) else tb
        za = ca is not None and z3.simplify(ca).as_fraction() == 0
        zb = cb is not None and z3.simplify(cb).as_fraction() == 0
        if op == '/':
            if zb:
                if cls is SymNp:
                    raise Unsupported('numpy division by zero')
                raise ZeroDivisionError('division by zero')
            if cb is None and self.branch(tb == 0):
                if cls is SymNp:
                    raise Unsupported('numpy division by zero')
                raise ZeroDivisionError('division by zero')
        # exact cases
        if op == '+' and za:
            return cls(tb, both_int)
        if op in '+-' and zb:
            return cls(ta, both_int)
        if op == '*' and (za or zb):
            return cls(z3.RealVal(0), both_int)
        if op == '-' and za:
            return cls(z3.simplify(-tb), both_int)
        if op == '/' and za:
            return cls(z3.RealVal(0))
        if op in '*/' and cb is not None:
            f = z3.simplify(cb).as_fraction()
            if f == 1:
                return cls(ta, both_int and op == '*')
            if f == -1:
                return cls(z3.simplify(-ta), both_int and op == '*')
        if op == '*' and ca is not None:
            f = z3.simplify(ca).as_fraction()
            if f == 1:
                return cls(tb, both_int)
            if f == -1:
                return cls(z3.simplify(-tb), both_int)
        if self.mode == 'R' or (both_int and op in '+-*'):
            if op == '/' and cb is None:
                return cls(self.quotient(ta, tb))
            v = {'+': lambda: ta + tb, '-': lambda: ta - tb, '*': lambda: ta * tb, '/': lambda: ta / tb}[op]()
            return cls(z3.simplify(v, som=False), both_int and op != '/')
        return cls(self.rounded(op, ta, tb, ca, cb))

    def quotient(self, ta, tb):
        key = ('/', ta.get_id(), tb.get_id())
        hit = self.opcache.get(key)
        if hit is not None:
            return hit[0]
        r = self.fresh('q')
        self.add(r * tb == ta)
        self.opcache[key] = (r, ta, tb)
        return r

    def inf_arith(self, op, a, b):
        """one operand is a concrete infinity or nan, the other a finite symbolic real"""
        sa = isinstance(a, SymReal)
        c = b if sa else a
        if math.isnan(c):
            return float('nan')
        s = a if sa else b
        if op == '+':
            return float(c)
        if op == '-':
            return float(-c) if sa else float(c)
        if op == '/' and sa:
            return 0.0
        sg = 1 if bool(s > 0) else (-1 if bool(s < 0) else 0)
        if op == '*':
            return float('nan') if sg == 0 else float(c) * sg
        if op == '/':
            if sg == 0:
                raise ZeroDivisionError('division by zero')
            return float(c) * sg
        raise Unsupported('inf ' + op)

    # floating point: fresh result constrained by the rounding contract
    def rounded(self, op, ta, tb, ca=None, cb=None):
        # a power of two factor is exact (no underflow within the stated bounds)
        f = None
        if op in '*/' and (cb is not None or (ca is not None and op == '*')):
            f = z3.simplify(cb if cb is not None else ca).as_fraction()
            f = Fraction(f)
            if self.opts.get('pow2exact') and abs(f.numerator) & (abs(f.numerator) - 1) == 0 and f.denominator & (f.denominator - 1) == 0:
                return z3.simplify((ta if cb is not None else tb) * q(f if op == '*' else 1 / f))
        if op in '+*' and ta.get_id() > tb.get_id():
            ta, tb, ca, cb = tb, ta, cb, ca
        rm = self.rm
        key = (op, rm, ta.get_id(), tb.get_id())
        hit = self.opcache.get(key)
        if hit is not None:
            return hit[0]
        # exact value
        ekey = ('exact', op, ta.get_id(), tb.get_id())
        eh = self.opcache.get(ekey)
        if eh is None:
            if op == '+':
                v = ta + tb
            elif op == '-':
                v = ta - tb
            elif op == '*':
                v = ta * tb
            else:
                v = ta / tb if cb is not None else self.quotient(ta, tb)
            self.opcache[ekey] = (v, ta, tb)
        else:
            v = eh[0]
        r = self.round_term(v, rm, nm={'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op])
        self.opcache[key] = (r, ta, tb)
        if op in '+-':
            # adding zero is exact
            if ca is None:
                self.add(z3.Implies(ta == 0, r == (tb if op == '+' else -tb)))
            if cb is None:
                self.add(z3.Implies(tb == 0, r == ta))
        return r

    def round_term(self, v, rm, nm='rnd'):
        r = self.fresh(nm + {FE_NEAR: 'N', FE_DOWN: 'D', FE_UP: 'U', FE_ZERO: 'Z'}[rm])
        if rm == FE_DOWN:
            self.add(r <= v)
            self.add(z3.Implies(v >= 0, r >= 0))
        elif rm == FE_UP:
            self.add(r >= v)
            self.add(z3.Implies(v <= 0, r <= 0))
        elif rm == FE_ZERO:
            self.add(z3.If(v >= 0, z3.And(r >= 0, r <= v), z3.And(r <= 0, r >= v)))
        else:
            self.add(z3.Implies(v >= 0, r >= 0))
            self.add(z3.Implies(v <= 0, r <= 0))
        if self.opts.get('relerr', True) or rm == FE_NEAR:
            u = Fraction(1, 2 ** 53) if rm == FE_NEAR else Fraction(1, 2 ** 52)
            eta = Fraction(1, 2 ** 1075) if rm == FE_NEAR else Fraction(1, 2 ** 1074)
            if self.opts.get('eta') is not None:
                eta = Fraction(self.opts['eta'])
            if self.opts.get('relerr', True):
                e = q(u) * z3.If(v >= 0, v, -v) + q(eta)
                self.add(r - v <= e)
                self.add(v - r <= e)
        return r

    def power(self, a, n):
        if isinstance(n, SymReal):
            raise Unsupported('symbolic exponent')
        if isinstance(n, (int, np.integer)) and not isinstance(n, bool):
            n = int(n)
            if n >= 0:
                t = z3.RealVal(1)
                for _ in range(n):
                    t = t * a.t
                if self.mode == 'R' or a.isint or n <= 1:
                    return type(a)(z3.simplify(t), a.isint)
                key = ('pow', n, self.rm, a.t.get_id())
                if key in self.opcache:
                    return type(a)(self.opcache[key][0])
                r = self.powfp(a.t, n, t)
                self.opcache[key] = (r, a.t)
                return type(a)(r)
            if self.mode == 'R':
                return 1.0 / self.power(a, -n)
        if isinstance(n, float) and n == 0.5:
            return self.sqrt(a)
        if isinstance(n, float) and n.is_integer():
            return self.power(SymReal(a.t), int(n))
        raise Unsupported('power %r' % (n,))

    def powfp(self, t, n, v):
        """libm pow with an integer exponent: faithful (error below one ulp), sign preserved, exact at 0, 1, -1"""
        r = self.fresh('pow')
        self.add(z3.Implies(v >= 0, r >= 0))
        self.add(z3.Implies(v <= 0, r <= 0))
        dn, up = self.neighbours(r)
        self.add(dn <= v)
        self.add(v <= up)
        self.add(z3.Implies(z3.Or(t == 0, t == 1, t == -1), r == v))
        return r

    def neighbours(self, r):
        key = ('nb', r.get_id())
        if key in self.opcache:
            return self.opcache[key][0]
        d, u = self.fresh('pred'), self.fresh('succ')
        self.add(d < r)
        self.add(u > r)
        self.add(z3.Implies(r > 0, d >= 0))
        self.add(z3.Implies(r < 0, u <= 0))
        e = q(Fraction(1, 2 ** 52)) * z3.If(r >= 0, r, -r) + q(Fraction(1, 2 ** 1074))
        self.add(u - r <= e)
        self.add(r - d <= e)
        if self.opts.get('nbpairs'):
            f = q(Fraction(1, 2 ** 53)) * z3.If(r >= 0, r, -r)
            self.add(u - r >= f)
            self.add(r - d >= f)
            for (d2, u2), r2 in [v for k, v in self.opcache.items() if k[0] == 'nb']:
                self.add(z3.Implies(r < r2, z3.And(u <= r2, r <= d2)))
                self.add(z3.Implies(r2 < r, z3.And(u2 <= r, r2 <= d)))
                self.add(z3.Implies(r2 == r, z3.And(u2 == u, d2 == d)))
        self.opcache[key] = ((d, u), r)
        return d, u

    def nextafter(self, x, y):
        if isinstance(x, SymReal):
            d, u = self.neighbours(x.t)
            up = y > x
            if isinstance(up, SymBool):
                if bool(up):
                    return SymReal(u)
                if bool(y == x):
                    return SymReal(x.t)
                return SymReal(d)
            return SymReal(u if up else d)
        if isinstance(y, SymReal):
            raise Unsupported('nextafter')
        return math.nextafter(x, y)

    def absval(self, a):
        t = z3.simplify(z3.If(a.t >= 0, a.t, -a.t))
        return type(a)(t, a.isint)

    def sqrt(self, a):
        if not isinstance(a, SymReal):
            return math.sqrt(a)
        if bool(a < 0):
            raise ValueError('math domain error')
        key = ('sqrt', self.rm if self.mode == 'F' else 0, a.t.get_id())
        if key in self.opcache:
            return type(a)(self.opcache[key][0])
        v = self.fresh('sqrt')
        self.add(v >= 0)
        self.add(v * v == a.t)
        r = v if self.mode == 'R' else self.round_term(v, self.rm, 'rsqrt')
        self.opcache[key] = (r, a.t)
        return type(a)(r)

    def floor(self, a):
        if not isinstance(a, SymReal):
            return math.floor(a)
        if a.isint:
            return a
        if self.opts.get('floor_abs'):
            return SymReal(self.floor_abs(a.t, 'floor'), True)
        return SymReal(z3.ToReal(z3.ToInt(a.t)), True)

    def ceil(self, a):
        if not isinstance(a, SymReal):
            return math.ceil(a)
        if a.isint:
            return a
        if self.opts.get('floor_abs'):
            return SymReal(self.floor_abs(a.t, 'ceil'), True)
        return SymReal(z3.simplify(-z3.ToReal(z3.ToInt(-a.t))), True)

    def floor_abs(self, t, kind):
        """floor/ceil as a real within one of its argument; its integrality is used through lemmas of the harness"""
        key = (kind, t.get_id())
        if key not in self.opcache:
            r = self.fresh(kind)
            if kind == 'floor':
                self.add(z3.And(r <= t, t < r + 1))
            else:
                self.add(z3.And(r >= t, t > r - 1))
            self.opcache[key] = (r, t, kind)
        return self.opcache[key][0]

    def floors(self):
        return [v for k, v in self.opcache.items() if k[0] in ('floor', 'ceil')]

    def floordiv(self, a, b):
        raise Unsupported('floor division')

    def mod(self, a, b):
        raise Unsupported('modulo')

    def libm(self, name, x):
        h = self.opts.get('libm')
        if h is None:
            raise Unsupported('libm ' + name)
        return h(self, name, x)

    def minmax(self, vals, ismax):
        """builtin min/max over scalars, without forking"""
        syms = [v for v in vals if isinstance(v, SymReal)]
        if not syms:
            return (max if ismax else min)(vals)
        best = vals[0]
        for v in vals[1:]:
            c = (v > best) if ismax else (v < best)
            if isinstance(c, (bool, np.bool_)):
                best = v if c else best
                continue
            if not isinstance(c, SymBool):
                raise Unsupported('min/max')
            best = self.ite(c, v, best)
        return best

    def ite(self, c, a, b):
        if isinstance(c, (bool, np.bool_)):
            return a if c else b
        for v in (a, b):
            if isinstance(v, (float, np.floating)) and not isinstance(v, SymReal) and not math.isfinite(v):
                return a if bool(c) else b
        ia = a.isint if isinstance(a, SymReal) else isinstance(a, (int, np.integer))
        ib = b.isint if isinstance(b, SymReal) else isinstance(b, (int, np.integer))
        if ia != ib and (ia and not isinstance(a, SymReal) or ib and not isinstance(b, SymReal)):
            ia = ib = False        # constant ints mix freely with floats
        if ia != ib:
            return a if bool(c) else b
        cls = SymNp if isinstance(a, SymNp) and isinstance(b, SymNp) else SymReal
        return cls(z3.simplify(z3.If(c.t, self.term(a), self.term(b))), ia and ib)

    # ------------------------------------------------------------------ obligations
    def prove(self, cond, label, timeout=None):
        """True / 'sat' model / 'unknown'"""
        self.stats['obligations'] += 1
        self.reached = True
        if isinstance(cond, (bool, np.bool_)):
            goal = z3.BoolVal(bool(cond))
        else:
            goal = cond.t if isinstance(cond, SymBool) else cond
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.stats['discharged'] += 1
            self.stats['trivial'] += 1
            return True
        asserts = self.pc + self.axioms
        if is_linear(g):
            # fewer hypotheses first: the linear ones often suffice
            lin = [e for e in asserts if is_linear(e)]
            if len(lin) < len(asserts):
                s = z3.Solver()
                s.set('timeout', 500)
                s.add(*lin)
                s.add(z3.Not(g))
                t0 = time.time()
                r = s.check()
                self.stats['solver_s'] += time.time() - t0
                self.stats['proof_queries'] = self.stats.get('proof_queries', 0) + 1
                if r == z3.unsat:
                    self.stats['discharged'] += 1
                    return True
        r, model = solve(asserts + [z3.Not(g)], timeout or self.proof_timeout, self.stats)
        if r == 'unsat':
            self.stats['discharged'] += 1
            return True
        self.results.append({'label': label, 'verdict': r, 'model': self.extract(model) if model is not None else None,
                             'goal': g, 'pc': list(self.pc) + self.axioms})
        return False

    def extract(self, model):
        out = {}
        for name, item in self.inputs.items():
            if name.startswith('__'):
                continue
            kind, t = item[0], item[1]
            v = model.eval(t, model_completion=True)
            out[name] = (kind, val_fraction(v)) + tuple(item[2:])
        return out


_LIN = {}


def is_linear(e):
    k = e.get_id()
    if k in _LIN and _LIN[k][0].eq(e):
        return _LIN[k][1]
    kids = e.children()
    r = True
    if z3.is_mul(e):
        r = sum(1 for x in kids if not z3.is_rational_value(x)) <= 1
    elif z3.is_div(e):
        r = z3.is_rational_value(kids[1])
    elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_POWER:
        r = False
    r = r and all(is_linear(x) for x in kids)
    _LIN[k] = (e, r)
    return r


def val_fraction(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v) or z3.is_false(v):
        return Fraction(1 if z3.is_true(v) else 0)
    return None


def has_toint(exprs):
    seen = set()
    st = list(exprs)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app_of(e, z3.Z3_OP_TO_INT) or e.sort() == z3.IntSort():
            return True
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            return True
        st.extend(e.children())
    return False


def solve(assertions, timeout, stats):
    """portfolio: z3 default core, z3 nlsat, cvc5.  -> ('unsat'|'sat'|'unknown', model)"""
    t0 = time.time()
    try:
        s = z3.Solver()
        s.set('timeout', min(timeout, 2500))
        s.add(*assertions)
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
        if not has_toint(assertions):
            try:
                s = z3.Then(z3.With('simplify', som=False), 'elim-term-ite', 'solve-eqs', 'purify-arith', 'simplify',
                            'qfnra-nlsat').solver()
                s = z3.SolverFor('QF_NRA')
                s.set('timeout', timeout)
                s.add(*assertions)
                r = s.check()
                if r == z3.unsat:
                    return 'unsat', None
                if r == z3.sat:
                    return 'sat', s.model()
            except z3.Z3Exception:
                pass
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*assertions)
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
        r = cvc5_solve(assertions, timeout)
        stats['cvc5'] = stats.get('cvc5', 0) + 1
        return r, None
    finally:
        dt = time.time() - t0
        stats['solver_s'] += dt
        stats['proof_queries'] = stats.get('proof_queries', 0) + 1
        stats['max_query_s'] = max(stats.get('max_query_s', 0), dt)


def cvc5_solve(assertions, timeout):
    import subprocess
    s = z3.Solver()
    s.add(*assertions)
    text = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '-'], input=text, capture_output=True,
                           text=True, timeout=timeout / 1000 + 10)
    except Exception:
        return 'unknown'
    out = p.stdout.strip().splitlines()
    if '(error' in p.stdout or '(error' in p.stderr:
        return 'unknown'
    # a cvc5 'sat' comes without a model we can use: only unsat is taken
    return 'unsat' if out and out[0] == 'unsat' else 'unknown'


def nice_model(pc, goal, inputs, timeout=3000):
    """another model of the same counterexample with small dyadic inputs, if there is one"""
    return None


def explore(fn, make_ctx, max_paths=2000, deadline=None, work=None, slice_s=None):
    """run fn(ctx) over every feasible path.  -> list of finished contexts, plus summary"""
    global CTX
    work = [[]] if work is None else list(work)
    t0 = time.time()
    out = {'paths': 0, 'infeasible': 0, 'unsupported': [], 'incomplete': False, 'results': [], 'stats': {},
           'reached': 0, 'pending': []}
    while work:
        if out['paths'] >= max_paths or (deadline and time.time() > deadline):
            out['incomplete'] = True
            break
        if slice_s is not None and time.time() - t0 > slice_s:
            out['pending'] = work        # another process goes on
            break
        prefix = work.pop()
        c = make_ctx(prefix)
        CTX = c
        try:
            fn(c)
            out['paths'] += 1
        except Infeasible:
            out['infeasible'] += 1
        except PathEnd:
            out['paths'] += 1
        except Unsupported as e:
            # only matters when the path is feasible
            r, _ = solve(c.pc, 5000, c.stats)
            if r != 'unsat':
                tb, where = e.__traceback__, []
                while tb is not None:
                    f = tb.tb_frame.f_code
                    if '/sx/' not in f.co_filename:
                        where.append('%s:%d' % (f.co_filename.split('/')[-1], tb.tb_lineno))
                    tb = tb.tb_next
                out['unsupported'].append('%s [%s]' % (e, ' '.join(where[-5:])))
        finally:
            CTX = None
        work.extend(c.alts)
        for k, v in c.stats.items():
            if k == 'max_query_s':
                out['stats'][k] = max(out['stats'].get(k, 0), v)
            else:
                out['stats'][k] = out['stats'].get(k, 0) + v
        out['results'] += c.results
        if c.reached:
            if not out['reached']:
                r, _ = solve(c.pc, 5000, c.stats)
                out['reached'] += 1 if r != 'unsat' else 0
            else:
                out['reached'] += 1
    return out
