"""Interval Newton-like operators: Krawczyk, Hansen-Sengupta."""
import itertools
import math
from fractions import Fraction

from sx import core
from sx.registry import harness
from sx.member import tracker
from checks.common import C, contains, same, subset, proper
from checks.linear_direct import CONTRACT, stub_inv


class Problem:
    """a function with a zero z and its derivative, through what interval extensions of them guarantee: for the k-th distinct point c
    asked, f(c) contains S_k (c - z), where S_k is a slope matrix; the derivative of a box contains all the slopes between its points,
    so the k-th distinct box gets an interval matrix containing S_k, S_k+1, ..."""
    def __init__(self, E, T, n, it):
        self.E, self.T, self.n = E, T, n
        self.z = [E.exact('z%d' % i, -100, 100) for i in range(n)]
        self.ze = [T.expr(v) for v in self.z]
        T.pool = list(self.ze)
        self.S = [[[T.expr(E.exact('s%d_%d%d' % (k, i, j), -100, 100)) for j in range(n)] for i in range(n)] for k in range(it)]
        self.x0 = [T.around('x%d' % i, self.ze[i]) for i in range(n)]
        for v in self.x0:
            E.assume(E.And(v.a >= -100, v.b <= 100))
        self.points, self.boxes, self.first = {}, {}, None

    def start(self):
        return self.E.ip.asinterval(self.x0) if self.n > 1 else self.x0[0]

    def split(self, X):
        X = self.E.ip.asinterval(X)
        return [X] if self.n == 1 else [X[i] for i in range(self.n)]

    def key(self, X):
        f = lambda v: v.t.get_id() if hasattr(v, 't') else v
        self.keep = getattr(self, 'keep', []) + [X]
        return tuple((f(v.a), f(v.b)) for v in X)

    def pack(self, vals):
        return self.E.ip.asinterval(vals) if self.n > 1 else vals[0]

    def f(self, X):
        X = self.split(X)
        k = self.key(X)
        T, n = self.T, self.n
        if k not in self.points:
            i = len(self.points)
            if all(p == q for p, q in k):
                i = sum(1 for v in self.points.values() if v[1])
                if i >= len(self.S):
                    self.E.stop()
                S = self.S[i]
                ce = [T.expr(v.a) for v in X]
                e = [sum((S[r][j] * (ce[j] - self.ze[j]) for j in range(1, n)), S[r][0] * (ce[0] - self.ze[0])) for r in range(n)]
                self.points[k] = [T.around('f%d_%d' % (i, r), e[r]) for r in range(n)], True
            else:
                self.points[k] = [T.around('F%d_%d' % (i, r), T.expr(self.E.ex(0))) for r in range(n)], False
        return self.pack(self.points[k][0])

    def J(self, X):
        X = self.split(X)
        k = self.key(X)
        T, n = self.T, self.n
        if k not in self.boxes:
            i = len(self.boxes)
            if i >= len(self.S):
                self.E.stop()
            M = [[T.around('j%d_%d%d' % (i, r, c), self.S[i][r][c]) for c in range(n)] for r in range(n)]
            for S in self.S[i + 1:]:
                for r in range(n):
                    for c in range(n):
                        if self.E.symbolic:
                            T.track(M[r][c], S[r][c])
                        elif not M[r][c].a <= S[r][c] <= M[r][c].b:
                            v = float(S[r][c])
                            M[r][c] = self.E.ip.Interval(min(M[r][c].a, math.nextafter(v, -math.inf)), max(M[r][c].b, math.nextafter(v, math.inf)))
            self.boxes[k] = M
        M = self.boxes[k]
        return self.E.ip.asinterval(M) if n > 1 else M[0][0]


def join_free(E, T):
    """intersection as C10 establishes it, without a path per comparison"""
    if not E.symbolic:
        return
    z3, orig = E.z3, E.ip.intersection

    def one(x, y):
        for v in (x.a, x.b, y.a, y.b):
            if isinstance(v, float) and not math.isfinite(v):
                return orig(x, y)
        (a, b), _ = T.key(x)
        (c, d), _ = T.key(y)
        lo, hi = z3.If(a < c, c, a), z3.If(b < d, b, d)
        if not bool(core.sbool(lo - hi <= core.q(Fraction(1, 10 ** 15)))):
            return E.ip.Interval(math.nan, math.nan)
        n, p = z3.If(lo <= hi, lo, hi), z3.If(lo <= hi, hi, lo)
        R = T.fresh_interval()
        (r, s), _ = T.key(R)
        T.c.add(z3.And(r == n, s == p))
        for e in T.members(x):
            if e in T.members(y):
                T.track(R, e)
        return R

    def intersection(x, y):
        x, y = E.ip.asinterval(x), E.ip.asinterval(y)
        if isinstance(x, C(E)) and isinstance(y, C(E)):
            return one(x, y)
        if not x.shape == y.shape or x.ndim != 1:
            return orig(x, y)
        return E.ip.asinterval([one(x[i], y[i]) for i in range(len(x))])
    E.patch('intersection', intersection)


def no_eigenvalues(E):
    E.linalg('eigh', lambda M: (None, None))


def outcome(E, P, run):
    x0 = P.start()
    ok, r = E.call(lambda: run(x0), ValueError, ZeroDivisionError, E.np.linalg.LinAlgError, Exception)
    for v, w in zip(P.split(x0), P.x0):
        E.check('starting box unchanged', same(E, v, w))
    E.check('not refused before the derivative is known', ok or bool(P.boxes))
    if not ok:
        E.check('refused, not crashed' + ('' if type(r) is Exception else ' ' + repr(r)[:90]), type(r) is Exception or isinstance(r, (AssertionError, ValueError, ZeroDivisionError, E.np.linalg.LinAlgError)))
        return
    E.reach()
    r = P.split(r)
    E.check('shape', len(r) == P.n)
    for i in range(P.n):
        contains(E, 'zero', r[i], P.z[i])
        subset(E, 'inside the starting box', r[i], P.x0[i])


@harness('N01', cases=[dict(n=1, it=1), dict(n=1, it=2), dict(n=2, it=1)], thorough=[dict(n=1, it=3), dict(n=2, it=2)],
         stubs=CONTRACT + ['function and derivative: arbitrary intervals containing the value at the zero or point and the slopes',
                           'numpy.linalg.inv: raises or returns an arbitrary matrix; numpy.linalg.eigh'], max_paths=6000,
         bounds='one equation or two, up to 2 (3) steps')
def krawczyk(E, n, it):
    T = tracker(E)
    P = Problem(E, T, n, it)
    stub_inv(E, n, 's')
    no_eigenvalues(E)
    outcome(E, P, lambda x0: E.ip.nonlinear.Krawczyk(P.f, P.J, x0, maxiter=it - 1, tol=1e-3))


@harness('N01', cases=[dict(n=1, it=1), dict(n=1, it=2), dict(n=2, it=1)], thorough=[dict(n=1, it=3)],
         stubs=CONTRACT + ['function and derivative: arbitrary intervals containing the value at the zero or point and the slopes',
                           'numpy.linalg.inv: raises or returns an arbitrary matrix'], max_paths=6000,
         bounds='one equation, up to 2 (3) steps; two equations, one step with one sweep')
def hansen_sengupta(E, n, it):
    T = tracker(E)
    P = Problem(E, T, n, it)
    stub_inv(E, n, 's')
    if n > 1:
        join_free(E, T)
        full = E.ip.Gauss_Seidel
        E.patch('Gauss_Seidel', lambda A, b, *args, **kw: full(A, b, *args, **{**kw, 'maxiter': 0}))
    outcome(E, P, lambda x0: E.ip.nonlinear.HansenSengupta(P.f, P.J, x0, maxiter=it, tol=1e-3))


def gauss_seidel_contract(E, T):
    """Gauss-Seidel as L02 establishes it: raises, or returns a box with every tracked point of the starting box that solves a tracked member"""
    full, calls = E.ip.Gauss_Seidel, [0]

    def contract(A, b, *args, **kw):
        x0 = kw.get('x0', args[0] if args else None)
        if not E.symbolic or x0 is None:
            return full(A, b, *args, **kw)
        n = len(b)
        calls[0] += 1
        if E.boolean('refused%d' % calls[0]):
            raise AssertionError('refused')
        R = [T.fresh_interval() for j in range(n)]
        ms = [[T.members(A[i, j]) for j in range(n)] for i in range(n)]
        mb = [T.members(b[i]) for i in range(n)]
        for y in itertools.product(*[T.members(x0[j]) for j in range(n)]):
            if all(any(sum((p * v for p, v in zip(row[1:], y[1:])), row[0] * y[0]) == r for row in itertools.product(*ms[i]) for r in mb[i]) for i in range(n)):
                for j in range(n):
                    T.track(R[j], y[j])
        return E.ip.asinterval(R)
    E.patch('Gauss_Seidel', contract)


@harness('N01', cases=[dict(it=1), dict(it=2)], thorough=[dict(it=3)],
         stubs=CONTRACT + ['function and derivative: arbitrary intervals containing the value at the zero or point and the slopes',
                           'numpy.linalg.inv: raises or returns an arbitrary matrix',
                           'Gauss_Seidel: raises or returns an arbitrary box with the tracked solutions of its starting box (L02)'], max_paths=6000,
         bounds='two equations, up to 2 (3) steps')
def hansen_sengupta_steps(E, it):
    T = tracker(E)
    P = Problem(E, T, 2, it)
    if E.symbolic:
        stub_inv(E, 2, 's')
    join_free(E, T)
    gauss_seidel_contract(E, T)
    outcome(E, P, lambda x0: E.ip.nonlinear.HansenSengupta(P.f, P.J, x0, maxiter=it, tol=1e-3))


LINEAR = {'one': [[-4]], 'two': [[2, 1], [-1, 3]], 'swap': [[0, 2], [4, 1]], 'three': [[1, 2, 0], [0, 1, -1], [2, 0, 1]]}


@harness('N01', cases=[dict(M=k, m=m, it=it) for k in LINEAR for m, it in (('Krawczyk', 0), ('Krawczyk', 1), ('HansenSengupta', 1))], max_paths=6000,
         stubs=['numpy.linalg.inv: exact; numpy.linalg.eigh'],
         bounds='listed matrices of orders 1 to 3, every right-hand side and starting box; exact arithmetic')
def linear_equations(E, M, m, it):
    """equations with a constant derivative: the zero itself, or no solution in the box"""
    A = LINEAR[M]
    n = len(A)
    no_eigenvalues(E)
    z = [E.real('z%d' % i, lo=-100, hi=100) for i in range(n)]
    x0 = [proper(E, 'x%d' % i, lo=-100, hi=100) for i in range(n)]
    b = [sum(float(A[i][j]) * z[j] for j in range(n)) for i in range(n)]
    P = lambda v: C(E)(v, v)
    calls = []

    def f(X):
        if n == 1:
            return P(float(A[0][0])) * X - P(b[0])
        return E.ip.asinterval([sum((P(float(A[i][j])) * X[j] for j in range(1, n)), P(float(A[i][0])) * X[0]) - P(b[i]) for i in range(n)])

    def J(X):
        calls.append(X)
        return P(float(A[0][0])) if n == 1 else E.ip.asinterval([[P(float(v)) for v in r] for r in A])
    ok, r = E.call(lambda: getattr(E.ip.nonlinear, m)(f, J, E.ip.asinterval(x0) if n > 1 else x0[0], maxiter=it, tol=1e-3), Exception)
    E.reach()
    inside = E.And(*[E.And(E.ex(v.a) <= E.ex(t), E.ex(t) <= E.ex(v.b)) for v, t in zip(x0, z)])
    if not ok:
        E.check('refused, not crashed', type(r) is Exception)
        E.check('refused although the zero is in the box', E.Not(inside))
        return
    r = [r] if n == 1 else [r[i] for i in range(n)]
    for i in range(n):
        E.check('the zero', E.Implies(inside, E.And(E.eq(r[i].a, E.ex(z[i])).cond(), E.eq(r[i].b, E.ex(z[i])).cond())))
