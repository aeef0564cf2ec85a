"""Chebyshev norm of the residual: value, subgradient, what is minimised."""
import itertools
from fractions import Fraction

from sx.lp import install
from sx.registry import harness
from checks.common import proper
from checks.linear_functionals import MATS, captured, constraint, data, least_sum, row_range, violation


def spec(E, row, b, x):
    """largest |a x - t| over a in the row, t in b"""
    lo, hi = row_range(E, row, x)
    return E.max(E.ex(b.b) - lo, hi - E.ex(b.a))


STUBS = ['cvxopt.solvers.lp: an optimal point of the box program', 'ralgb5: records its arguments, arbitrary answer']


def problem(E, n, m, w, mat):
    if mat is None:
        A, b, W = data(E, n, m, w)
    else:
        A = [[E.ip.Interval(float(l), float(h)) for l, h in r] for r in MATS[mat]]
        b = [proper(E, 'b%d' % i) for i in range(n)]
        W = [2.0, 1.0, 0.5][:n]
    x = [E.real('x%d' % j) for j in range(m)]

    def vertices(c, G, h):
        # ends of the rows in the direction of the objective (the program's variables are one row of the matrix)
        return [[E.If(cj >= 0, E.ex(a.a), E.ex(a.b)) for cj, a in zip(c, r)] for r in A if len(r) == len(c)]
    install(E, vertices, infeasible=False)
    return A, b, W, x, E.ip.asinterval(A), E.ip.asinterval(b)


CASES = [dict(n=1, m=1, w=1, mat=None), dict(n=1, m=2, w=0, mat=None), dict(n=2, m=1, w=2, mat=0), dict(n=2, m=2, w=2, mat=1)]


@harness('L14', cases=CASES, thorough=[dict(n=3, m=2, w=2, mat=2), dict(n=2, m=1, w=1, mat=None)], stubs=STUBS, opts={'signsplit': True},
         bounds='every matrix 1x1 and 1x2, listed matrices 2x1, 2x2 (3x2); every right-hand side and argument; exact arithmetic')
def cheb_value(E, n, m, w, mat):
    A, b, W, x, AI, bI = problem(E, n, m, w, mat)
    kw = {'weight': E.arr(W)} if w else {}
    ok, c = E.call(lambda: E.ip.ChebNorm.constituent(AI, bI, E.arr(x), **kw))
    ok, v = E.call(lambda: E.ip.ChebNorm.value(AI, bI, E.arr(x), **kw))
    E.reach()
    E.check('shape', len(c) == n)
    for i in range(n):
        s = spec(E, A[i], b[i], x)
        E.check('constituent', E.eq(c[i], E.ex(W[i]) * s if w else s))
    E.check('value', E.eq(v, E.max(*[E.ex(t) for t in c])))


@harness('L14', cases=[dict(c, s=s) for c in CASES for s in itertools.product((0, 1), repeat=c['m'])],
         thorough=[dict(n=3, m=2, w=2, mat=2, s=s) for s in itertools.product((0, 1), repeat=2)],
         stubs=STUBS, opts={'signsplit': True},
         bounds='every matrix 1x1 and 1x2, listed matrices 2x1, 2x2 (3x2); every right-hand side and argument; exact arithmetic', timeout=8000)
def cheb_objective(E, n, m, w, mat, s):
    """minimize hands the norm and a subgradient to the optimiser and returns its answer"""
    A, b, W, x, AI, bI = problem(E, n, m, w, mat)
    y = [E.real('y%d' % j) for j in range(m)]
    for j in range(m):
        if n > 1 and m > 1:
            E.assume(x[j] > 0 if s[j] else x[j] < 0)
        else:
            E.assume(x[j] >= 0 if s[j] else x[j] <= 0)
    kw = {'weight': E.arr(W)} if w else {}
    cap, ans, r = captured(E, 'ChebNorm', AI, bI, x0=E.arr(x), maxiter=31, **kw)
    E.reach()
    E.check('optimiser used', 'f' in cap)
    E.check('options handed on', cap['kw'].get('maxiter') == 31)
    for j in range(m):
        E.check('starting point', E.eq(cap['x0'][j], x[j]))
        E.check('optimum point', E.eq(r[0][j], ans['xr'][j]))
    E.check('optimum value', E.eq(r[1], ans['fr']))
    E.check('rest of the answer', tuple(r[2:]) == (7, 9, 3))
    ok, (f, g) = E.call(lambda: cap['f'](E.arr(x)))
    cx = [spec(E, A[i], b[i], x) for i in range(n)]
    cy = [spec(E, A[i], b[i], y) for i in range(n)]
    if w:
        cx, cy = [[E.ex(W[i]) * c for i, c in enumerate(t)] for t in (cx, cy)]
    E.check('objective', E.eq(f, E.max(*cx)))
    E.check('gradient shape', len(g) == m)
    lin = E.max(*cx)
    for j in range(m):
        lin = lin + E.ex(g[j]) * (E.ex(y[j]) - E.ex(x[j]))
    E.check('subgradient', E.ge(E.max(*cy), lin))


@harness('L08', cases=[dict(con=c, mu=u) for c in ('both', 'some', 'upper') for u in (0, 1)], stubs=STUBS, opts={'signsplit': True},
         bounds='1x2 systems with fixed coefficients, three shapes of constraints, arbitrary limits and points', timeout=8000)
def cheb_constrained(E, con, mu):
    """the same penalty on the Chebyshev functional"""
    A = [[E.ip.Interval(-4.0, 2.0), E.ip.Interval(1.0, 3.0)]]
    b = [proper(E, 'b', lo=-100, hi=100)]
    install(E, lambda c, G, h: [[E.If(cj >= 0, E.ex(a.a), E.ex(a.b)) for cj, a in zip(c, r)] for r in A if len(r) == len(c)], infeasible=False)
    lc, C, lb, ub = constraint(E, con, E.real('mu', lo=0.5, hi=100) if mu else None)
    given = lc.mu
    x, y = [[E.real('%s%d' % (n, j), lo=-100, hi=100) for j in range(2)] for n in 'xy']
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    cap, ans, r = captured(E, 'ChebNorm', AI, bI, x0=E.arr([0.0, 0.0]), linear_constraint=lc)
    E.reach()
    ok, (f, g) = E.call(lambda: cap['f'](E.arr(x)))
    f0, v = spec(E, A[0], b[0], x), violation(E, C, lb, ub, x)
    eps = 0 if E.symbolic else Fraction(1, 10 ** 6)
    if not mu:
        E.check('penalty factor', E.ge((E.ex(f) - f0) * least_sum(C, lb, ub) + eps, 4 * v))
        E.check('the constraint is not changed', lc.mu is None)
        return
    E.check('penalty added', E.eq(E.ex(f) - f0, E.ex(given) * v))
    lin = E.ex(f)
    for j in range(2):
        lin = lin + E.ex(g[j]) * (E.ex(y[j]) - E.ex(x[j]))
    E.check('subgradient', E.ge(spec(E, A[0], b[0], y) + E.ex(given) * violation(E, C, lb, ub, y) + eps, lin))
