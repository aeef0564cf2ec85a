"""Recognizing functionals Tol, Uni, Uss: values, objective handed to the optimiser, linear constraints."""
import itertools
from fractions import Fraction

from sx.registry import harness
from checks.common import C, proper


def data(E, n, m, w=False, lo=None, hi=None):
    A = [[proper(E, 'a%d%d' % (i, j), lo=lo, hi=hi) for j in range(m)] for i in range(n)]
    b = [proper(E, 'b%d' % i, lo=lo, hi=hi) for i in range(n)]
    W = [E.real('w%d' % i, lo=0) for i in range(n)] if w else None
    if w:
        for v in W:
            E.assume(v > 0)
    return A, b, W


def row_range(E, row, x):
    """exact range of the row applied to the point x"""
    lo = hi = None
    for a, v in zip(row, x):
        v = E.ex(v)
        p, q = E.ex(a.a) * v, E.ex(a.b) * v
        l, h = E.If(v >= 0, p, q), E.If(v >= 0, q, p)
        lo, hi = (l, h) if lo is None else (lo + l, hi + h)
    return lo, hi


def spec(E, kind, row, b, x):
    """the functional's constituent from its definition"""
    lo, hi = row_range(E, row, x)
    blo, bhi = E.ex(b.a), E.ex(b.b)
    half = (bhi - blo) / 2
    mid = (bhi + blo) / 2
    if kind == 'Tol':
        return half - E.max(E.abs(mid - lo), E.abs(mid - hi))
    if kind == 'Uni':
        return half - E.If(E.And(lo <= mid, mid <= hi), 0, E.min(E.abs(mid - lo), E.abs(mid - hi)))
    return half + (hi - lo) / 2 - E.abs(mid - (lo + hi) / 2)


def member_cond(E, kind, row, b, x):
    lo, hi = row_range(E, row, x)
    if kind == 'Tol':
        return E.And(E.ex(b.a) <= lo, hi <= E.ex(b.b))
    return E.And(E.ex(b.a) <= hi, lo <= E.ex(b.b))


KINDS = ['Tol', 'Uni', 'Uss']


@harness('L06', cases=[dict(kind=k, n=n, m=m, w=w) for k in KINDS for n, m, w in ((1, 2, 0), (2, 1, 1))],
         thorough=[dict(kind=k, n=n, m=m, w=w) for k in KINDS for n, m, w in ((2, 2, 1), (3, 1, 1), (1, 3, 0))],
         bounds='systems 1x2 and 2x1 (2x2, 3x1, 1x3), exact arithmetic')
def functional_values(E, kind, n, m, w):
    A, b, W = data(E, n, m, w)
    x = [E.real('x%d' % j) for j in range(m)]
    F = getattr(E.ip, kind)
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    kw = {'weight': E.arr(W)} if w else {}
    ok, c = E.call(lambda: F.constituent(AI, bI, E.arr(x), **kw))
    ok, v = E.call(lambda: F.value(AI, bI, E.arr(x), **kw))
    E.reach()
    E.check('shape', len(c) == n)
    for i in range(n):
        s = spec(E, kind, A[i], b[i], x)
        E.check('constituent', E.eq(c[i], E.ex(W[i]) * s if w else s))
    E.check('value', E.eq(v, E.min(*[E.ex(t) for t in c])))


@harness('L06', cases=[dict(kind=k, n=n, m=m, w=w) for k in KINDS for n, m, w in ((1, 2, 0), (2, 1, 1))],
         bounds='systems 1x2 and 2x1, exact arithmetic')
def functional_recognizes(E, kind, n, m, w):
    A, b, W = data(E, n, m, w)
    x = [E.real('x%d' % j) for j in range(m)]
    F = getattr(E.ip, kind)
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    kw = {'weight': E.arr(W)} if w else {}
    ok, v = E.call(lambda: F.value(AI, bI, E.arr(x), **kw))
    E.reach()
    inset = E.And(*[member_cond(E, kind, A[i], b[i], x) for i in range(n)])
    if E.symbolic:
        E.check('nonnegative exactly on the solution set', E.Iff(E.ge(v, 0).cond(), inset))
    else:
        tol = 1e-9 * E.scale ** 2
        if abs(float(v)) > tol:
            E.check('nonnegative exactly on the solution set', E.Iff(v >= 0, inset))


# ------------------------------------------------------------------------------------------------ objective
def captured(E, kind, AI, bI, **kw):
    """what the optimiser is given, and what is made of its answer"""
    cap = {}
    ans = {}

    def ralgb5(calcfg, x0, **k):
        cap.update(f=calcfg, x0=x0, kw=k)
        xr = E.arr([E.real('xr%d' % j) for j in range(AI.shape[1])])
        ans.update(xr=xr, fr=E.real('fr'))
        return xr, ans['fr'], 7, 9, 3
    E.patch('ralgb5', ralgb5)
    F = getattr(E.ip, kind)
    ok, r = E.call(lambda: (F.minimize if kind == 'ChebNorm' else F.maximize)(AI, bI, **kw))
    return cap, ans, r


def fmax0(E, v):
    return E.max(v, 0)


@harness('L07', cases=[dict(kind=k, n=n, m=m, w=w) for k in KINDS for n, m, w in ((1, 1, 0), (1, 2, 1), (2, 1, 1))],
         bounds='systems 1x1, 1x2, 2x1, exact arithmetic', stubs=['ralgb5: records its arguments, arbitrary answer'])
def objective_value(E, kind, n, m, w):
    A, b, W = data(E, n, m, w)
    x = [E.real('x%d' % j) for j in range(m)]
    z = [E.real('z%d' % j) for j in range(m)]
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    kw = {'weight': E.arr(W)} if w else {}
    x0 = E.arr(z)
    cap, ans, r = captured(E, kind, AI, bI, x0=x0, tolx=1e-7, maxiter=31, **kw)
    E.reach()
    E.check('optimiser used', 'f' in cap)
    E.check('options handed on', cap['kw'].get('tolx') == 1e-7 and cap['kw'].get('maxiter') == 31)
    for j in range(m):
        E.check('starting point', E.eq(cap['x0'][j], z[j]))
        E.check('optimum point', E.eq(r[0][j], ans['xr'][j]))
    E.check('optimum value', E.eq(r[1], -E.ex(ans['fr'])))
    E.check('rest of the answer', tuple(r[2:]) == (7, 9, 3))
    ok, (f, g) = E.call(lambda: cap['f'](E.arr(x)))
    cs = [spec(E, kind, A[i], b[i], x) for i in range(n)]
    if w:
        cs = [E.ex(W[i]) * c for i, c in enumerate(cs)]
    E.check('objective', E.eq(f, -E.min(*cs)))
    E.check('gradient shape', len(g) == m)


MATS = [[[(-1, 2)], [(0.5, 3)]], [[(1, 2), (-2, 1)], [(-3, 0.5), (2, 4)]], [[(0, 1), (1, 3)], [(1, 2), (-1, 1)], [(-2, -1), (0.25, 2)]]]


@harness('L07', cases=[dict(kind=k, n=1, m=1, w=1, s=s) for k in KINDS for s in ((0,), (1,))] +
         [dict(kind=k, n=1, m=2, w=0, s=s) for k in KINDS[1:] for s in itertools.product((0, 1), repeat=2)] +
         [dict(kind=k, n=len(M), m=len(M[0]), w=2, s=s, mat=i) for k in KINDS for i, M in enumerate(MATS)
          for s in itertools.product((0, 1), repeat=len(M[0]))],
         bounds='arbitrary matrices 1x1 and 1x2, fixed ones 2x1, 2x2 and 3x2 with arbitrary right-hand side, exact arithmetic; '
                'Uni and Uss within one orthant and off the coordinate planes',
         stubs=['ralgb5: records its arguments, arbitrary answer'], opts={'signsplit': True}, timeout=8000)
def objective_subgradient(E, kind, n, m, w, s, mat=None):
    """g is a subgradient: f(y) >= f(x) + g (y - x)"""
    if mat is None:
        A, b, W = data(E, n, m, w)
    else:
        A = [[E.ip.Interval(float(l), float(h)) for l, h in r] for r in MATS[mat]]
        b = [proper(E, 'b%d' % i) for i in range(n)]
        W = [2.0, 1.0, 0.5][:n]
    x = [E.real('x%d' % j) for j in range(m)]
    y = [E.real('y%d' % j) for j in range(m)]
    for j in range(m):
        if kind == 'Tol':
            E.assume(x[j] >= 0 if s[j] else x[j] < 0)
        else:
            E.assume(E.And(x[j] > 0, y[j] >= 0) if s[j] else E.And(x[j] < 0, y[j] <= 0))
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    kw = {'weight': E.arr(W)} if w else {}
    cap, ans, r = captured(E, kind, AI, bI, x0=E.arr(x), **kw)
    E.reach()
    ok, (f, g) = E.call(lambda: cap['f'](E.arr(x)))
    cx = [spec(E, kind, A[i], b[i], x) for i in range(n)]
    cy = [spec(E, kind, A[i], b[i], y) for i in range(n)]
    if w:
        cx, cy = [[E.ex(W[i]) * c for i, c in enumerate(t)] for t in (cx, cy)]
    fx, fy = -E.min(*cx), -E.min(*cy)
    lin = fx
    for j in range(m):
        lin = lin + E.ex(g[j]) * (E.ex(y[j]) - E.ex(x[j]))
    if kind == 'Uni':
        # where the argmin row already meets the right-hand side the constituent is at its maximum
        low = E.min(*cx)
        for i, c in enumerate(cx):
            cap = (E.ex(b[i].b) - E.ex(b[i].a)) / 2 * (E.ex(W[i]) if w else 1)
            eps = 0 if E.symbolic else Fraction(1, 10 ** 9)
            E.assume(E.Not(E.And(c <= low + eps, c >= cap - eps)))
    E.check('subgradient', E.ge(fy, lin))


# ------------------------------------------------------------------------------------------------ constraints
INF = float('inf')
CONS = {
    'both': ([[1, 2], [-1, 1]], 'ff', 'ff'),
    'lower': ([[1, 2], [-3, 1]], 'ff', None),
    'upper': ([[2, 0], [0.5, 1]], None, 'ff'),
    'some': ([[1, 0], [1, 1], [0, 3]], 'fif', 'iff'),
    'none': ([[1, 2]], 'i', 'i'),
    'absent': ([[1, 2], [3, 4]], None, None),
    'zero': ([[0, 0], [1, -1]], 'ff', 'if'),
}


def limits(E, pat, name, sign):
    if pat is None:
        return None
    return E.arr([E.real('%s%d' % (name, i)) if p == 'f' else sign * INF for i, p in enumerate(pat)])


def constraint(E, con, mu):
    C, lp, up = CONS[con]
    lb, ub = limits(E, lp, 'lb', -1), limits(E, up, 'ub', 1)
    Cm = E.np.array(C, dtype=float)
    return E.ip.LinearConstraint(Cm, lb=lb, ub=ub, mu=mu), C, lb, ub


def violation(E, C, lb, ub, x):
    s = E.ex(0)
    fin = lambda v: not (isinstance(v, float) and abs(v) == INF)
    for i, r in enumerate(C):
        if not any(r):
            continue
        d = E.ex(0)
        for c, v in zip(r, x):
            d = d + E.ex(v) * Fraction(c)
        if lb is not None and fin(lb[i]):
            s = s + E.max(E.ex(lb[i]) - d, 0)
        if ub is not None and fin(ub[i]):
            s = s + E.max(d - E.ex(ub[i]), 0)
    return s


@harness('L08', cases=[dict(kind=k, con=c) for k in KINDS for c in CONS], stubs=['ralgb5: records its arguments, arbitrary answer'],
         opts={'signsplit': True}, bounds='1x2 systems with fixed coefficients, seven shapes of constraints, arbitrary limits and points')
def constrained_objective(E, kind, con):
    A = [[E.ip.Interval(-1.0, 2.0), E.ip.Interval(1.0, 3.0)]]
    b = [proper(E, 'b')]
    mu = E.real('mu', lo=0)
    lc, C, lb, ub = constraint(E, con, mu)
    x = [E.real('x%d' % j) for j in range(2)]
    y = [E.real('y%d' % j) for j in range(2)]
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    cap, ans, r = captured(E, kind, AI, bI, x0=E.arr([0.0, 0.0]), linear_constraint=lc)
    plain, _, _ = captured(E, kind, AI, bI, x0=E.arr([0.0, 0.0]))
    E.reach()
    ok, (f, g) = E.call(lambda: cap['f'](E.arr(x)))
    f0, g0 = plain['f'](E.arr(x))
    E.check('penalty added', E.eq(E.ex(f) - E.ex(f0), E.ex(mu) * violation(E, C, lb, ub, x)))


@harness('L08', cases=[dict(kind=k, con=c) for k in KINDS for c in (CONS if k == 'Tol' else ('both', 'some'))], stubs=['ralgb5: records its arguments, arbitrary answer'],
         opts={'signsplit': True}, bounds='1x2 systems with fixed coefficients, seven shapes of constraints, arbitrary limits and points')
def penalty_subgradient(E, kind, con):
    A = [[E.ip.Interval(-1.0, 2.0), E.ip.Interval(1.0, 3.0)]]
    b = [proper(E, 'b')]
    lc, C, lb, ub = constraint(E, con, 2.0)
    x = [E.real('x%d' % j) for j in range(2)]
    y = [E.real('y%d' % j) for j in range(2)]
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    cap, ans, r = captured(E, kind, AI, bI, x0=E.arr([0.0, 0.0]), linear_constraint=lc)
    plain, _, _ = captured(E, kind, AI, bI, x0=E.arr([0.0, 0.0]))
    E.reach()
    ok, (f, g) = E.call(lambda: cap['f'](E.arr(x)))
    f0, g0 = plain['f'](E.arr(x))
    lin = 2 * violation(E, C, lb, ub, x)
    for j in range(2):
        lin = lin + (E.ex(g[j]) - E.ex(g0[j])) * (E.ex(y[j]) - E.ex(x[j]))
    E.check('subgradient of the penalty', E.ge(2 * violation(E, C, lb, ub, y), lin))


def least_sum(C, lb, ub):
    """the smallest nonzero sum of some coefficients of one column: what the penalty factor has to outweigh"""
    rows = []
    for i, r in enumerate(C):
        rows += ([[-c for c in r]] if lb is not None and not (isinstance(lb[i], float) and abs(lb[i]) == INF) else [])
        rows += ([r] if ub is not None and not (isinstance(ub[i], float) and abs(ub[i]) == INF) else [])
    sums = set()
    for j in range(2):
        for S in itertools.product((0, 1), repeat=len(rows)):
            t = sum(Fraction(rows[i][j]) for i in range(len(rows)) if S[i])
            if t:
                sums.add(abs(t))
    return min(sums)


@harness('L08', cases=[dict(con=c) for c in ('both', 'lower', 'upper', 'some')], stubs=['ralgb5: records its arguments, arbitrary answer'],
         opts={'signsplit': True}, bounds='1x2 systems, four shapes of constraints, arbitrary coefficients, limits and points')
def chosen_penalty_factor(E, con):
    """without a given factor: it is chosen for each system and dominates the coefficients; the constraint keeps none"""
    lc, C, lb, ub = constraint(E, con, None)
    x = [E.real('x%d' % j) for j in range(2)]
    v = violation(E, C, lb, ub, x)
    E.assume(v > 0 if E.symbolic else v > Fraction(1, 1000))
    least = least_sum(C, lb, ub)
    for k in range(2):
        A = [[proper(E, 'a%d_%d' % (k, j)) for j in range(2)]]
        b = [proper(E, 'b%d' % k)]
        AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
        cap, ans, r = captured(E, 'Tol', AI, bI, x0=E.arr([0.0, 0.0]), linear_constraint=lc)
        plain, _, _ = captured(E, 'Tol', AI, bI, x0=E.arr([0.0, 0.0]))
        E.reach()
        E.check('the constraint is not changed', lc.mu is None)
        ok, (f, g) = E.call(lambda: cap['f'](E.arr(x)))
        f0, g0 = plain['f'](E.arr(x))
        big = E.max(*[E.abs(u) for a in A[0] for u in (a.a, a.b)])
        E.check('penalty factor', E.ge((E.ex(f) - E.ex(f0)) * least, big * v))
