"""Models: WILS (weighted interval linear system), ISPAE (additive polynomials)."""
import itertools
from fractions import Fraction

from sx.registry import harness
from checks.common import C, proper, same
from checks.linear_functionals import KINDS, MATS, constraint, data, least_sum, row_range, spec, violation


def captured(E, model, X, y, **kw):
    cap, ans = {}, {}

    def ralgb5(calcfg, x0, **k):
        cap.update(f=calcfg, x0=x0, kw=k)
        ans.update(xr=E.arr([E.real('xr%d' % j, lo=-100, hi=100) for j in range(len(x0))]), fr=E.real('fr'))
        return ans['xr'], ans['fr'], 7, 9, 3
    E.patch('ralgb5', ralgb5)
    ok, r = E.call(lambda: model.fit(X, y, **kw))
    return cap, ans


def smoothed(E, W, alpha, beta):
    out = []
    for k, w in enumerate(W):
        v = E.ex(w) * (1 - E.ex(alpha))
        if k:
            v = v + E.ex(alpha) * out[-1]
        out.append(E.ex(beta) * v)
    return out


def total(E, norm, cs):
    if norm == 'inf':
        return E.min(*cs)
    s = cs[0]
    for c in cs[1:]:
        s = s + c
    return s


@harness('M01', cases=[dict(kind=k, norm=nm, n=n, m=m, w=w) for k in KINDS for nm in ('inf', 'l1') for n, m, w in ((1, 2, 0), (2, 1, 1 if nm == 'l1' else 2))] + [dict(kind='Tol', norm='inf', n=2, m=1, w=3)],
         thorough=[dict(kind=k, norm=nm, n=2, m=2, w=2) for k in KINDS for nm in ('inf', 'l1')],
         bounds='systems 1x2 and 2x1 (2x2), every weight and smoothing (sum of residuals) or given ones (least residual), exact arithmetic', stubs=['ralgb5: records its arguments, arbitrary answer'])
def wils_objective(E, kind, norm, n, m, w):
    A, b, W = data(E, n, m, w == 1, lo=-100, hi=100)
    x = [E.real('x%d' % j, lo=-100, hi=100) for j in range(m)]
    z = [E.real('z%d' % j, lo=-100, hi=100) for j in range(m)]
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    alpha, beta = [(0, 1), (E.real('alpha', lo=0, hi=1), E.real('beta', lo=0.1, hi=10)), (0.25, 2.0), (0, 1)][w]
    if w == 2:
        W = [2.0, 0.5, 3.0][:n]
    default, w = w == 3, w % 3      # the default is the least residual of Tol
    model = E.ip.WILS(alpha=alpha, beta=beta) if w else E.ip.WILS()
    kw = {'weight': E.arr(W)} if w else {}
    x0 = E.arr(z)
    cap, ans = captured(E, model, AI, bI, x0=x0, tolx=1e-7, **kw, **({} if default else dict(objective=kind, norm=norm)))
    E.reach()
    E.check('options handed on', cap['kw'].get('tolx') == 1e-7)
    for j in range(m):
        E.check('starting point', E.eq(cap['x0'][j], z[j]))
        E.check('estimate', E.eq(model.estimator['xr'][j], ans['xr'][j]))
    E.check('value of the estimate', E.eq(model.estimator['fr'], -E.ex(ans['fr'])))
    E.check('rest of the answer', tuple(model.estimator[k] for k in ('nit', 'ncalls', 'ccode')) == (7, 9, 3))
    if w:
        for i in range(n):
            E.check('weights unchanged', E.eq(kw['weight'][i], W[i]))
    for t in range(2):      # the objective does not depend on earlier calls
        ok, (f, g) = E.call(lambda: cap['f'](E.arr(x)))
    cs = [spec(E, kind, A[i], b[i], x) for i in range(n)]
    if w:
        cs = [v * c for v, c in zip(smoothed(E, W, alpha, beta), cs)]
    E.check('objective', E.eq(f, -total(E, norm, cs)))
    E.check('gradient shape', len(g) == m)


@harness('M01', cases=[dict(m=2), dict(m=3)], bounds='one object, two or three unknowns', stubs=['ralgb5: arbitrary answer'])
def wils_predict(E, m):
    """the forecast contains every exact value of the model"""
    A, b, _ = data(E, 1, m, lo=-100, hi=100)
    model = E.ip.WILS()
    cap, ans = captured(E, model, E.ip.asinterval(A), E.ip.asinterval(b), x0=E.arr([0.0] * m))
    X = [proper(E, 'q%d' % j, lo=-100, hi=100) for j in range(m)]
    ok, r = E.call(lambda: model.predict(E.ip.asinterval([X])))
    E.reach()
    lo, hi = row_range(E, X, ans['xr'])
    E.check('forecast:inf', E.eq(r[0].a, lo))
    E.check('forecast:sup', E.eq(r[0].b, hi))


@harness('M01', cases=[dict(kind=k, norm=nm, s=s, mat=i) for k in KINDS for nm in ('inf', 'l1') for i, M in enumerate(MATS[:2])
                       for s in itertools.product((0, 1), repeat=len(M[0]))],
         bounds='matrices 2x1 and 2x2 with arbitrary right-hand side and smoothed weights, exact arithmetic; within one orthant and off the coordinate planes; '
                'Uni: where no row has reached its largest value',
         stubs=['ralgb5: records its arguments, arbitrary answer'], opts={'signsplit': True})
def wils_subgradient(E, kind, norm, s, mat):
    n, m = len(MATS[mat]), len(MATS[mat][0])
    A = [[E.ip.Interval(float(l), float(h)) for l, h in r] for r in MATS[mat]]
    b = [proper(E, 'b%d' % i, lo=-100, hi=100) for i in range(n)]
    W = smoothed(E, [2.0, 1.0, 0.5][:n], 0.25, 2.0)
    x = [E.real('x%d' % j, lo=-100, hi=100) for j in range(m)]
    y = [E.real('y%d' % j, lo=-100, hi=100) for j in range(m)]
    for j in range(m):
        E.assume(E.And(x[j] > 0, y[j] >= 0) if s[j] else E.And(x[j] < 0, y[j] <= 0))
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    model = E.ip.WILS(alpha=0.25, beta=2.0)
    cap, ans = captured(E, model, AI, bI, x0=E.arr(x), weight=E.np.array([2.0, 1.0, 0.5][:n]), objective=kind, norm=norm)
    E.reach()
    ok, (f, g) = E.call(lambda: cap['f'](E.arr(x)))
    cx, cy = [[v * spec(E, kind, A[i], b[i], t) for i, v in enumerate(W)] for t in (x, y)]
    if kind == 'Uni':
        low = E.min(*cx)
        for i, c in enumerate(cx):
            top = (E.ex(b[i].b) - E.ex(b[i].a)) / 2 * W[i]
            eps = 0 if E.symbolic else Fraction(1, 10 ** 9)
            at = c >= top - eps
            E.assume(E.Not(at if norm == 'l1' else E.And(c <= low + eps, at)))
    lin = -total(E, norm, cx)
    for j in range(m):
        lin = lin + E.ex(g[j]) * (E.ex(y[j]) - E.ex(x[j]))
    E.check('subgradient', E.ge(-total(E, norm, cy), lin))


@harness('M01', cases=[dict(con=c, mu=u) for c in ('both', 'lower', 'upper', 'some', 'none') for u in (0, 1)], stubs=['ralgb5: records its arguments, arbitrary answer'],
         opts={'signsplit': True}, bounds='1x2 systems, five shapes of constraints, arbitrary limits and points')
def wils_constraint(E, con, mu):
    A = [[E.ip.Interval(-4.0, 2.0), E.ip.Interval(1.0, 3.0)]]
    b = [proper(E, 'b', lo=-100, hi=100)]
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    lc, Cm, lb, ub = constraint(E, con, E.real('mu', lo=0.5, hi=100) if mu else None)
    given = lc.mu
    x = [E.real('x%d' % j, lo=-100, hi=100) for j in range(2)]
    cap, ans = captured(E, E.ip.WILS(), AI, bI, x0=E.arr([0.0, 0.0]), constraint=lc)
    plain, _ = captured(E, E.ip.WILS(), AI, bI, x0=E.arr([0.0, 0.0]))
    E.reach()
    ok, (f, g) = E.call(lambda: cap['f'](E.arr(x)))
    f0, g0 = plain['f'](E.arr(x))
    v = violation(E, Cm, lb, ub, x)
    if mu:
        E.check('penalty added', E.eq(E.ex(f) - E.ex(f0), E.ex(given) * v))
        y = [E.real('y%d' % j, lo=-100, hi=100) for j in range(2)]
        lin = E.ex(given) * v
        for j in range(2):
            lin = lin + (E.ex(g[j]) - E.ex(g0[j])) * (E.ex(y[j]) - E.ex(x[j]))
        eps = 0 if E.symbolic else Fraction(1, 10 ** 6)
        E.check('subgradient of the penalty', E.ge(E.ex(given) * violation(E, Cm, lb, ub, y) + eps, lin))
    else:
        E.check('no penalty inside', E.Implies(v <= 0, E.eq(f, f0).cond()) if E.symbolic else v > 1e-9 or abs(float(f) - float(f0)) < 1e-6)
        E.check('penalty outside', E.Implies(v > 0, E.lt(f0, f).cond()) if E.symbolic else v <= 1e-9 or f > f0)
        if con != 'none':
            E.check('penalty factor', E.ge((E.ex(f) - E.ex(f0)) * least_sum(Cm, lb, ub), 4 * v) if E.symbolic else (float(f) - float(f0)) * float(least_sum(Cm, lb, ub)) >= 4 * float(v) - 1e-6)
        E.check('the constraint is not changed', lc.mu is None)


@harness('M01', bounds='one system', stubs=['ralgb5: records its arguments, arbitrary answer'])
def unknown_objective(E):
    A, b, _ = data(E, 1, 1, lo=-100, hi=100)
    cap, ans = captured(E, E.ip.WILS(), E.ip.asinterval(A), E.ip.asinterval(b), x0=E.arr([0.0]), objective='tol')
    ok, r = E.call(lambda: cap['f'](E.arr([1.0])), Exception)
    E.reach()
    E.check('refused', not ok)


# ------------------------------------------------------------------------------------------------ ISPAE
BASES = {       # power coefficients of the degrees 1, 2, 3
    'monom': [[0, 1], [0, 0, 1], [0, 0, 0, 1]],
    'chebyshev': [[0, 1], [-1, 0, 2], [0, -3, 0, 4]],
    'hermite': [[0, 2], [-2, 0, 4], [0, -12, 0, 8]],
    'laguerre': [[1, -1], [1, -2, Fraction(1, 2)], [1, -3, Fraction(3, 2), Fraction(-1, 6)]],
    'legendre': [[0, 1], [Fraction(-1, 2), 0, Fraction(3, 2)], [0, Fraction(-3, 2), 0, Fraction(5, 2)]],
}


def at(E, coef, t):
    s = E.ex(0)
    for c in reversed(coef):
        s = s * t + E.ex(c)
    return s


def powers(E, basis, degs, beta):
    """power coefficients of sum beta_k phi_k"""
    out = [E.ex(0)] * 4
    for d, b in zip(degs, beta):
        for k, c in enumerate(BASES[basis][d - 1]):
            out[k] = out[k] + E.ex(b) * c
    return out[:max(degs) + 1]


@harness('M02', cases=[dict(basis=b, degs=d) for b in BASES for d in ((1,), (2,), (1, 2))] + [dict(basis='monom', degs=(2, 1))],
         bounds='degrees 1 and 2, every coefficient and interval, exact arithmetic')
def column_range(E, basis, degs):
    """the value of the polynomial of one feature is its exact range"""
    x = proper(E, 'x', lo=-10, hi=10)
    beta = [E.real('c%d' % k, lo=-10, hi=10) for k in range(len(degs))]
    t = E.exact('t', x.a, x.b)
    model = E.ip.ISPAE(basis=basis)
    kw = {} if tuple(degs) == tuple(range(1, len(degs) + 1)) else {'deg': list(degs)}
    ok, r = E.call(lambda: model.value_of_one_col(E.arr(beta) if len(degs) > 1 else beta[0], E.ip.asinterval([x]), **kw))
    E.reach()
    p = powers(E, basis, degs, beta)
    v = at(E, p, t)
    E.check('shape', len(r) == 1)
    E.check('range:inf', E.le(r[0].a, v))
    E.check('range:sup', E.le(v, r[0].b))
    ends = [at(E, p, E.ex(x.a)), at(E, p, E.ex(x.b))]
    if len(p) > 2:
        q = p[2]
        zero = E.eq(q, 0).cond() if E.symbolic else q == 0
        m = E.If(zero, E.ex(x.a), -p[1] / (2 * E.If(zero, E.ex(1), q)))
        ends.append(E.If(E.And(m >= E.ex(x.a), m <= E.ex(x.b)), at(E, p, m), ends[0]))
    if E.symbolic:
        E.check('attained:inf', E.Or(*[E.ex(r[0].a) == w for w in ends]))
        E.check('attained:sup', E.Or(*[E.ex(r[0].b) == w for w in ends]))
    else:
        E.check('attained:inf', any(abs(float(r[0].a) - float(w)) < 1e-6 for w in ends))
        E.check('attained:sup', any(abs(float(r[0].b) - float(w)) < 1e-6 for w in ends))


CUBICS = [(1, 0, -1), (-3, 0, 1), (0, 3, -2), (3, 3, 1), (-2, 0.5, 0.25)]


@harness('M02', cases=[dict(basis=b, c=c) for b in ('monom', 'chebyshev') for c in CUBICS[:3]] + [dict(basis='monom', c=c) for c in CUBICS[3:]],
         bounds='listed cubic polynomials, every interval in [-10, 10]; the critical points computed by numpy, tolerance 1e-7')
def cubic_range(E, basis, c):
    x = proper(E, 'x', lo=-10, hi=10)
    t = E.exact('t', x.a, x.b)
    model = E.ip.ISPAE(basis=basis)
    ok, r = E.call(lambda: model.value_of_one_col(E.np.array([float(v) for v in c]), E.ip.asinterval([x])))
    E.reach()
    v = at(E, powers(E, basis, (1, 2, 3), c), t)
    eps = Fraction(1, 10 ** 7)
    E.check('range:inf', E.le(E.ex(r[0].a) - eps, v))
    E.check('range:sup', E.le(v, E.ex(r[0].b) + eps))
    # not wider than the values at the ends and the critical points
    p = powers(E, basis, (1, 2, 3), c)
    ends = [at(E, p, E.ex(x.a)), at(E, p, E.ex(x.b))]
    import numpy as np
    from numpy.polynomial import polynomial as P
    co = [sum(Fraction(b) * (BASES[basis][d][k] if k < len(BASES[basis][d]) else 0) for d, b in enumerate(c)) for k in range(4)]
    for z in P.polyroots(P.polyder([float(v) for v in co])):
        if abs(z.imag) < 1e-9:
            z = Fraction(float(z.real))
            w = at(E, p, E.ex(z))
            ends.append(E.If(E.And(z - eps <= E.ex(x.b), z + eps >= E.ex(x.a)), w, ends[0]))
    for nm, end in (('inf', r[0].a), ('sup', r[0].b)):
        E.check('attained:' + nm, E.Or(*[E.And(E.ex(end) - w <= 1000 * eps, w - E.ex(end) <= 1000 * eps) for w in ends]))


ONE = {'monom': 1, 'chebyshev': 1, 'hermite': Fraction(1, 2), 'laguerre': 0, 'legendre': 1}


def frame(E, X):
    if E.symbolic:
        from sx import pd
    else:
        import pandas as pd
    return pd.DataFrame({'uvw'[j]: [r[j] for r in X] for j in range(len(X[0]))})


def spots(E, basis, order, beta, x):
    """where the polynomial of one feature may have its extreme values over x, with the values"""
    p = powers(E, basis, range(1, order + 1), beta)
    a, b = E.ex(x.a), E.ex(x.b)
    ts = [a, b]
    if order == 2:
        zero = E.eq(p[2], 0).cond() if E.symbolic else p[2] == 0
        m = E.If(zero, a, -p[1] / (2 * E.If(zero, E.ex(1), p[2])))
        ts.append(E.If(E.And(m >= a, m <= b), m, a))
    # the constant of each basis function is in p[0]
    return [(t, at(E, p, t)) for t in ts]


def ispae_spec(E, kind, y, lo, hi):
    half, mid = (E.ex(y.b) - E.ex(y.a)) / 2, (E.ex(y.b) + E.ex(y.a)) / 2
    if kind == 'Tol':
        return half - E.max(E.abs(mid - lo), E.abs(mid - hi))
    return half - E.If(E.And(lo <= mid, mid <= hi), 0, E.min(E.abs(mid - lo), E.abs(mid - hi)))


ISP = [dict(basis=b, orders=(1,), n=1, bias=bi, w=0, norm='inf') for b in BASES for bi in (0, 1)] \
    + [dict(basis=b, orders=(2,), n=1, bias=0, w=0, norm='l1') for b in BASES] \
    + [dict(basis='monom', orders=(1, 1), n=1, bias=1, w=1, norm='l1'), dict(basis='chebyshev', orders=(2, 1), n=1, bias=0, w=0, norm='inf')] \
    + [dict(basis='monom', orders=(1,), n=2, bias=1, w=2, norm=nm) for nm in ('inf', 'l1')]
DEFAULTS = [dict(kind='Tol', basis='monom', orders=(1,), n=2, bias=1, w=3, norm='inf')]


@harness('M02', cases=[dict(kind=k, **c) for k in ('Tol', 'Uni') for c in ISP] + DEFAULTS,
         bounds='one or two objects, one or two features, degrees 1 and 2, every base; every data, coefficients, weights; exact arithmetic',
         stubs=['ralgb5: records its arguments, arbitrary answer'])
def ispae_objective(E, kind, basis, orders, n, bias, w, norm):
    X = [[proper(E, 'x%d%d' % (i, j), lo=-10, hi=10) for j in range(len(orders))] for i in range(n)]
    Y = [proper(E, 'y%d' % i, lo=-100, hi=100) for i in range(n)]
    W, alpha, amp = [1.0] * n, 0, 1
    if w == 1:
        W, alpha, amp = [E.real('w%d' % i, lo=0, hi=10) for i in range(n)], E.real('alpha', lo=0, hi=1), E.real('amp', lo=0.1, hi=10)
    if w == 2:
        W, alpha, amp = [2.0, 0.5], 0.25, 2.0
    nb = sum(orders) + bias
    beta = [E.real('c%d' % k, lo=-10, hi=10) for k in range(nb)]
    start = [E.real('s%d' % k, lo=-10, hi=10) for k in range(nb)]
    default, w = w == 3, w % 3
    model = E.ip.ISPAE() if default else E.ip.ISPAE(basis=basis, alpha=alpha, beta=amp) if w else E.ip.ISPAE(basis=basis)
    df = frame(E, X)
    kw = {'weight': E.arr(W)} if w else {}
    cap, ans = captured(E, model, df, E.ip.asinterval(Y), order=list(orders) if len(orders) > 1 else orders[0], x0=E.arr(start),
                        tolg=1e-8, **kw, **({} if default else dict(objective=kind, norm=norm, bias=bool(bias))))
    E.reach()
    E.check('training data unchanged', list(df.columns) == list('uvw'[:len(orders)]))
    E.check('options handed on', cap['kw'].get('tolg') == 1e-8)
    for k in range(nb):
        E.check('starting point', E.eq(cap['x0'][k], start[k]))
        E.check('estimate', E.eq(model.estimator['xr'][k], ans['xr'][k]))
    E.check('value of the estimate', E.eq(model.estimator['fr'], -E.ex(ans['fr'])))
    if w:
        for i in range(n):
            E.check('weights unchanged', E.eq(kw['weight'][i], W[i]))
    ok, (f, g) = E.call(lambda: cap['f'](E.arr(beta)))
    V = smoothed(E, W, alpha, amp)
    cs, reps = [], []
    for i in range(n):
        pts, k = [[]], bias
        lo = hi = E.ex(beta[0]) if bias else E.ex(0)
        for j, o in enumerate(orders):
            sp = spots(E, basis, o, beta[k:k + o], X[i][j])
            lo, hi = lo + E.min(*[v for _, v in sp]), hi + E.max(*[v for _, v in sp])
            pts = [p + [t] for p in pts for t, _ in sp]
            k += o
        cs.append(V[i] * ispae_spec(E, kind, Y[i], lo, hi))
        reps.append(pts)
    E.check('objective', E.eq(f, -total(E, norm, cs)))
    E.check('gradient shape', len(g) == nb)
    if n > 1:
        return
    # the gradient belongs to a point where the constituent takes its value
    i, mid, half = 0, (E.ex(Y[0].b) + E.ex(Y[0].a)) / 2, (E.ex(Y[0].b) - E.ex(Y[0].a)) / 2
    alts = []
    for pt in reps[i]:
        phi = [E.ex(1)] if bias else []
        for t, o in zip(pt, orders):
            phi += [at(E, BASES[basis][d], t) for d in range(o)]
        val = E.ex(0)
        for c, v in zip(beta, phi):
            val = val + E.ex(c) * v
        for sg in (1, -1):
            alts.append(E.And(near(E, f, V[i] * (sg * (mid - val) - half)), *[near(E, g[k], -sg * V[i] * phi[k]) for k in range(nb)]))
    if kind == 'Uni':       # saturated: the functional does not depend on the coefficients there
        alts.append(E.And(near(E, f, -V[i] * half)))
    E.check('gradient', E.Or(*alts))


def near(E, x, y):
    return E.ex(x) == y if E.symbolic else abs(float(x) - float(y)) <= 1e-6 * max(1, abs(float(y)))


@harness('M02', cases=[dict(basis=b, orders=o, bias=bi) for b in BASES for o, bi in (((1,), 1), ((2,), 0))] + [dict(basis='monom', orders=(1, 2), bias=1), dict(basis='monom', orders=(2,), bias=1)],
         bounds='one object, one or two features, degrees 1 and 2, every base', stubs=['ralgb5: arbitrary answer'])
def ispae_predict(E, basis, orders, bias):
    """the forecast contains every exact value of the estimated model; the data are unchanged"""
    n = 1
    train = [[E.ip.Interval(0.0, 1.0) for _ in orders]]
    model = E.ip.ISPAE(basis=basis)
    cap, ans = captured(E, model, frame(E, train), E.ip.asinterval([E.ip.Interval(0.0, 1.0)]), order=list(orders), x0=E.arr([0.0] * (sum(orders) + bias)), bias=bool(bias))
    X = [[proper(E, 'q%d' % j, lo=-10, hi=10) for j in range(len(orders))]]
    df = frame(E, X)
    ok, r = E.call(lambda: model.predict(df))
    E.reach()
    E.check('test data unchanged', list(df.columns) == list('uvw'[:len(orders)]))
    E.check('shape', len(r) == 1)
    beta, k = ans['xr'], bias
    v = E.ex(beta[0]) if bias else E.ex(0)
    for j, o in enumerate(orders):
        t = E.exact('t%d' % j, X[0][j].a, X[0][j].b)
        v = v + at(E, powers(E, basis, range(1, o + 1), beta[k:k + o]), t)
        k += o
    r0 = r[0] if not hasattr(r, 'iloc') else r.iloc[0]
    E.check('forecast:inf', E.le(r0.a, v))
    E.check('forecast:sup', E.le(v, r0.b))
