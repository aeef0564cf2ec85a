"""Tolerable solution set: Neumaier's inner box, exact outer box by linear programming."""
from sx.lp import install
from sx.registry import harness
from checks.common import C, proper, same
from checks.linear_functionals import data, row_range
from checks.linear_hbr import ball, matrix

TALL = {
    'row': [[(1, 2), (-1, 3)]],
    'col': [[(1, 2)], [(-3, -1)], [(-1, 0)]],
    'two': [[(1, 2), (-1, 1)], [(0, 1), (-4, -3)]],
    'three': [[(1, 2), (-1, 1), (0, 0)], [(0, 1), (-4, -3), (1, 1)]],
}


@harness('L13', cases=[dict(M=None, n=1, m=1, w=0), dict(M=None, n=1, m=1, w=1)] +
         [dict(M=k, n=len(v), m=len(v[0]), w=w) for k, v in TALL.items() for w in (0, 1)],
         thorough=[dict(M=None, n=2, m=1, w=0)],
         bounds='every 1x1 (thorough: 2x1) matrix, listed matrices up to 3x1 and 2x3; every right-hand side, centre and (1x1: every) weight; exact arithmetic')
def neumaier_box(E, M, n, m, w):
    if M:
        D = TALL[M]
        AI = matrix(E, D)
        A = [[C(E)(float(p), float(q)) for p, q in r] for r in D]
        b = [proper(E, 'b%d' % i, lo=-100, hi=100) for i in range(n)]
        W = [0.5, 2.0, 1.0][:m]
    else:
        A, b, _ = data(E, n, m, lo=-100, hi=100)
        AI = E.ip.asinterval(A)
        for r in A:
            E.assume(E.Or(r[0].a > 0.01, r[0].b < -0.01, r[0].b - r[0].a > 0.01))
        W = [E.real('w%d' % j, lo=0.01, hi=100) for j in range(m)]
    bI = E.ip.asinterval(b)
    y = [E.real('y%d' % j, lo=-100, hi=100) for j in range(m)]
    tol, strict = [], []
    for i in range(n):
        lo, hi = row_range(E, A[i], y)
        tol.append(E.And(E.ex(b[i].a) <= lo, hi <= E.ex(b[i].b)))
        strict.append(E.And(E.ex(b[i].a) + E.ex(0.01) <= lo, hi + E.ex(0.01) <= E.ex(b[i].b)))
    E.assume(E.And(*tol))
    inner = E.And(*strict)
    Y = E.arr(y)
    ok, r = E.call(lambda: E.ip.Neumaier(AI, bI, Y, **({'w': E.arr(W)} if w else {})))
    E.reach()
    for i in range(n):
        E.check('right-hand side unchanged', same(E, bI[i], b[i]))
        for j in range(m):
            E.check('matrix unchanged', same(E, AI[i, j], A[i][j]))
    E.check('shape', len(r) == m)
    for j in range(m):
        E.check('centre unchanged', E.eq(Y[j], y[j]))
        E.check('contains the centre:inf', E.le(r[j].a, y[j]))
        E.check('contains the centre:sup', E.le(y[j], r[j].b))
        E.check('centred', E.eq(E.ex(r[j].a) + E.ex(r[j].b), 2 * E.ex(y[j])))
        if E.symbolic:
            E.check('not a point inside the set', E.Implies(inner, E.lt(r[j].a, r[j].b).cond()))
        elif inner:
            E.check('not a point inside the set', r[j].a < r[j].b)
        if w:
            E.check('proportional to the weights', E.eq((E.ex(r[j].b) - E.ex(r[j].a)) * E.ex(W[0]), (E.ex(r[0].b) - E.ex(r[0].a)) * E.ex(W[j])))
        else:
            E.check('a cube', E.eq(E.ex(r[j].b) - E.ex(r[j].a), E.ex(r[0].b) - E.ex(r[0].a)))
    x = [E.exact('x%d' % j, r[j].a, r[j].b) for j in range(m)]
    for i in range(n):
        lo, hi = row_range(E, A[i], x)
        E.check('tolerable:inf', E.le(b[i].a, lo))
        E.check('tolerable:sup', E.le(hi, b[i].b))


@harness('L13', cases=[dict(k=k) for k in range(3)], bounds='one size')
def neumaier_sizes(E, k):
    """inconsistent sizes are refused"""
    A, b, _ = data(E, 2, 2)
    AI = E.ip.asinterval(A)
    bI = E.ip.asinterval(b[:1] if k == 0 else b)
    y = E.arr([E.real('y%d' % j) for j in range(3 if k == 1 else 2)])
    w = E.arr([1.0] * (3 if k == 2 else 2))
    ok, r = E.call(lambda: E.ip.Neumaier(AI, bI, y, w), Exception)
    E.reach()
    E.check('refused', not ok)


# ------------------------------------------------------------------------------------------------ Rohn, tolerable set
def tolerable(E, D, b, x):
    cs = []
    for i, r in enumerate(D):
        lo = hi = E.ex(0)
        for (p, q), v in zip(r, x):
            v = E.ex(v)
            lo = lo + E.If(v >= 0, v * E.ex(p), v * E.ex(q))
            hi = hi + E.If(v >= 0, v * E.ex(q), v * E.ex(p))
        cs += [E.ex(b[i].a) <= lo, hi <= E.ex(b[i].b)]
    return E.And(*cs)


@harness('L05', cases=[dict(M=k, bounded=0) for k in TALL] + [dict(M='col', bounded=1), dict(M='two', bounded=1)], bounds='listed matrices up to 3x1 and 2x3; every right-hand side in [-100, 100]; exact arithmetic',
         stubs=['cvxopt.solvers.lp: optimal, infeasible or unbounded as the program is (checked against every tolerable point)',
                'Tol.maximize: any value of the maximum'], max_paths=8000)
def tolerable_hull(E, M, bounded):
    D = TALL[M]
    n, m = len(D), len(D[0])
    AI = matrix(E, D)
    b = [proper(E, 'b%d' % i, lo=-100, hi=100) for i in range(n)]
    bI = E.ip.asinterval(b)
    x = [E.exact('x%d' % j) for j in range(m)]
    z = E.ex(0)
    lp = install(E, lambda c, G, h: [[E.max(v, z) for v in x] + [E.max(-v, z) for v in x]], unbounded=not bounded)
    tv = E.real('tolval', lo=0 if bounded else -1000, hi=1000)
    calls = []

    class TolStub:
        @staticmethod
        def maximize(A, b, *a, **k):
            calls.append((A, b))
            return E.arr([E.real('p%d' % j) for j in range(m)]), tv, 1, 1, 1
    E.patch('Tol', TolStub)
    inside = tolerable(E, D, b, x)
    E.assume(inside)
    ok, r = E.call(lambda: E.ip.Rohn(AI, bI, consistency='tol'), *([] if bounded else [Exception]))
    E.reach()
    if not ok:
        return
    if calls:
        E.check('refused when the set is empty', tv >= 0)
    E.check('shape', len(r) == m)
    for j in range(m):
        E.check('encloses:inf', E.le(r[j].a, x[j]))
        E.check('encloses:sup', E.le(x[j], r[j].b))
    pts = [[E.ex(v[3][j]) - E.ex(v[3][j + m]) for j in range(m)] for v in lp.log if v[3] is not None and len(v[3]) == 2 * m]
    for j in range(m):
        for end in (r[j].a, r[j].b):
            if E.symbolic:
                E.check('attained', E.Or(*[E.And(tolerable(E, D, b, p), E.ex(end) == p[j]) for p in pts]))
            else:
                bb = [E.ip.Interval(float(v.a) - 1e-6, float(v.b) + 1e-6) for v in b]
                E.check('attained', any(tolerable(E, D, bb, p) and abs(float(end) - float(p[j])) < 1e-6 for p in pts))
