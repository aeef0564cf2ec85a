"""Sets of solutions of linear inequalities and their drawing: lineqs, lineqs3D, IntLinIncR2, IntLinIncR3."""
from fractions import Fraction

from sx.registry import harness

EPS = Fraction(1, 10 ** 6)

# bounded sets (when not empty), unbounded ones
CLOSED = {
    'triangle': [[1, 0], [0, 1], [-1, -1]],
    'skew': [[2, 1], [-1, 3], [-1, -2]],
    'square': [[1, 0], [0, 1], [-1, 0], [0, -1]],
    'cut': [[1, 0], [0, 1], [-1, 0], [-1, -2]],
    'twice': [[1, 0], [0, 1], [-1, -1], [2, 0]],
    'zero': [[1, 0], [0, 0], [0, 1], [-1, -1]],
}
OPEN = {
    'half': [[1, 2]],
    'wedge': [[1, 0], [1, -2]],
    'strip': [[1, 1], [-1, -1]],
    'channel': [[1, 0], [-1, 0], [0, 1]],
    'cone': [[1, 1], [1, -1], [1, 0]],
}


def dot(E, r, x):
    s = E.ex(0)
    for c, v in zip(r, x):
        s = s + E.ex(v) * Fraction(c)
    return s


def near(E, a, b, eps=EPS):
    return E.And(E.ex(a) - E.ex(b) <= eps, E.ex(b) - E.ex(a) <= eps)


def between(E, r, t, u, v, x, eps=10 * EPS):
    """u and v lie on the line r z = t, and x between them"""
    p = (-r[1], r[0])
    pu, pv, px = dot(E, p, u), dot(E, p, v), dot(E, p, x)
    return E.And(near(E, dot(E, r, u), t, eps), near(E, dot(E, r, v), t, eps),
                 E.Or(E.And(pu - eps <= px, px <= pv + eps), E.And(pv - eps <= px, px <= pu + eps)))


def finite(E, V, n):
    """the returned vertices as tuples, none infinite"""
    pts = [tuple(v[k] for k in range(n)) for v in V]
    for p in pts:
        for v in p:
            if isinstance(v, float) and not abs(v) < float('inf'):
                E.fail('vertices are finite')
    return pts


def all_edges(E, A, b, V, x):
    """the vertices are feasible and differ; a point x of the set with an active inequality lies on an edge of the outline"""
    pts = finite(E, V, 2)
    for p in pts:
        E.check('vertex in the set', E.And(*[dot(E, r, p) + EPS >= E.ex(t) for r, t in zip(A, b)]))
    for i in range(len(pts)):
        for j in range(i):
            d = E.max(E.abs(E.ex(pts[i][0]) - E.ex(pts[j][0])), E.abs(E.ex(pts[i][1]) - E.ex(pts[j][1])))
            E.check('vertices differ', d > 0)
    tiny = 0 if E.symbolic else Fraction(1, 10 ** 9)
    inside = E.And(*[dot(E, r, x) >= E.ex(t) - tiny for r, t in zip(A, b)])
    for k, r in enumerate(A):
        if any(r):
            E.check('edge on the outline', E.Or(E.Not(E.And(inside, near(E, dot(E, r, x), b[k], tiny))),
                                                *[E.And(near(E, p[0], x[0], 10 * EPS), near(E, p[1], x[1], 10 * EPS)) for p in pts],
                                                *[between(E, r, b[k], pts[i - 1], pts[i], x) for i in range(len(pts))]))


def separated(E, A, b):
    """no two corners are closer than a thousandth or so without being the same"""
    def apart(d):
        E.assume(E.Or(near(E, d, 0, 0 if E.symbolic else Fraction(1, 10 ** 10)), d >= Fraction(1, 1000), d <= -Fraction(1, 1000)))
    n = len(A)
    for i in range(n):
        for j in range(i):
            det = Fraction(A[i][0]) * Fraction(A[j][1]) - Fraction(A[i][1]) * Fraction(A[j][0])
            if not any(A[i]) or not any(A[j]):
                continue
            if not det:
                q = next(Fraction(u) / Fraction(v) for u, v in zip(A[i], A[j]) if v)
                apart(E.ex(b[i]) - E.ex(b[j]) * q)
                continue
            x = (E.ex(b[i]) * Fraction(A[j][1]) - E.ex(b[j]) * Fraction(A[i][1])) / E.ex(det)
            y = (E.ex(b[j]) * Fraction(A[i][0]) - E.ex(b[i]) * Fraction(A[j][0])) / E.ex(det)
            for k in range(j):
                if any(A[k]):
                    apart(dot(E, A[k], (x, y)) - E.ex(b[k]))


def system(E, A):
    b = [E.real('b%d' % i, lo=-10, hi=10) for i in range(len(A))]
    return E.np.array(A, dtype=float), E.arr(b), b


STUBS = ['numpy.around to 12 decimals: identity (the obligations have a tolerance of 1e-6)']


def unchanged(E, Am, A, bm, b):
    for i, r in enumerate(A):
        E.check('right-hand side unchanged', E.eq(bm[i], b[i]))
        for j, v in enumerate(r):
            E.check('matrix unchanged', E.eq(Am[i, j], v))


@harness('L15', cases=[dict(M=k) for k in CLOSED], stubs=STUBS,
         bounds='listed matrices of 3 and 4 inequalities, every right-hand side in [-10, 10]; exact arithmetic', max_paths=6000)
def closed_set(E, M):
    A = CLOSED[M]
    Am, bm, b = system(E, A)
    separated(E, A, b)
    ok, V = E.call(lambda: E.ip.lineqs(Am, bm, show=False))
    E.reach()
    unchanged(E, Am, A, bm, b)
    x = [E.exact('x%d' % j) for j in range(2)]
    all_edges(E, A, b, V, x)


def windowed(A, b, w):
    return A + [[1, 0], [0, 1], [-1, 0], [0, -1]], list(b) + [w[0][0], w[0][1], -w[1][0], -w[1][1]]


@harness('L15', cases=[dict(M=k) for k in OPEN if k != 'cone'], thorough=[dict(M='cone')], stubs=STUBS,
         bounds='listed unbounded sets of 1 to 3 inequalities in the drawing area [-3, 4] x [-5, 2], every right-hand side in [-10, 10]; exact arithmetic', max_paths=6000)
def open_set_in_window(E, M):
    """the set cut by the given drawing area (when it has a corner or none in the area: when it is unbounded)"""
    A = OPEN[M]
    Am, bm, b = system(E, A)
    w = [[-3, -5], [4, 2]]
    A2, b2 = windowed(A, b, w)
    separated(E, A2, b2)
    ok, V = E.call(lambda: E.ip.lineqs(Am, bm, show=False, bounds=w))
    E.reach()
    unchanged(E, Am, A, bm, b)
    x = [E.exact('x%d' % j) for j in range(2)]
    all_edges(E, A2, b2, V, x)


@harness('L15', cases=[dict(M=k) for k in OPEN if k != 'cone'], thorough=[dict(M='cone')], stubs=STUBS,
         bounds='listed unbounded sets of 1 to 3 inequalities, every right-hand side in [-10, 10]; exact arithmetic', max_paths=6000)
def open_set(E, M):
    """the drawing area is chosen by the function: the outline is in the set and shows all its corners"""
    A = OPEN[M]
    Am, bm, b = system(E, A)
    separated(E, A, b)
    for v in b:
        E.assume(E.Or(v == 0, v >= Fraction(1, 1000), v <= -Fraction(1, 1000)))
    ok, V = E.call(lambda: E.ip.lineqs(Am, bm, show=False))
    E.reach()
    unchanged(E, Am, A, bm, b)
    pts = finite(E, V, 2)
    for p in pts:
        E.check('vertex in the set', E.And(*[dot(E, r, p) + EPS >= E.ex(t) for r, t in zip(A, b)]))
    x = [E.exact('x%d' % j) for j in range(2)]
    inside = E.And(*[dot(E, r, x) >= E.ex(t) for r, t in zip(A, b)])
    if not pts:
        E.check('no outline: no points', E.Not(inside))
        return
    for i in range(len(A)):
        for j in range(i):
            if Fraction(A[i][0]) * Fraction(A[j][1]) != Fraction(A[i][1]) * Fraction(A[j][0]):
                tiny = 0 if E.symbolic else Fraction(1, 10 ** 9)
                corner = E.And(inside, near(E, dot(E, A[i], x), b[i], tiny), near(E, dot(E, A[j], x), b[j], tiny))
                E.check('corner shown', E.Or(E.Not(corner), *[E.And(near(E, p[0], x[0], 10 * EPS), near(E, p[1], x[1], 10 * EPS)) for p in pts]))


# ------------------------------------------------------------------------------------------------ three unknowns
SOLID = {
    'simplex': [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, -1, -1]],
    'skew': [[1, 1, 0], [-1, 2, 1], [0, 1, -3], [0, -2, 1]],
    'zero': [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, -1, -1], [0, 0, 0]],
}


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def det3(a, b, c):
    return sum(u * v for u, v in zip(a, cross(b, c)))


def separated3(E, A, b):
    rows = [i for i in range(len(A)) if any(A[i])]
    for n, i in enumerate(rows):
        for m, j in enumerate(rows[:n]):
            for p, k in enumerate(rows[:m]):
                d = Fraction(det3(A[i], A[j], A[k]))
                if not d:
                    continue
                cs = [cross(A[j], A[k]), cross(A[k], A[i]), cross(A[i], A[j])]
                x = [(E.ex(b[i]) * Fraction(cs[0][t]) + E.ex(b[j]) * Fraction(cs[1][t]) + E.ex(b[k]) * Fraction(cs[2][t])) / E.ex(d) for t in range(3)]
                for l in rows[:p]:
                    d = dot(E, A[l], x) - E.ex(b[l])
                    E.assume(E.Or(near(E, d, 0, 0 if E.symbolic else Fraction(1, 10 ** 10)), d >= Fraction(1, 1000), d <= -Fraction(1, 1000)))


@harness('L15', cases=[dict(M='zero')], thorough=[dict(M='simplex'), dict(M='skew')], stubs=STUBS,
         bounds='listed matrices of 4 and 5 inequalities in three unknowns, every right-hand side in [-10, 10]; exact arithmetic', max_paths=6000)
def solid(E, M):
    A = SOLID[M]
    Am, bm, b = system(E, A)
    separated3(E, A, b)
    ok, F = E.call(lambda: E.ip.lineqs3D(Am, bm, show=False))
    E.reach()
    unchanged(E, Am, A, bm, b)
    faces = [finite(E, f, 3) for f in F]
    for f in faces:
        for p in f:
            E.check('vertex in the set', E.And(*[dot(E, r, p) + EPS >= E.ex(t) for r, t in zip(A, b)]))
        E.check('face is flat', E.Or(*[E.And(*[near(E, dot(E, r, p), t, 10 * EPS) for p in f]) for r, t in zip(A, b) if any(r)]))
    x = [E.exact('x%d' % j) for j in range(3)]
    tiny = 0 if E.symbolic else Fraction(1, 10 ** 9)
    inside = E.And(*[dot(E, r, x) >= E.ex(t) - tiny for r, t in zip(A, b)])
    for i, r in enumerate(A):
        for j, s in enumerate(A[:i]):
            d = cross(r, s)
            if not any(d):
                continue
            on = E.And(inside, near(E, dot(E, r, x), b[i], tiny), near(E, dot(E, s, x), b[j], tiny))
            shown = []
            for f in faces:
                for p in f:
                    shown.append(E.And(*[near(E, p[t], x[t], 10 * EPS) for t in range(3)]))
                for k in range(len(f)):
                    u, v = f[k - 1], f[k]
                    pu, pv, px = dot(E, d, u), dot(E, d, v), dot(E, d, x)
                    flat = [near(E, dot(E, q, w), t, 10 * EPS) for q, t in ((r, b[i]), (s, b[j])) for w in (u, v)]
                    shown.append(E.And(*flat, E.Or(E.And(pu <= px + EPS, px <= pv + EPS), E.And(pv <= px + EPS, px <= pu + EPS))))
            E.check('edge shown', E.Or(E.Not(on), *shown))


# ------------------------------------------------------------------------------------------------ solution sets of interval systems
ORTHANTS = {2: [(1, 1), (-1, 1), (-1, -1), (1, -1)]}
ORTHANTS[3] = [o + (1,) for o in ORTHANTS[2]] + [o + (-1,) for o in ORTHANTS[2]]
SYSTEMS = {
    2: [[[(-1, 2), (1, 3)]], [[(2, 4), (-2, 1)], [(-1, 2), (2, 4)]], [[(0, 1), (-3, -1)], [(1, 1), (0, 0)], [(-2, 0), (0, 2)]]],
    3: [[[(-1, 2), (1, 3), (-2, -1)]], [[(2, 4), (-2, 1), (0, 1)], [(-1, 2), (2, 4), (-3, 1)]]],
}


def drawn(E, n, M, kind, **kw):
    """(interval data, what the drawing of inequalities was asked for, result)"""
    from checks.common import C, proper
    from checks.linear_functionals import data
    if M is None:
        A, b, _ = data(E, 1, n)
    else:
        D = SYSTEMS[n][M]
        A = [[C(E)(float(p), float(q)) for p, q in r] for r in D]
        b = [proper(E, 'b%d' % i, lo=-10, hi=10) for i in range(len(D))]
    calls = []

    def record(Aq, bq, show=True, bounds=None, **k):
        calls.append((Aq, bq, bounds, show))
        corner = E.np.array([[float(len(calls))] * n] * 3)
        return corner if n == 2 else [corner]
    E.patch('lineqs' if n == 2 else 'lineqs3D', record)
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    f = E.ip.IntLinIncR2 if n == 2 else E.ip.IntLinIncR3
    return A, b, AI, bI, calls, lambda *exc: E.call(lambda: f(AI, bI, show=False, **(dict(consistency=kind) if kind else {}), **kw), *exc)


@harness('L16', cases=[dict(n=n, M=M, kind=k) for n in (2, 3) for M in (None, *range(len(SYSTEMS[n]))) for k in ('uni', 'tol')] + [dict(n=n, M=0, kind=None) for n in (2, 3)],
         stubs=['lineqs, lineqs3D: record the inequalities'],
         bounds='every 1x2 and 1x3 matrix, listed matrices up to 3x2 and 2x3; every right-hand side and point; exact arithmetic')
def inequalities(E, n, M, kind):
    from checks.common import same
    from checks.linear_functionals import member_cond, row_range
    A, b, AI, bI, calls, go = drawn(E, n, M, kind)
    ok, r = go()
    E.reach()
    for i in range(len(b)):
        E.check('right-hand side unchanged', same(E, bI[i], b[i]))
        for j in range(n):
            E.check('matrix unchanged', same(E, AI[i, j], A[i][j]))
    orts = ORTHANTS[n]
    E.check('one drawing per orthant', len(calls) == len(orts) and len(r) == len(orts))
    for k in range(len(orts)):
        E.check('in the documented order', float(E.np.asarray(r[k]).ravel()[0]) == k + 1)
        E.check('nothing shown', calls[k][3] is False)
        E.check('no drawing area', calls[k][2] is None)
    slack = EPS if n == 3 or not E.symbolic else 0
    for k, o in enumerate(orts):
        x = [E.real('x%d_%d' % (k, j), lo=-100, hi=100) for j in range(n)]
        if M is None:       # the sign is what matters, case by case
            for v, s in zip(x, o):
                E.assume(v >= 0 if s > 0 else v <= 0)
        Aq, bq = calls[k][0], calls[k][1]
        rows = [E.ex(bq[i]) - sum((E.ex(Aq[i, j]) * E.ex(x[j]) for j in range(n)), E.ex(0)) for i in range(len(bq))]
        there = [E.And(*[E.ex(v) * s >= -d for v, s in zip(x, o)]) for d in (0, slack)]
        inset = []
        for d in (0, slack):
            cs = []
            for i in range(len(b)):
                lo, hi = row_range(E, A[i], x)
                cs.append(E.And(E.ex(b[i].a) <= lo + d, hi <= E.ex(b[i].b) + d) if kind == 'tol' else
                          E.And(E.ex(b[i].a) <= hi + d, lo <= E.ex(b[i].b) + d))
            inset.append(E.And(*cs))
        E.check('inequalities hold in the set', E.Or(E.Not(E.And(there[0], inset[0])), E.And(*[v <= slack for v in rows])))
        E.check('only there', E.Or(E.Not(E.And(*[v <= 0 for v in rows])), E.And(there[1], inset[1])))


@harness('L16', cases=[dict(n=n, before=w) for n in (2, 3) for w in (0, 1)], stubs=['lineqs, lineqs3D: record the inequalities'],
         bounds='one matrix, every right-hand side; also after drawing an unbounded set')
def drawing_area(E, n, before):
    """the given drawing area is used in every orthant"""
    if before:
        if n == 2:
            E.call(lambda: E.ip.lineqs(E.np.array([[1.0, 0.0], [0.0, 1.0]]), E.np.array([1.0, 2.0]), show=False))
        else:
            E.call(lambda: E.ip.lineqs3D(E.np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]), E.np.array([1.0, 2.0, 3.0]), show=False))
    w = [[-1.0] * n, [2.0] * n]
    A, b, AI, bI, calls, go = drawn(E, n, 0, 'uni', bounds=w)
    go()
    E.reach()
    E.check('one drawing per orthant', len(calls) == 2 ** n)
    for c in calls:
        same = c[2] is not None and E.np.shape(c[2]) == (2, n)
        E.check('drawing area', same and all(float(c[2][i][j]) == w[i][j] for i in range(2) for j in range(n)))


@harness('L16', cases=[dict(n=2), dict(n=3)], stubs=['lineqs, lineqs3D: record the inequalities'], bounds='one matrix, every right-hand side')
def unknown_set(E, n):
    A, b, AI, bI, calls, go = drawn(E, n, 0, 'both')
    ok, r = go(Exception)
    E.reach()
    E.check('unknown set refused', not ok)
