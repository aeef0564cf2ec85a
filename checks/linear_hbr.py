"""Outer estimates whose matrix is fixed and whose right-hand side is arbitrary: Hansen-Bliek-Rohn, Rohn."""
from fractions import Fraction

from sx.registry import harness
from sx.npshim import const, exact_inverse
from checks.common import C, contains, proper, same


def bounds(M):
    """(midpoints, radii) of a matrix given as [lo, hi] pairs"""
    return ([[Fraction(a + b) / 2 for a, b in r] for r in M], [[Fraction(b - a) / 2 for a, b in r] for r in M])


def solution(E, M, b, x):
    """x solves some point system of the interval system (Oettli-Prager)"""
    mid, rad = bounds(M)
    for i, r in enumerate(M):
        s = t = E.ex(0)
        for j in range(len(r)):
            s = s + E.ex(mid[i][j]) * x[j]
            t = t + E.ex(rad[i][j]) * E.abs(x[j])
        E.assume(E.And(s - t <= E.ex(b[i].b), s + t >= E.ex(b[i].a)))


def matrix(E, M):
    return E.ip.asinterval([[C(E)(float(a), float(b)) for a, b in r] for r in M])


def ball(mid, rad):
    return [[(m - r, m + r) for m, r in zip(p, q)] for p, q in zip(mid, rad)]


I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
# strictly regular (answer required), borderline or singular (may be refused), not inverse-positive
HBR_OK = {
    'one': [[(2, 4)]],
    'neg': [[(-4, -1)]],
    'hansen': [[(2, 3), (0, 1)], [(1, 2), (2, 3)]],
    'asym': [[(3, 4), (-2, 1)], [(-1, 2), (-5, -3)]],
    'three': [[(4, 5), (-1, 1), (0, 1)], [(-1, 0), (-6, -4), (1, 1)], [(-1, 1), (0.5, 1), (3, 4)]],
}
UNIT = {        # midpoint is the identity: the result is the hull
    'unit2': ball([[1, 0], [0, 1]], [[0.25, 0.5], [0.125, 0.25]]),
    'tri2': ball([[1, 0], [0, 1]], [[0.125, 0], [0.25, 0.5]]),
    'unit3': ball(I3, [[0.25, 0.375, 0.125], [0.0, 0.5, 0.25], [0.25, 0.125, 0.25]]),
}
HBR_OK.update(UNIT)
HBR_MAYBE = {
    'rows': ball(I3, [[0.25, 0.5, 2], [0.25, 0.25, 0], [0.125, 0.5, 0.25]]),
    'rows2': ball([[1, 0], [0, 1]], [[0.5, 4], [0.125, 0.5]]),
    'irregular': [[(1, 2), (1, 3)], [(1, 3), (1, 2)]],
    'four': ball([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]],
                 [[0, .125, 2, 0], [.5, .125, .5, 2], [.5, 0, .25, 0], [2, .75, .5, 0]]),
}


def rough_inverse(E, entry):
    """numpy.linalg.inv: one entry of the second inverse taken (that of the comparison matrix) comes out too small by 1/16"""
    calls = []
    exact = E.np.linalg.inv

    def inv(M):
        calls.append(1)
        if len(calls) == 1:
            return exact(M)
        R = exact_inverse([[const(v) for v in r] for r in M])
        R[entry[0]][entry[1]] *= Fraction(15, 16)
        return E.arr([[E.num(v) for v in r] for r in R])
    E.linalg('inv', inv, replay=True)


ROUGH = [dict(M='unit2', rough=e) for e in ((0, 0), (0, 1), (1, 1))] + [dict(M='tri2', rough=(1, 0)), dict(M='unit3', rough=(1, 2)),
         dict(M='unit3', rough=(2, 0)), dict(M='asym', rough=(0, 1))]


@harness('L03', cases=[dict(M=k) for k in (*HBR_OK, *HBR_MAYBE)] + [dict(M='asym', cols=2)] + ROUGH,
         stubs=['numpy.linalg.inv: exact inverse, or (rough) one entry of the inverse of the comparison matrix 1/16 too small'],
         bounds='listed interval matrices of orders 1 to 4; every right-hand side in [-10, 10], one or two columns; exact arithmetic',
         max_paths=6000)
def hbr_encloses(E, M, rough=None, cols=0):
    if rough:
        rough_inverse(E, rough)
    data = {**HBR_OK, **HBR_MAYBE}[M]
    n = len(data)
    AI = matrix(E, data)
    bs = [[proper(E, 'b%d_%d' % (i, c), lo=-10, hi=10) for i in range(n)] for c in range(cols or 1)]
    xs = [[E.exact('x%d_%d' % (i, c)) for i in range(n)] for c in range(cols or 1)]
    for b, x in zip(bs, xs):
        solution(E, data, b, x)
    bI = E.ip.asinterval([[b[i] for b in bs] for i in range(n)] if cols else bs[0])
    bad = () if M in HBR_OK else (AssertionError, ValueError, ZeroDivisionError, E.np.linalg.LinAlgError)
    ok, r = E.call(lambda: E.ip.HBR(AI, bI), *bad)
    E.reach()
    for i in range(n):
        for c, b in enumerate(bs):
            E.check('right-hand side unchanged', same(E, bI[i, c] if cols else bI[i], b[i]))
        for j in range(n):
            E.check('matrix unchanged', E.eq(AI[i, j].a, data[i][j][0]))
            E.check('matrix unchanged', E.eq(AI[i, j].b, data[i][j][1]))
    if not ok:
        return
    E.check('shape', tuple(r.shape) == ((n, cols) if cols else (n,)))
    for i in range(n):
        for c, x in enumerate(xs):
            contains(E, 'solution', r[i, c] if cols else r[i], x[i])


# ------------------------------------------------------------------------------------------------ Rohn
ROHN = {
    'col': [[(1, 2)], [(2, 3)]],
    'square': [[(3, 4), (0, 1)], [(-1, 1), (4, 5)]],
    'tall': [[(3, 4), (0, 1)], [(-1, 0), (4, 5)], [(1, 1), (1, 1.5)]],
    'thin': ball([[4, 0], [0, 4], [1, 1]], [[0.5, 0.125], [0.25, 0.5], [0, 0.25]]),
    'rows': ball([[1, 0], [0, 1]], [[0.25, 2], [0.125, 0.25]]),
    'wide': ball([[1, 0], [0, 1]], [[1, 1], [1, 1]]),
}


@harness('L04', cases=[dict(M=k, it=i, tol=t) for k, i, t in (('col', 2, 0.25), ('col', 1, 4.0), ('square', 1, 0.5), ('tall', 1, 0.5), ('thin', 2, 0.25),
                                                            ('rows', 2, 0.5), ('wide', 1, 8.0))],
         thorough=[dict(M=k, it=4, tol=0.125) for k in ROHN],
         bounds='listed interval matrices up to 3x2, every right-hand side in [-10, 10], stop within 2 (5) iterations; exact arithmetic', max_paths=6000)
def rohn_encloses(E, M, it, tol):
    data = ROHN[M]
    n, m = len(data), len(data[0])
    AI = matrix(E, data)
    b = [proper(E, 'b%d' % i, lo=-10, hi=10) for i in range(n)]
    x = [E.exact('x%d' % j) for j in range(m)]
    bI = E.ip.asinterval(b)
    ok, r = E.call(lambda: E.ip.Rohn(AI, bI, tol=tol, maxiter=it), Exception)
    E.reach()
    for i in range(n):
        E.check('right-hand side unchanged', same(E, bI[i], b[i]))
        for j in range(m):
            E.check('matrix unchanged', E.eq(AI[i, j].a, data[i][j][0]))
            E.check('matrix unchanged', E.eq(AI[i, j].b, data[i][j][1]))
    if not ok:
        return
    solution(E, data, b, x)
    E.check('shape', len(r) == m)
    for j in range(m):
        contains(E, 'solution', r[j], x[j])


@harness('L04', cases=[dict(M='tall')], bounds='one 3x2 matrix, every right-hand side in [-10, 10]')
def rohn_gives_up(E, M):
    """an iteration that has not converged is not reported as an enclosure"""
    data = ROHN[M]
    b = [proper(E, 'b%d' % i, lo=-10, hi=10) for i in range(len(data))]
    ok, r = E.call(lambda: E.ip.Rohn(matrix(E, data), E.ip.asinterval(b), tol=1e-9, maxiter=0), Exception)
    E.reach()
    E.check('refused', not ok)


@harness('L04', cases=[dict(M='tall')], bounds='one matrix')
def rohn_unknown_set(E, M):
    data = ROHN[M]
    b = [proper(E, 'b%d' % i, lo=-10, hi=10) for i in range(len(data))]
    ok, r = E.call(lambda: E.ip.Rohn(matrix(E, data), E.ip.asinterval(b), consistency='both'), Exception)
    E.reach()
    E.check('unknown set refused', not ok)
