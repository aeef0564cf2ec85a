"""PPS: optimal outer estimates by partition of the parameters."""
import itertools
import math
from fractions import Fraction

from sx.npshim import const, exact_inverse
from sx.registry import harness
from checks.common import C, proper, same
from checks.linear_hbr import ball, matrix

SYS = {
    'one': [[(2, 4)]],
    'neg': [[(-4, -1)]],
    'unit': ball([[1, 0], [0, 1]], [[0.25, 0.5], [0.125, 0.25]]),
    'hansen': [[(2, 3), (0, 1)], [(1, 2), (2, 3)]],
    'asym': [[(3, 4), (-2, 1)], [(-1, 2), (-5, -3)]],
    'entry': [[(2, 4), (1, 1)], [(-1, -1), (3, 3)]],
    'column': [[(2, 4), (1, 1)], [(-1, 1), (3, 3)]],
    'row': [[(2, 4), (-1, 2)], [(1, 1), (-3, -3)]],
    'point': [[(2, 2), (1, 1)], [(-1, -1), (3, 3)]],
}
FIXED = [(-1, 3), (2, 4), (-5, -2)]


def corners(D, j):
    """rows of the inverses of the extreme matrices: x_j = row . b"""
    n = len(D)
    rows = set()
    for pick in itertools.product(*[sorted(set(e)) for r in D for e in r]):
        R = exact_inverse([[Fraction(v) for v in pick[i * n:(i + 1) * n]] for i in range(n)])
        rows.add(tuple(R[j]))
    return sorted(rows)


def extremes(E, D, j, b, low):
    """extreme values of x_j over the right-hand sides, for each extreme matrix"""
    out = []
    for row in corners(D, j):
        s = E.ex(0)
        for c, v in zip(row, b):
            s = s + c * E.ex(v.a if (c > 0) == low else v.b)
        out.append(s)
    return out


def hbr_contract(E, slack):
    """HBR: an arbitrary enclosure of the solution set (property L03), or the hull widened by a given number, the hull when the matrix is exact"""
    if not E.symbolic:
        return
    def HBR(Q, r):
        n = len(r)
        D = [[(const(Q[i, j].a), const(Q[i, j].b)) for j in range(n)] for i in range(n)]
        out = []
        exact = all(p == q for row in D for p, q in row)
        for j in range(n):
            lo, hi = extremes(E, D, j, r, True), extremes(E, D, j, r, False)
            if exact:
                ends = E.num(lo[0]), E.num(hi[0])
            elif slack is not None:
                ends = E.num(E.min(*lo) - slack), E.num(E.max(*hi) + slack)
            else:
                ends = E.num(E.fresh("hl")), E.num(E.fresh("hh"))
                for v in lo:
                    E.fact(E.ex(ends[0]) <= v)
                for v in hi:
                    E.fact(E.ex(ends[1]) >= v)
            out.append(C(E)(*ends))
        return E.ip.asinterval(out)
    E.patch('HBR', HBR)
    orig = E.ip.Gauss

    def Gauss(Q, r):        # the same with short numbers: also an enclosure (property L01)
        res = orig(Q, r)
        return E.ip.asinterval([C(E)(math.floor(const(v.a) * 64) / 64, math.ceil(const(v.b) * 64) / 64) for v in res])
    E.patch('Gauss', Gauss)


@harness('L11', cases=[dict(M='one', it=i, nu=0) for i in (-1, 1)] + [dict(M='neg', it=50, nu=0), dict(M='entry', it=1, nu=0, fix=1), dict(M='entry', it=50, nu=1, fix=1),
                      dict(M='asym', it=0, nu=None, fix=1, slack=0.25), dict(M='asym', it=1, nu=0, fix=1, slack=0.25), dict(M='hansen', it=1, nu=1, fix=1, slack=0),
                      dict(M='column', it=50, nu=1, fix=1, slack=0.25), dict(M='row', it=50, nu=0, fix=1, slack=0.125), dict(M='point', it=50, nu=0)],
         thorough=[dict(M='asym', it=2, nu=1, fix=1, slack=0.25), dict(M='unit', it=2, nu=0, fix=1, slack=0.25), dict(M='hansen', it=2, nu=0, fix=1, slack=0.25),
                   dict(M='column', it=50, nu=0, slack=0.25), dict(M='entry', it=50, nu=0)],
         stubs=['HBR: an arbitrary enclosure of the solution set (property L03), the exact hull when the matrix is exact'],
         bounds='listed interval matrices of orders 1 and 2, every right-hand side in [-10, 10]; exact arithmetic', max_paths=20000)
def pps_encloses(E, M, it, nu, fix=0, slack=None):
    D = SYS[M]
    n = len(D)
    AI = matrix(E, D)
    b = [proper(E, 'b%d' % i, lo=-10, hi=10) for i in range(n - fix)] + [C(E)(float(p), float(q)) for p, q in FIXED[:fix]]
    bI = E.ip.asinterval(b)
    hbr_contract(E, slack)
    ok, r = E.call(lambda: E.ip.PPS(AI, bI, tol=1e-6, maxiter=it, nu=nu))
    E.reach()
    for i in range(n):
        E.check('right-hand side unchanged', same(E, bI[i], b[i]))
        for j in range(n):
            E.check('matrix unchanged', E.And(E.ex(AI[i, j].a) == Fraction(D[i][j][0]), E.ex(AI[i, j].b) == Fraction(D[i][j][1])))
    comps = range(n) if nu is None else [nu]
    E.check('shape', len(r) == len(comps))
    for k, j in enumerate(comps):
        lows, highs = extremes(E, D, j, b, True), extremes(E, D, j, b, False)
        E.check('encloses:inf', E.And(*[E.le(r[k].a, v).cond() if E.symbolic else E.le(r[k].a, v) for v in lows]))
        E.check('encloses:sup', E.And(*[E.le(v, r[k].b).cond() if E.symbolic else E.le(v, r[k].b) for v in highs]))
        if it >= 50:        # run to its end
            E.check('attained:inf', E.Or(*[E.ex(r[k].a) >= v - Fraction(1, 10 ** 5) for v in lows]))
            E.check('attained:sup', E.Or(*[E.ex(r[k].b) <= v + Fraction(1, 10 ** 5) for v in highs]))
