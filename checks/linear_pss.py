"""PSS: optimal outer estimates by adaptive splitting of the box."""
import itertools
import math
from fractions import Fraction

from sx import core
from sx.lp import install
from sx.registry import harness
from checks.common import C, K, proper, same
from checks.linear_hbr import bounds, matrix, solution


def term(v):
    return v.t if isinstance(v, core.SymReal) else core.q(v)


def join_free(E):
    """intersection of arrays (of any shapes that broadcast), as C10 establishes it, with a path for empty or not only"""
    if not E.symbolic:
        return
    z3, orig = E.z3, E.ip.intersection

    def pick(p, q, larger):
        for u, v in ((p, q), (q, p)):
            if isinstance(u, float) and math.isinf(u):
                return v if (u < 0) == larger else u
        a, b = term(p), term(q)
        t = z3.simplify(z3.If(a < b, b, a) if larger else z3.If(a < b, a, b))
        return core.SymReal(t)

    def one(x, y):
        if any(isinstance(v, float) and math.isnan(v) for v in (x.a, x.b, y.a, y.b)):
            return orig(x, y)
        lo, hi = pick(x.a, y.a, True), pick(x.b, y.b, False)
        if not bool(lo - hi <= 1e-15):
            return E.ip.Interval(math.nan, math.nan)
        if any(isinstance(v, float) and math.isinf(v) for v in (lo, hi)):
            return K(E)(lo, hi)
        if not bool(lo <= hi):
            lo, hi = hi, lo
        return C(E)(lo, hi)

    def intersection(x, y):
        x, y = E.ip.asinterval(x), E.ip.asinterval(y)
        xs, ys = [isinstance(v, (C(E), K(E))) for v in (x, y)]
        if xs and ys:
            return one(x, y)
        return E.ip.asinterval([one(x if xs else x[i], y if ys else y[i]) for i in range(len(y if xs else x))])
    E.patch('intersection', intersection)


def member(E, M, b, x):
    """x belongs to the united solution set"""
    mid, rad = bounds(M)
    cs = []
    for i, r in enumerate(M):
        s = t = E.ex(0)
        for j in range(len(r)):
            s = s + E.ex(mid[i][j]) * x[j]
            t = t + E.ex(rad[i][j]) * E.abs(x[j])
        cs.append(E.And(s - t <= E.ex(b[i].b), s + t >= E.ex(b[i].a)))
    return E.And(*cs)


SYS = {
    # matrix, starting box
    'diag': ([[(2, 4), (-1, 1)], [(-1, 1), (2, 4)]], [(-3, 5), (-4, 4)]),
    'side': ([[(2, 4), (-1, 1)], [(-1, 1), (2, 4)]], [(-3, 5), (1, 4)]),
    'cross': ([[(-1, 2), (1, 2)], [(-2, 1), (-2, 3)]], [(-3, 5), (-1, 4)]),
    'zero': ([[(0, 2), (1, 2)], [(-1, 0), (-1, 1)]], [(-4, 4), (0, 4)]),
    'zeros': ([[(0, 2), (1, 2)], [(0, 0), (1, 3)]], [(-4, 4), (-3, 2)]),
    'away': ([[(-1, 2), (1, 2)], [(-2, 1), (-2, 3)]], [(1, 5), (1, 4)]),
    'tall': ([[(1, 2), (0, 1)], [(-1, 1), (1, 2)], [(0, 1), (-1, 0)]], [(-3, 5), (-2, 4)]),
}


FIXED = [(-1, 3), (2, 4), (-5, -2)]


@harness('L10', cases=[dict(M=k, it=0, nu=nu) for k in SYS for nu in (0, 1) if k not in ('tall', 'cross')] +
         [dict(M='diag', it=-1, nu=None), dict(M='cross', it=0, nu=0, fix=1), dict(M='cross', it=0, nu=1), dict(M='tall', it=0, nu=0, fix=2),
          dict(M='tall', it=0, nu=1, fix=1), dict(M='diag', it=1, nu=0, fix=1), dict(M='side', it=1, nu=1, fix=1), dict(M='away', it=1, nu=0, fix=1),
          dict(M='zeros', it=1, nu=1, fix=1)],
         thorough=[dict(M=k, it=1, nu=0, fix=1) for k in SYS if k not in ('diag', 'away')] +
         [dict(M='cross', it=0, nu=0), dict(M='tall', it=0, nu=1), dict(M='diag', it=2, nu=0, fix=1), dict(M='diag', it=0, nu=None, fix=1)],
         max_paths=20000, stubs=['cvxopt.solvers.lp: an optimal answer, or none (checked against the tracked solution)',
                                 'intersection of intervals: as property C10 establishes it'],
         bounds='listed matrices up to 3x2 and starting boxes; every right-hand side in [-10, 10] (in some cases one or two rows are fixed); '
                'up to 2 (3) splittings of the box for each end; exact arithmetic')
def encloses(E, M, it, nu, fix=0):
    D, V = SYS[M]
    n, m = len(D), len(D[0])
    AI = matrix(E, D)
    b = [proper(E, 'b%d' % i, lo=-10, hi=10) for i in range(n - fix)] + [C(E)(float(p), float(q)) for p, q in FIXED[:fix]]
    bI = E.ip.asinterval(b)
    x = [E.exact('x%d' % j, *V[j]) for j in range(m)]
    solution(E, D, b, x)
    x0 = E.ip.asinterval([C(E)(float(p), float(q)) for p, q in V])
    join_free(E)
    lp = install(E, lambda c, G, h: [[E.abs(v) for v in x]])
    ok, r = E.call(lambda: E.ip.PSS(AI, bI, x0=x0, tol=1e-3, maxiter=it, nu=nu))
    E.reach()
    for i in range(n):
        E.check('right-hand side unchanged', same(E, bI[i], b[i]))
    for j in range(m):
        E.check('starting box unchanged', E.And(E.ex(x0[j].a) == V[j][0], E.ex(x0[j].b) == V[j][1]))
    comps = range(m) if nu is None else [nu]
    E.check('shape', len(r) == len(comps))
    for k, j in enumerate(comps):
        E.check('encloses:inf', E.le(r[k].a, x[j]))
        E.check('encloses:sup', E.le(x[j], r[k].b))
        if it >= 0 and all(p * q > 0 for i, (p, q) in enumerate(V) if i != j):      # the other unknowns have definite signs: exact ends
            pts = [[s * E.ex(v) for s, v in zip(sg, p[3])] for p in lp.log if p[3] is not None for sg in itertools.product((1, -1), repeat=m)]
            for end, w in ((r[k].a, 'inf'), (r[k].b, 'sup')):
                if E.symbolic:
                    E.check('attained:' + w, E.Or(*[E.And(member(E, D, b, p), E.ex(end) == p[j]) for p in pts]))
                else:
                    bb = [E.ip.Interval(float(v.a) - 1e-6, float(v.b) + 1e-6) for v in b]
                    E.check('attained:' + w, any(member(E, D, bb, p) and abs(float(end) - float(p[j])) < 1e-6 for p in pts))
