"""The subgradient optimiser against an arbitrary oracle."""
from fractions import Fraction

from sx.registry import harness


def run(E, m, calls, lin=None, **kw):
    """ralgb5 on an oracle that answers anything; at most `calls` evaluations are explored"""
    x0 = [E.real('x0_%d' % j) for j in range(m)]
    X0 = E.arr([1.0 * v for v in x0]) if not E.symbolic else E.arr(x0)
    seen = []

    def oracle(x):
        k = len(seen)
        if k >= calls:
            E.stop()
        pt = [x[j] for j in range(m)]
        if lin is None:
            f = E.real('f%d' % k)
            g = [E.real('g%d_%d' % (k, j)) for j in range(m)]
        else:
            f, g = lin(pt)
        seen.append((pt, f, g))
        return f, E.arr(g)
    ok, r = E.call(lambda: E.ip.ralgb5(oracle, X0, **kw))
    return x0, X0, seen, r


def norms(E):
    """numpy.linalg.norm of a vector as some r >= 0 between the greatest component and the sum of components, the same each time"""
    memo = {}

    def norm(v, *a, **k):
        v = list(v)
        key = tuple(E.ex(x).t.get_id() for x in v)
        if key not in memo:
            r = E.fresh('norm')
            s = E.ex(0)
            for x in v:
                E.fact(r >= E.abs(x))
                s = s + E.abs(x)
            E.fact(r <= s)
            memo[key] = (E.num(r), v)
        return memo[key][0]
    E.linalg('norm', norm)
    return norm


def norm_lt(E, g, t, stub=None):
    """|g| < t"""
    if stub and E.symbolic:
        return E.ex(stub(g)) < E.ex(t)
    s = E.ex(0)
    for v in g:
        s = s + E.ex(v) * E.ex(v)
    return s < E.ex(t) * E.ex(t)


@harness('L09', cases=[dict(m=1, it=0, calls=3), dict(m=1, it=1, calls=4), dict(m=2, it=0, calls=3)],
         thorough=[dict(m=1, it=2, calls=5), dict(m=3, it=0, calls=3)],
         bounds='1 or 2 variables, up to 4 evaluations (arbitrary values and nonzero subgradients), up to 2 iterations', timeout=8000,
         stubs=['numpy.linalg.norm (2 and more variables): some value between the max norm and the sum norm'])
def best_point(E, m, it, calls):
    stub = norms(E)
    x0, X0, seen, r = run(E, m, calls, maxiter=it, tolx=1e-6, tolf=1e-6, tolg=1e-6)
    E.reach()
    xr, fr, nit, ncalls, ccode = r
    for j in range(m):
        E.check('start not modified', E.eq(X0[j], x0[j]))
        E.check('first evaluation at the start', E.eq(seen[0][0][j], x0[j]))
    E.check('number of evaluations', ncalls == len(seen))
    E.check('number of iterations', 0 <= nit <= it + 1)
    E.check('shape', len(xr) == m)
    for p, f, g in seen:
        E.check('least value', E.le(fr, f))
    hit = []
    for p, f, g in seen:
        if E.symbolic:
            hit.append(E.And(E.ex(fr) == E.ex(f), *[E.ex(xr[j]) == E.ex(p[j]) for j in range(m)]))
        else:
            hit.append(fr == f and all(xr[j] == p[j] for j in range(m)))
    E.check('value belongs to the point', E.Or(*hit))
    E.check('code', ccode in (1, 2, 3, 4, 5))
    small = norm_lt(E, seen[-1][2], 1e-6, stub)
    if E.symbolic or abs(float(sum(Fraction(v) ** 2 for v in seen[-1][2])) - 1e-12) > 1e-14:
        E.check('stop by the subgradient', E.Iff(ccode == 2, small))
    if ccode == 4:
        E.check('iterations used up', nit > it)
    else:
        E.check('stopped before', nit <= it)
    if ccode == 5:
        E.check('too many steps', len(seen) > 500)


@harness('L09', cases=[dict(m=1), dict(m=2)], bounds='linear objective of 1 or 2 variables, arbitrary start: 502 evaluations')
def unbounded_objective(E, m):
    """an objective that decreases without end stops with code 5 at the best point"""
    c = [2.0, -3.0][:m]

    def lin(p):
        s = 0.0
        for u, v in zip(c, p):
            s = s + u * v
        return s, c
    x0, X0, seen, r = run(E, m, 600, lin=lin)
    E.reach()
    xr, fr, nit, ncalls, ccode = r
    E.check('code', ccode == 5)
    E.check('not given up at once', len(seen) > 500)
    E.check('number of evaluations', ncalls == len(seen))
    E.check('best value', E.eq(fr, seen[-1][1]))
    for j in range(m):
        E.check('best point', E.eq(xr[j], seen[-1][0][j]))
