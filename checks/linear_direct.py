"""Direct and iterative outer estimates of the united solution set: Gauss, Gauss-Seidel."""
from sx.registry import harness
from sx.member import tracker
from checks.common import C, contains, same

CONTRACT = ['interval operations replaced by their contract (an arbitrary interval containing the exact results for the '
            'tracked members), which C01/C05 decide for the arithmetic itself']


def system(E, T, n, m=None, zero=()):
    """point matrix P and vector x (exact), interval matrix and right-hand side around P and P x"""
    m = m or n
    P = [[E.exact('p%d%d' % (i, j)) for j in range(m)] for i in range(n)]
    x = [E.exact('x%d' % j) for j in range(m)]
    pe = [[T.expr(v) for v in r] for r in P]
    xe = [T.expr(v) for v in x]
    A = [[T.around('a%d%d' % (i, j), pe[i][j]) for j in range(m)] for i in range(n)]
    b = []
    for i in range(n):
        s = pe[i][0] * xe[0]
        for j in range(1, m):
            s = s + pe[i][j] * xe[j]
        b.append(T.around('b%d' % i, s))
    AI, bI = E.ip.asinterval(A), E.ip.asinterval(b)
    return P, x, pe, xe, A, b, AI, bI


def unchanged(E, AI, A, bI, b):
    for i in range(len(b)):
        E.check('right-hand side unchanged', same(E, bI[i], b[i]))
        for j in range(len(A[i])):
            E.check('matrix unchanged', same(E, AI[i, j], A[i][j]))


def sign_class(E, X, k):
    """k: 0 positive, 1 negative, 2 contains zero"""
    E.assume([X.a > 0, X.b < 0, E.And(X.a <= 0, X.b >= 0)][k] if k < 3 else True)


@harness('L01', cases=[dict(n=1), dict(n=2)] + [dict(n=3, s=s, t=t) for s in range(3) for t in range(3)] + [dict(n=4, s=0, t=2)],
         thorough=[dict(n=4, s=1, t=0), dict(n=4, s=2, t=1), dict(n=5, s=0, t=2)], stubs=CONTRACT,
         bounds='orders 1 to 3, all interval entries; order 4 (5) with intervals containing zero in the third and later rows of the first column', max_paths=6000)
def gauss_encloses(E, n, s=3, t=3):
    T = tracker(E)
    P, x, pe, xe, A, b, AI, bI = system(E, T, n)
    if n > 2:
        sign_class(E, A[0][0], s)
        sign_class(E, A[1][0], t)
    for i in range(2, n if n > 3 else 0):
        sign_class(E, A[i][0], 2)
    ok, r = E.call(lambda: E.ip.Gauss(AI, bI), AssertionError, ValueError, ZeroDivisionError)
    E.reach()
    unchanged(E, AI, A, bI, b)
    if not ok:
        return
    E.check('shape', len(r) == n)
    for i in range(n):
        contains(E, 'solution', r[i], x[i])


@harness('L01', cases=[dict(n=1), dict(n=2)], bounds='orders 1 and 2')
def gauss_point_system(E, n):
    """point data: the solution itself, in exact arithmetic; never refused"""
    P = [[E.real('p%d%d' % (i, j)) for j in range(n)] for i in range(n)]
    b = [E.real('b%d' % i) for i in range(n)]
    e = [[E.ex(v) for v in r] for r in P]
    det = e[0][0] if n == 1 else e[0][0] * e[1][1] - e[0][1] * e[1][0]
    if E.symbolic:
        E.assume(E.Not(E.eq(det, 0).cond()))
    else:
        E.assume(abs(det) > 1e-3)
    AI = E.ip.Interval(E.arr(P), E.arr(P))
    bI = E.ip.Interval(E.arr(b), E.arr(b))
    ok, r = E.call(lambda: E.ip.Gauss(AI, bI))
    E.reach()
    for i in range(n):
        for v in (r[i].a, r[i].b):
            if n == 1:
                E.check('solution', E.eq(E.ex(v) * e[0][0], E.ex(b[0])))
            else:
                d = e[1][1] * b[0] - e[0][1] * b[1] if i == 0 else e[0][0] * b[1] - e[1][0] * b[0]
                E.check('solution', E.eq(E.ex(v) * det, d))


# ------------------------------------------------------------------------------------------------ Gauss-Seidel
def stub_inv(E, n, tag):
    """numpy.linalg.inv: may raise, otherwise an arbitrary matrix"""
    k = [0]

    def inv(M):
        k[0] += 1
        if E.boolean('%s_singular%d' % (tag, k[0])):
            raise E.np.linalg.LinAlgError('Singular matrix')
        return E.arr([[E.num(E.fresh()) for j in range(n)] for i in range(n)])
    E.linalg('inv', inv)


@harness('L02', cases=[dict(n=1, it=1, C=0, x0=0), dict(n=2, it=0, C=0, x0=0), dict(n=2, it=0, C=1, x0=0), dict(n=2, it=0, C=0, x0=1),
                       dict(n=2, it=1, C=1, x0=1), dict(n=1, it=3, C=1, x0=1), dict(n=1, it=4, C=0, x0=0)],
         thorough=[dict(n=1, it=6, C=1, x0=1), dict(n=3, it=0, C=1, x0=1)],
         stubs=CONTRACT + ['numpy.linalg.inv: raises or returns an arbitrary matrix'], max_paths=6000,
         bounds='order 1 with up to 5 (7) sweeps, order 2 with up to 2 sweeps (order 3 with one), default or arbitrary preconditioner and starting box')
def gauss_seidel_keeps_solutions(E, n, it, C, x0):
    T = tracker(E)
    P, x, pe, xe, A, b, AI, bI = system(E, T, n)
    T.pool = list(xe)
    stub_inv(E, n, 's')
    kw = {'maxiter': it, 'tol': 1e-12}
    X0 = None
    if C:
        Cm = [[E.real('c%d%d' % (i, j)) for j in range(n)] for i in range(n)]
        kw['C'] = E.arr(Cm)
    if x0:
        X0 = [T.around('q%d' % i, xe[i]) for i in range(n)]
        kw['x0'] = E.ip.asinterval(X0)
    else:
        for v in x:
            E.assume(E.And(v >= -1000, v <= 1000))
    ok, r = E.call(lambda: E.ip.Gauss_Seidel(AI, bI, **kw), AssertionError, ValueError, ZeroDivisionError, E.np.linalg.LinAlgError)
    E.reach()
    unchanged(E, AI, A, bI, b)
    if x0:
        for i in range(n):
            E.check('starting box unchanged', same(E, kw['x0'][i], X0[i]))
    if not ok:
        return
    E.check('shape', len(r) == n)
    for i in range(n):
        contains(E, 'solution', r[i], x[i])
