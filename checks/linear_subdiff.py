"""The subdifferential Newton method."""
from fractions import Fraction

from sx.registry import harness
from checks.common import C, K, anyK, kmul, same

MATS = {
    'one': [[(1, 2)]],
    'wide': [[(-1, 2)]],
    'signs': [[(2, 3), (-1, 1)], [(-3, -2), (1, 4)]],
    'improper': [[(2, 1), (1, -1)], [(-2, -3), (3, 4)]],
    'mixed': [[(-1, 2), (2, -1)], [(1, -2), (-2, 3)]],
    'big': [[(2, 3), (0, 0)], [(0, 0), (1, 1)]],
    'diag': [[(2, 2), (0, 0)], [(0, 0), (3, 3)]],
    'zeros': [[(0, 2), (0, 0)], [(-1, 0), (1, 1)]],
}


class Solver:
    """numpy.linalg.solve: anything; what it was asked is kept"""
    def __init__(self, E, n, check=None, tame=False):
        self.E, self.n, self.calls, self.check = E, n, [], check
        self.tame = tame
        E.linalg('solve', self, replay=True)
        E.linalg('inv', lambda F: Inverse(self, F), replay=True)

    def __call__(self, F, r):
        k = len(self.calls)
        d = [self.E.real('d%d_%d' % (k, i), lo=-100, hi=100) for i in range(2 * self.n)]
        F, r = self.E.np.asarray(F), self.E.np.asarray(r).ravel()
        if self.tame:       # positive proper iterates
            for i in range(self.n):
                lo, hi = self.E.ex(d[i]), self.E.ex(d[i + self.n])
                self.E.assume(self.E.And(2 <= lo, lo + 2 <= hi) if not k else self.E.And(lo <= 1, hi >= 1, lo >= 0, hi <= 2))
        self.calls.append(([[F[i, j] for j in range(2 * self.n)] for i in range(2 * self.n)], [r[i] for i in range(2 * self.n)], d))
        if self.check:
            self.check(k, self.calls)
        return self.E.arr(d)


class Inverse:
    def __init__(self, solver, F):
        self.solver, self.F = solver, F

    def __matmul__(self, r):
        return self.solver(self.F, r)

    dot = __matmul__


def apply(E, A, x, n):
    """lower and upper ends of A x in Kaucher arithmetic, exactly"""
    lo, hi = [], []
    for r in A:
        p = [kmul(E, (E.ex(a.a), E.ex(a.b)), (x[j], x[j + n])) for j, a in enumerate(r)]
        lo.append(sum((v[0] for v in p), E.ex(0)))
        hi.append(sum((v[1] for v in p), E.ex(0)))
    return lo + hi


def problem(E, M, n):
    if M:
        A = [[K(E)(float(p), float(q)) for p, q in r] for r in MATS[M]]
    else:
        A = [[anyK(E, 'a', lo=-100, hi=100)]]
    b = [anyK(E, 'b%d' % i, lo=-100, hi=100) for i in range(n)]
    if M:
        for i, v in enumerate(b):
            E.assume(v.a < v.b if i == 0 else v.a > v.b)
    AI = E.ip.Interval([[[a.a, a.b] for a in r] for r in A], sortQ=False)
    bI = E.ip.Interval([[v.a, v.b] for v in b], sortQ=False)
    return A, b, AI, bI


def starting(E, A, b, n, F, rhs):
    """the start solves the system of the midpoints of the matrix"""
    z = [E.exact('z%d' % j, -100, 100) for j in range(2 * n)]
    mid = [[C(E)((a.a + a.b) / 2, (a.a + a.b) / 2) for a in q] for q in A]
    want = apply(E, mid, z, n)
    for i in range(2 * n):
        E.check('starting system', E.eq(sum((E.ex(F[i][j]) * z[j] for j in range(2 * n)), E.ex(0)), want[i]))
        E.check('starting right-hand side', E.eq(rhs[i], b[i].a if i < n else b[i - n].b))


def step(E, A, b, n, x, F, rhs):
    """F is the derivative of the product at x (it is constant on the region of the path), rhs the residual; -> residual"""
    want = apply(E, A, x, n)
    res = [want[i] - E.ex(b[i].a if i < n else b[i - n].b) for i in range(2 * n)]
    for i in range(2 * n):
        E.check('derivative', E.eq(sum((E.ex(F[i][j]) * x[j] for j in range(2 * n)), E.ex(0)), want[i]))
        E.check('residual', E.eq(rhs[i], res[i]))
    return res


@harness('L12', cases=[dict(M=None, n=1)] + [dict(M=k, n=2) for k in MATS if k not in ('one', 'wide', 'big', 'diag')],
         stubs=['numpy.linalg.solve: arbitrary answer, its arguments are checked'], max_paths=8000,
         bounds='every 1x1 system, listed 2x2 matrices of proper and improper intervals with every right-hand side and iterate; exact arithmetic')
def newton_step(E, M, n):
    A, b, AI, bI = problem(E, M, n)

    def check(k, calls):
        E.reach()
        F, rhs, d = calls[k]
        if k == 0:
            if M is None:
                starting(E, A, b, n, F, rhs)
            else:
                E.check('starting right-hand side', E.And(*[E.ex(rhs[i]) == E.ex(b[i].a if i < n else b[i - n].b) for i in range(2 * n)]))
            return
        step(E, A, b, n, [E.ex(v) for v in calls[0][2]], F, rhs)
        E.stop()
    S = Solver(E, n, check)
    E.call(lambda: E.ip.Subdiff(AI, bI))
    E.fail('no step was made')


@harness('L12', cases=[dict(M='signs')], stubs=['numpy.linalg.solve: arbitrary answer, its arguments are checked'],
         bounds='one 2x2 matrix, every right-hand side')
def start(E, M):
    A, b, AI, bI = problem(E, M, 2)

    def check(k, calls):
        E.reach()
        starting(E, A, b, 2, *calls[0][:2])
        E.stop()
    Solver(E, 2, check)
    E.call(lambda: E.ip.Subdiff(AI, bI))
    E.fail('no step was made')


@harness('L12', cases=[dict(M='one', n=1, it=1), dict(M='big', n=2, it=0), dict(M='diag', n=2, it=1), dict(M='one', n=1, it=0, tau=1)], thorough=[dict(M='wide', n=1, it=1), dict(M='one', n=1, it=2)],
         stubs=['numpy.linalg.solve: arbitrary answer, its arguments are checked'], max_paths=8000,
         bounds='listed matrices of order 1 and 2, every right-hand side and iterates; up to 2 (3) steps; exact arithmetic')
def iteration(E, M, n, it, tau=0.5):
    A, b, AI, bI = problem(E, M, n)
    S = Solver(E, n, tame=M == 'diag')
    tol = 0.25
    kw = {} if tau == 1 else {'tau': tau}       # the full step is the default
    if M == 'big':
        for v in b:
            E.assume(E.Or(E.And(v.a <= -1, v.b >= 1), E.And(v.b <= -1, v.a >= 1)))
    ok, r = E.call(lambda: E.ip.Subdiff(AI, bI, tol=tol, maxiter=it, **kw))
    E.reach()
    for i in range(n):
        E.check('right-hand side unchanged', same(E, bI[i], b[i]))
        for j in range(n):
            E.check('matrix unchanged', same(E, AI[i, j], A[i][j]))
    E.check('number of steps', 1 <= len(S.calls) <= it + 2)
    x = [E.ex(v) for v in S.calls[0][2]]
    resid = None
    for F, rhs, d in S.calls[1:]:
        res = step(E, A, b, n, x, F, rhs)
        resid = sum((E.max(E.abs(res[i]), E.abs(res[i + n])) for i in range(n)), E.ex(0))
        x = [v - E.ex(u) * Fraction(tau) for v, u in zip(x, d)]
    E.check('shape', len(r) == n)
    for i in range(n):
        E.check('last iterate:inf', E.eq(r[i].a, x[i]))
        E.check('last iterate:sup', E.eq(r[i].b, x[i + n]))
    if 1 < len(S.calls) < it + 2:
        q = sum((E.abs(v) for v in x), E.ex(0))
        E.check('stopped by the tolerance', E.le(resid, E.If(q <= E.ex(Fraction(1, 10 ** 12)), E.ex(1), q) * Fraction(tol)))
