"""IVE: the variability measure of the estimates of an interval system."""
import types
from fractions import Fraction

from sx.registry import harness
from checks.common import C, proper, same

SYS = {'row': [[(1, 2), (-1, 3)]], 'col': [[(1, 4)], [(-2, -1)]], 'point': [[(2, 2), (0, 1)]]}


def coins(E):
    """numpy.random: every outcome of the choices among two values"""
    import numpy as real
    count = []

    def bit():
        count.append(1)
        return 1 if E.boolean('pick%d' % len(count)) else 0

    def fill(f, size):
        if size is None:
            return f()
        n = (size,) if isinstance(size, int) else tuple(size)
        k = 1
        for s in n:
            k *= s
        out = real.empty(k, dtype=object)
        for i in range(k):
            out[i] = f()
        out = out.reshape(n)
        return out if E.symbolic else real.array(out.tolist())

    def choice(a, size=None, **k):
        a = list(range(a)) if isinstance(a, int) else list(a)
        if len(a) != 2:
            raise AssertionError('not a choice among two values')
        return fill(lambda: a[bit()], size)

    def randint(low, high=None, size=None, **k):
        low, high = (0, low) if high is None else (low, high)
        if high - low != 2:
            raise AssertionError('not a choice among two values')
        return fill(lambda: low + bit(), size)
    unit = lambda size=None: fill(lambda: 0.25 + 0.5 * bit(), size)
    fns = dict(choice=choice, randint=randint, random=unit, random_sample=unit, rand=lambda *s: unit(s or None))
    gen = types.SimpleNamespace(choice=choice, integers=randint, random=unit)
    fns['default_rng'] = lambda *a: gen
    if E.symbolic:
        E.np.random = types.SimpleNamespace(**fns)
    else:
        for k, f in fns.items():
            E._undo.append((real.random, k, getattr(real.random, k)))
            setattr(real.random, k, f)


@harness('S01', cases=[dict(M=k, N=N) for k in SYS for N in (1, 2)], thorough=[dict(M='row', N=3), dict(M='col', N=3)],
         bounds='listed interval matrices 1x2 and 2x1, every right-hand side, maximum and argument of Tol, condition numbers; 1 or 2 (3) samples with every outcome',
         stubs=['Tol.maximize, numpy.linalg.cond: arbitrary answers', 'numpy.random: every outcome'])
def ive_value(E, M, N):
    D = SYS[M]
    n, m = len(D), len(D[0])
    AI = E.ip.asinterval([[C(E)(float(a), float(b)) for a, b in r] for r in D])
    b = [proper(E, 'b%d' % i, lo=-10, hi=10) for i in range(n)]
    bI = E.ip.asinterval(b)
    mags = [E.max(E.abs(E.ex(v.a)), E.abs(E.ex(v.b))) for v in b]
    E.assume(E.Or(*[g >= Fraction(1, 10) for g in mags]))
    x = [E.real('x%d' % j, lo=-10, hi=10) for j in range(m)]
    top = E.real('top', lo=-10, hi=10)
    seen, conds, args = [], [], []
    coins(E)

    def cond(A, *a, **k):
        seen.append([[E.ex(A[i, j]) for j in range(m)] for i in range(n)])
        conds.append(E.real('cond%d' % len(conds), lo=1, hi=1000))
        return conds[-1]
    E.linalg('cond', cond, replay=True)

    def maximize(A, b, *a, **k):
        args.append((A, b))
        return E.arr(x), top, 5, 6, 1
    E.patch('Tol', types.SimpleNamespace(maximize=maximize))
    ok, r = E.call(lambda: E.ip.ive(AI, bI, N=N))
    E.reach()
    E.check('system handed on', len(args) == 1 and E.And(*[same(E, args[0][1][i], b[i]) for i in range(n)],
                                                         *[E.ex(args[0][0][i, j].a) == D[i][j][0] for i in range(n) for j in range(m)]))
    E.check('samples', len(seen) == N)
    import math
    if not E.symbolic:
        E.check('finite', math.isfinite(float(r)))
    elif isinstance(r, float) and not math.isfinite(r) or not conds:
        E.fail('finite')
        return
    for S in seen:
        for i in range(n):
            for j in range(m):
                E.check('corners', E.Or(*[S[i][j] == v for v in D[i][j]]))
    for i in range(n):
        E.check('right-hand side unchanged', same(E, bI[i], b[i]))
        for j in range(m):
            E.check('matrix unchanged', E.And(E.ex(AI[i, j].a) == D[i][j][0], E.ex(AI[i, j].b) == D[i][j][1]))
    r, t, c = E.ex(r), E.ex(top), E.min(*[E.ex(v) for v in conds])
    s = q = E.ex(0)
    for v in x:
        s = s + E.ex(v) * E.ex(v)
    for g in mags:
        q = q + g * g
    E.check('sign', E.And(E.Implies(t >= 0, r >= 0), E.Implies(t <= 0, r <= 0)) if E.symbolic else float(r) * float(t) >= 0)
    u, v = r * r * q, m * t * t * c * c * s
    if E.symbolic:      # the square root of the number of unknowns is a double
        eps = Fraction(1, 10 ** 12)
        E.check('value', E.And(u <= v * (1 + eps), u >= v * (1 - eps)))
    else:
        E.check('value', abs(float(u) - float(v)) <= 1e-9 * max(abs(float(v)), 1e-12))
