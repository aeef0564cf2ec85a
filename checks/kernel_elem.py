"""Elementary functions: C07

libm is modelled by an accuracy contract (an assumption of this verification, measured on the installed glibc):
  * exp, sin, cos and log err by at most 0.55 of the distance to the neighbouring double when the rounding mode is
    to-nearest and by at most 1.05 of it in any other mode;
  * log evaluated in a directed mode is on the right side of the exact value, except for |log x| < 0.065, where it
    may be on the wrong side by at most 0.05 of that distance (this is what the known finding C07.log_strict is about).
The exact functions are uninterpreted values restricted by true statements about them: monotonicity, range, signs,
position of the extrema of sin and cos."""
import math
from fractions import Fraction

from sx.registry import harness
from checks.common import *

PI_LO = Fraction('3.14159265358979323846264338327950288419716')
PI_HI = Fraction('3.14159265358979323846264338327950288419717')
EXPMAX = 709.782712893384


# ------------------------------------------------------------------------------------------- model of libm
def exactval(ctx, name, t):
    """the exact value of function `name` at the real term t"""
    from sx import core
    z3 = core.z3
    tab = ctx.libm_calls.setdefault(name, [])
    t = z3.simplify(t)
    for u, s in tab:
        if u.eq(t):
            return s
    s = ctx.fresh(name + 'X')
    if name == 'exp':
        ctx.add(s > 0)
        ctx.add(z3.Implies(t == 0, s == 1))
        ctx.add(z3.Implies(t > 0, s > 1 + t))
        ctx.add(z3.Implies(t < 0, s < 1))
        ctx.add(s >= 1 + t)
    elif name == 'log':
        ctx.add(z3.Implies(t == 1, s == 0))
        ctx.add(s <= t - 1)
        ctx.add(z3.Implies(t > 1, s > 0))
        ctx.add(z3.Implies(t < 1, s < 0))
    else:
        ctx.add(s >= -1)
        ctx.add(s <= 1)
        ctx.add(z3.Implies(t == 0, s == (0 if name == 'sin' else 1)))
    for u, v in tab:
        if name in ('exp', 'log'):
            ctx.add(z3.And(z3.Implies(u < t, v < s), z3.Implies(t < u, s < v), z3.Implies(t == u, s == v)))
            if name == 'exp':
                sm = z3.And(t < core.q(0.07), u < core.q(0.07))
                ctx.add(z3.Implies(z3.And(sm, u <= t), s - v <= core.q(1.1) * (t - u)))
                ctx.add(z3.Implies(z3.And(sm, t <= u), v - s <= core.q(1.1) * (u - t)))
        else:
            ctx.add(z3.Implies(t == u, s == v))
    tab.append((t, s))
    return s


def faithful(ctx, name, x):
    """the machine value libm returns"""
    from sx import core
    z3 = core.z3
    t = x.t
    if name == 'log' and ctx.branch(t <= 0):
        raise ValueError('math domain error')
    s = exactval(ctx, name, t)
    if name == 'exp' and ctx.branch(t > core.q(EXPMAX)):
        ctx.add(s >= core.q(Fraction(2) ** 1024 - Fraction(2) ** 970))
        raise OverflowError('math range error')
    key = (name, ctx.rm, t.get_id())
    if key in ctx.opcache:
        return core.SymReal(ctx.opcache[key][0])
    r = ctx.fresh(name)
    dn, up = ctx.neighbours(r)
    lo, hi = r - dn, up - r
    if ctx.rm == core.FE_NEAR:
        w = core.q(Fraction(55, 100))
        ctx.add(r - w * lo <= s)
        ctx.add(s <= r + w * hi)
    else:
        w = core.q(Fraction(105, 100))
        ctx.add(r - w * lo <= s)
        ctx.add(s <= r + w * hi)
        if name == 'log':
            e, z = core.q(Fraction(5, 100)), core.q(Fraction(65, 1000))
            small = z3.And(s < z, s > -z)
            if ctx.rm == core.FE_DOWN:
                ctx.add(z3.If(small, r - e * lo <= s, r <= s))
            elif ctx.rm == core.FE_UP:
                ctx.add(z3.If(small, s <= r + e * hi, s <= r))
    # no double lies strictly between 1 and its neighbours, nor between 0 and the smallest one
    for c in (1, -1):
        h, l = (Fraction(1, 2 ** 52), Fraction(1, 2 ** 53)) if c == 1 else (Fraction(1, 2 ** 53), Fraction(1, 2 ** 52))
        for v in (r, dn, up):
            ctx.add(z3.Or(v <= core.q(c - l), v == c, v >= core.q(c + h)))
    if name == 'log':
        ctx.add(z3.Implies(t == 1, r == 0))
        ctx.add(z3.Implies(t > 1, r >= 0))
        ctx.add(z3.Implies(t < 1, r <= 0))
    if name in ('sin', 'cos'):
        ctx.add(r <= 1)
        ctx.add(r >= -1)
    if name == 'exp':
        ctx.add(r >= 0)
        ctx.add(z3.Implies(t == 0, r == 1))
    ctx.opcache[key] = (r, t)
    return core.SymReal(r)


def libm(c, n, x):
    return faithful(c, n, x)


OPT = {'libm': libm, 'relerr': True, 'nbpairs': True}
STUBS = ['libm accuracy: exp, sin, cos, log within 0.55 ulp to nearest, 1.05 ulp in directed modes',
         'log in a directed mode is on the right side of the exact value unless |log x| < 0.065']


# ------------------------------------------------------------------------------------------- exact functions
def fn(E, name, v):
    """exact value of the function at a point (a rational within 1e-60 relative of it in a concrete run)"""
    if E.symbolic:
        from sx.env import Ex
        return Ex(E.z3, exactval(E.c, name, E.ex(v).t))
    from mpmath import mp, mpf
    v = E.ex(v)
    if isinstance(v, float):
        return v
    with mp.workprec(3000 if abs(v) > 1e15 else 400):
        r = getattr(mp, name)(mpf(v.numerator) / v.denominator)
        if not mp.isfinite(r):
            return float(r)
        man, ex = mp.frexp(r)
        return Fraction(int(mp.floor(man * mpf(2) ** 300))) * Fraction(2) ** (int(ex) - 300)


def gap(E, x, up):
    """distance from a machine number to its neighbour"""
    if E.symbolic:
        if not isinstance(x, E.core.SymReal):
            return E.ex(0) if not math.isfinite(x) else E.ex(abs(Fraction(math.nextafter(x, math.inf if up else -math.inf)) - Fraction(x)))
        from sx.env import Ex
        d, u = E.c.neighbours(x.t)
        return Ex(E.z3, u - x.t if up else x.t - d)
    x = float(x)
    if not math.isfinite(x):
        return Fraction(0)
    y = math.nextafter(x, math.inf if up else -math.inf)
    return abs(Fraction(y) - Fraction(x)) if math.isfinite(y) else Fraction(2) ** 970


def finite(x):
    return not (isinstance(x, float) and not math.isfinite(x))


def dom(E, k, name, lo=None, hi=None):
    X = proper(E, name, k, 'float', lo, hi) if k in 'CP' else improper(E, name, 'float', False, lo, hi)
    return X


def arg(E, k, lo=None, hi=None):
    if k == 'I':
        return improper(E, 'X', 'float', False, lo, hi)
    return proper(E, 'X', k, 'float', lo, hi)


def ends(X):
    """endpoints of the projection, lower first, and whether the interval is reversed"""
    return (X.b, X.a) if bool(X.b < X.a) else (X.a, X.b)


def bounds_check(E, R, inf, sup, label='enclosure', tol=None):
    """inf, sup: exact values that the left and right ends have to bound"""
    tl = E.ex(0) if tol is None else tol(R.a, True)
    tr = E.ex(0) if tol is None else tol(R.b, False)
    E.check(label + ':inf', E.le(R.a, inf) if not finite(R.a) else E.le(E.ex(R.a) - tl, inf))
    E.check(label + ':sup', E.le(sup, R.b) if not finite(R.b) else E.le(sup, E.ex(R.b) + tr))


def near(E, v, x):
    """machine number v is within a few units in the last place of exact x"""
    return E.le(E.abs(E.ex(v) - x), E.abs(x) * E.ex(Fraction(1, 2 ** 50)) + E.ex(Fraction(1, 2 ** 1070)))


@harness('C07', mode='F', opts=OPT, stubs=STUBS, bounds='exp over every interval, proper and improper, overflow included',
         cases=[{'k': k, 'via': v} for k in 'CKI' for v in ('ip', 'np')])
def exp_enclosure(E, k, via):
    X = arg(E, k, -740)
    f = E.ip.exp if via == 'ip' else E.np.exp
    ok, R = E.call(lambda: f(X))
    if k == 'I':
        inf, sup = fn(E, 'exp', X.a), fn(E, 'exp', X.b)
        bounds_check(E, R, inf, sup)
    else:
        x = member(E, 'x', X)
        v = fn(E, 'exp', x)
        inf, sup = fn(E, 'exp', X.a), fn(E, 'exp', X.b)
        bounds_check(E, R, v, v)
    E.assume(E.And(X.a <= 700, X.b <= 700))
    E.check('tight:inf', near(E, R.a, inf))
    E.check('tight:sup', near(E, R.b, sup))
    E.check('type', type(R) is type(X) or isinstance(R, (C(E), K(E))))


def logtol(E, s):
    def tol(r, up):
        z = E.ex(Fraction(65, 1000))
        return E.If(E.And(E.le(-z, s).cond() if E.symbolic else -z <= s, s < z), gap(E, r, not up) * E.ex(Fraction(5, 100)), 0)
    return tol


@harness('C07', mode='F', opts=OPT, stubs=STUBS, cases=[{'k': k, 'via': v} for k in 'CKI' for v in ('ip', 'np')],
         bounds='log over every interval meeting the domain; up to the known 0.05 ulp for |log x| < 0.065')
def log_enclosure(E, k, via):
    X = arg(E, k)
    lo, hi = ends(X)
    E.assume(hi > 0)
    f = E.ip.log if via == 'ip' else E.np.log
    ok, R = E.call(lambda: f(X))
    hiv = fn(E, 'log', hi)
    tol = lambda r, up: gap(E, r, not up) * E.ex(Fraction(5, 100))

    def small(v):
        return E.And(v < Fraction(65, 1000), v > -Fraction(65, 1000))
    low, up = (R.b, R.a) if k == 'I' else (R.a, R.b)
    if bool(lo <= 0):
        E.check('unbounded-below', not finite(low) and low < 0)
    else:
        lov = fn(E, 'log', lo)
        E.check('finite', finite(low))
        if k == 'I':
            E.check('enclosure:sup', E.le(lov - E.If(small(lov), gap(E, low, True) * Fraction(5, 100), 0), low))
        else:
            E.check('enclosure:inf', E.le(low, lov + E.If(small(lov), gap(E, low, False) * Fraction(5, 100), 0)))
            x = E.exact('x', lo, hi)
            v = fn(E, 'log', x)
            E.check('enclosure-member:inf', E.le(low, v + E.If(small(lov), gap(E, low, False) * Fraction(5, 100), 0)))
            E.check('enclosure-member:sup', E.le(v - E.If(small(hiv), gap(E, up, True) * Fraction(5, 100), 0), up))
        E.check('tight:inf', near(E, low, lov))
    E.check('finite', finite(up))
    if k == 'I':
        E.check('enclosure:inf', E.le(up, hiv + E.If(small(hiv), gap(E, up, False) * Fraction(5, 100), 0)))
    else:
        E.check('enclosure:sup', E.le(hiv - E.If(small(hiv), gap(E, up, True) * Fraction(5, 100), 0), up))
    E.check('tight:sup', near(E, up, hiv))


@harness('C07', mode='F', opts=OPT, stubs=STUBS, cases=[{'at': '0x1.e41d42feafe29p-1'}, {'at': '0x1.03817d4b8aa8bp+0'}],
         bounds='log over intervals with the given lower end, strictly')
def log_strict(E, at):
    X = proper(E, 'X', 'C', 'float', Fraction(9, 10), Fraction(11, 10))
    E.assume(X.a == float.fromhex(at))
    ok, R = E.call(lambda: E.ip.log(X))
    E.check('strict:inf', E.le(R.a, fn(E, 'log', X.a)))


@harness('C07', mode='F', opts=OPT, stubs=STUBS, cases=[{'f': f, 'k': k} for f in ('log', 'sqrt') for k in 'CK'],
         bounds='intervals entirely outside the domain')
def outside_domain(E, f, k):
    """nothing to enclose: no finite range may be invented and nothing is raised"""
    X = proper(E, 'X', k)
    E.assume(X.b < 0)
    ok, R = E.call(lambda: getattr(E.ip, f)(X))
    E.check('empty', (not finite(R.a)) and (not finite(R.b)))


@harness('C07', mode='F', opts=OPT, stubs=STUBS, cases=[{'k': k, 'via': v} for k in 'CKI' for v in ('ip', 'np')], timeout=30000,
         bounds='sqrt over every interval meeting the domain, endpoints between 1e-300 and 1e300 or not positive')
def sqrt_enclosure(E, k, via):
    X = arg(E, k, None, 10 ** 300)
    lo, hi = ends(X)
    E.assume(E.And(hi >= 1e-300, E.Or(lo <= 0, lo >= 1e-300)))
    f = E.ip.sqrt if via == 'ip' else E.np.sqrt
    ok, R = E.call(lambda: f(X))

    def root(v, name):
        """exact square root, tied to the exact logarithm and exponential"""
        if E.symbolic:
            r = E.exact(name)
            E.c.inputs.pop(name, None)
            l = fn(E, 'log', v)
            E.assume(E.And(r >= 0, r * r == E.ex(v)))
            E.assume(fn(E, 'exp', l / 2) == r)
            E.assume(E.And(l > -695, l < 695))
            return r
        from mpmath import mp, mpf
        with mp.workprec(400):
            q = E.ex(v)
            r = mp.sqrt(mpf(q.numerator) / q.denominator)
            man, ex = mp.frexp(r)
            return Fraction(int(mp.floor(man * mpf(2) ** 300))) * Fraction(2) ** (int(ex) - 300)
    hiv = root(hi, 'rhi')
    low, up = (R.b, R.a) if k == 'I' else (R.a, R.b)
    if bool(lo <= 0):
        if k == 'I':
            E.check('enclosure:sup', E.le(0, low))
        else:
            E.check('enclosure:inf', E.le(low, 0))
        E.check('tight:inf', E.And(E.le(low, Fraction(1, 2 ** 1070)).cond() if E.symbolic else low <= 1e-320, low >= -1e-320))
    else:
        lov = root(lo, 'rlo')
        E.check('enclosure:inf' if k != 'I' else 'enclosure:sup', E.le(low, lov) if k != 'I' else E.le(lov, low))
    E.check('enclosure:sup' if k != 'I' else 'enclosure:inf', E.le(hiv, up) if k != 'I' else E.le(up, hiv))


# ------------------------------------------------------------------------------------------- sin, cos
OFF = {('sin', True): Fraction(1, 2), ('sin', False): Fraction(-1, 2), ('cos', True): Fraction(0), ('cos', False): Fraction(1)}


def extremum(E, name, top, kk):
    """the position of the extremum with (integer) index kk"""
    z3, c, m = E.z3, E.c, E.core.q
    p = c.fresh('crit')
    c1 = (2 * kk + m(OFF[name, top])) * m((PI_LO + PI_HI) / 2)
    e = m(PI_HI - PI_LO) * (z3.If(kk >= 0, kk, -kk) * 2 + 2)
    c.add(p - c1 <= e)
    c.add(c1 - p <= e)
    return p


BIG = 2 ** 40


@harness('C07', mode='F', opts=dict(OPT, eta=0, floor_abs=True), stubs=STUBS, timeout=60000,
         cases=[{'f': f, 'k': k, 'side': s} for f in ('sin', 'cos') for k in 'CKI' for s in ('inf', 'sup')],
         bounds='sin and cos over every interval with |x| <= 2^40')
def trig_enclosure(E, f, k, side):
    X = arg(E, k, -BIG, BIG)
    lo, hi = ends(X)
    ok, R = E.call(lambda: getattr(E.ip, f)(X))
    a, b = fn(E, f, lo), fn(E, f, hi)
    top = side == 'sup'
    low, up = (R.b, R.a) if k == 'I' else (R.a, R.b)
    if k == 'I':
        # the exact range of the projection bounds the (reversed) result from outside
        if E.symbolic:
            z3 = E.z3
            M = E.c.fresh('ext')
            E.c.add(z3.And(M >= a.t, M >= b.t, M <= 1) if top else z3.And(M <= a.t, M <= b.t, M >= -1))
            E.c.add(z3.Or(M == a.t, M == b.t, M == (1 if top else -1)))
            for r, t, kind in E.c.floors():
                p = extremum(E, f, top, r)
                E.c.add(z3.Implies(z3.And(E.ex(lo).t <= p, p <= E.ex(hi).t), M == (1 if top else -1)))
            from sx.env import Ex
            M = Ex(z3, M)
        else:
            M = exact_range(E, f, lo, hi)[1 if top else 0]
        E.check('improper:' + side, E.le(up, M) if top else E.le(M, low))
        return
    x = E.exact('x', lo, hi)
    v = fn(E, f, x)
    if E.symbolic:
        # sin and cos exceed both end values inside the interval only if it contains an extremum (with index kk)
        z3 = E.z3
        kk = E.c.fresh('k')
        p = extremum(E, f, top, kk)
        inside = z3.And(E.ex(lo).t <= p, p <= E.ex(hi).t)
        m = E.max(a, b).t if top else E.min(a, b).t
        E.c.add(z3.Or(inside, v.t <= m if top else v.t >= m))
        for r, t, kind in E.c.floors():      # kk is an integer
            E.c.add(z3.Implies(kk <= t, kk <= r) if kind == 'floor' else z3.Implies(kk >= t, kk >= r))
    E.check('enclosure:' + side, E.le(v, up) if top else E.le(low, v))


def exact_range(E, f, lo, hi):
    from mpmath import mp, mpf
    a, b = fn(E, f, lo), fn(E, f, hi)
    with mp.workprec(400):
        pi = mp.pi
        off = {('sin', True): mpf(1) / 2, ('sin', False): -mpf(1) / 2, ('cos', True): mpf(0), ('cos', False): mpf(1)}
        l, h = (mpf(E.ex(v).numerator) / E.ex(v).denominator for v in (lo, hi))

        def has(top):
            o = off[f, top]
            return mp.ceil((l / pi - o) / 2) <= mp.floor((h / pi - o) / 2)
        return (Fraction(-1) if has(False) else min(a, b)), (Fraction(1) if has(True) else max(a, b))


@harness('C07', mode='F', opts=dict(OPT, eta=0), stubs=STUBS, timeout=60000,
         cases=[{'f': f, 'side': s} for f in ('sin', 'cos') for s in ('inf', 'sup')],
         bounds='sin and cos, no wider than the exact range plus 1e-12, |x| <= 1000')
def trig_tight(E, f, side):
    X = proper(E, 'X', 'C', 'float', -10, 10)
    ok, R = E.call(lambda: getattr(E.ip, f)(X))
    a, b = fn(E, f, X.a), fn(E, f, X.b)
    top = side == 'sup'
    e = Fraction(1, 10 ** 12)
    if not E.symbolic:
        r = exact_range(E, f, X.a, X.b)
        E.check('tight:' + side, E.le(R.b, r[1] + e) if top else E.le(r[0] - e, R.a))
        return
    z3, q = E.z3, E.core.q
    A, B = E.ex(X.a).t, E.ex(X.b).t
    off = {('sin', True): Fraction(1, 2), ('sin', False): Fraction(-1, 2), ('cos', True): Fraction(0),
           ('cos', False): Fraction(1)}[f, top]
    P = (PI_LO + PI_HI) / 2
    # neighbourhoods of the extrema next to both ends: 1 - |f| <= d^2/2 <= d/2000 for d <= 1/1000
    ins = []
    for T, v in ((A, a), (B, b)):
        # extrema adjacent to the end (one on each side)
        base = z3.ToReal(z3.ToInt((T / q(P) - q(off)) / 2))
        for sh in (0, 1):
            p = (2 * (base + sh) + q(off)) * q(P)
            d = z3.If(T >= p, T - p, p - T)
            small = d <= q(Fraction(1, 10 ** 7))
            E.c.add(z3.Implies(small, (1 - v.t if top else v.t + 1) <= q(Fraction(1, 10 ** 13))))
            ins.append(z3.And(A <= p, p <= B))
    inside = E.core.SymBool(z3.Or(*ins))
    best = E.If(inside, 1 if top else -1, E.max(a, b) if top else E.min(a, b))
    E.check('tight:' + side, E.le(R.b, best + e) if top else E.le(best - e, R.a))


# ------------------------------------------------------------------------------------------- shapes and sign
@harness('C07', mode='F', opts=OPT, stubs=STUBS, cases=[{'f': f, 'via': v} for f in ('exp', 'log', 'sqrt') for v in ('ip', 'np')] +
         [{'f': f, 'via': 'ip'} for f in ('sin', 'cos')], bounds='arrays of shape (2,) and (1,2), and plain numbers')
def elementwise(E, f, via):
    lo, hi = (1, 700) if f != 'exp' else (-700, 700)
    if f in ('sin', 'cos'):
        lo, hi = 0.1, 1.4
    Xs = [proper(E, n, 'C', 'float', lo, hi) for n in 'XY']
    g = getattr(E.ip if via == 'ip' else E.np, f)
    A = E.ip.Interval([Xs[0].a, Xs[1].a], [Xs[0].b, Xs[1].b])
    ok, R = E.call(lambda: g(A))
    E.check('shape', tuple(R.shape) == (2,))
    B = A.reshape((1, 2))
    ok, Q = E.call(lambda: g(B))
    E.check('shape2', tuple(Q.shape) == (1, 2))
    for i in range(2):
        ok, S = E.call(lambda: g(Xs[i]))
        eqiv(E, 'same', R[i], S.a, S.b)
        eqiv(E, 'same2', Q[0, i], S.a, S.b)
    y = E.real('y', 'float', lo, hi)
    ok, N = E.call(lambda: getattr(E.ip, f)(y))
    ok, M = E.call(lambda: getattr(E.ip, f)(E.ip.Interval(y, y)))
    eqiv(E, 'number', N, M.a, M.b)
    for i in range(2):
        eqiv(E, 'operand-kept', A[i], Xs[i].a, Xs[i].b)


@harness('C07', mode='R', bounds='sign over every proper interval, scalar and array', cases=[{'k': k} for k in 'CK'])
def sign(E, k):
    X = proper(E, 'X', k)
    ok, R = E.call(lambda: E.ip.sgn(X) if hasattr(E.ip, 'sgn') else E.ip.sign(X))
    sg = lambda v: E.If(E.ex(v) > 0, 1, E.If(E.ex(v) < 0, -1, 0))
    eqiv(E, 'sign', R, sg(X.a), sg(X.b))
    A = E.ip.zeros(2)
    A[1] = X
    ok, Q = E.call(lambda: E.ip.sign(A))
    eqiv(E, 'array0', Q[0], 0, 0)
    eqiv(E, 'array1', Q[1], sg(X.a), sg(X.b))
