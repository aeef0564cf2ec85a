"""Scalar interval arithmetic: C01 C02 C03 C04 C05 C06 C11 C12"""
from sx.registry import harness
from checks.common import *

FLOATB = 'all finite float endpoints without overflow (arbitrary reals as a superset); integers up to 2^26'


def intb(kind):
    return (-2 ** 26, 2 ** 26) if kind == 'int' else ()


# ------------------------------------------------------------------------------------------- C01
@harness('C01', mode='F', opts={'relerr': False}, bounds='proper intervals, one operation; ' + FLOATB,
         cases=[{'op': o, 'kx': kx, 'ky': ky} for o in '+-*/' for kx in 'CK' for ky in 'CK'])
def enclosure(E, op, kx, ky):
    """x in X, y in Y  =>  x op y in X op Y, in directed-rounded floating point"""
    X, Y = proper(E, 'X', kx), proper(E, 'Y', ky)
    x, y = member(E, 'x', X), member(E, 'y', Y)
    ok, R = E.call(lambda: OPS[op](X, Y), *((ValueError,) if op == '/' else ()))
    if not ok:
        E.stop()
    if op == '/':
        E.assume(E.Or(y > 0, y < 0))
    contains(E, 'enclosure', R, OPS[op](x, y))


@harness('C01', mode='F', opts={'relerr': False}, bounds='interval and number in either order; ' + FLOATB,
         cases=[{'op': o, 'kx': kx, 'kind': k, 'left': l} for o in '+-*/' for kx in 'CK'
                for k in ('float', 'int', 'np') for l in (False, True)])
def enclosure_number(E, op, kx, kind, left):
    """the same with one operand a plain number"""
    X = proper(E, 'X', kx)
    y = E.real('y', kind, *intb(kind))
    x = member(E, 'x', X)
    ok, R = E.call(lambda: OPS[op](y, X) if left else OPS[op](X, y), *((ValueError, ZeroDivisionError) if op == '/' else ()))
    if not ok:
        E.stop()
    if op == '/':
        E.assume(E.Or(x > 0, x < 0) if left else E.Or(y > 0, y < 0))
    t = OPS[op](E.ex(y), x) if left else OPS[op](x, E.ex(y))
    contains(E, 'enclosure', R, t)


@harness('C01', mode='F', opts={'relerr': False}, bounds='integer endpoints up to 2^26',
         cases=[{'op': o, 'ki': ki} for o in '+-*/' for ki in ('int', 'float')])
def enclosure_int(E, op, ki):
    X, Y = proper(E, 'X', 'C', 'int', *intb('int')), proper(E, 'Y', 'C', ki, *intb(ki))
    x, y = member(E, 'x', X), member(E, 'y', Y)
    ok, R = E.call(lambda: OPS[op](X, Y), *((ValueError,) if op == '/' else ()))
    if not ok:
        E.stop()
    if op == '/':
        E.assume(E.Or(y > 0, y < 0))
    contains(E, 'enclosure', R, OPS[op](x, y))


@harness('C01', mode='F', opts={'relerr': False, 'int53': False}, bounds='integer endpoints of any size, + - *',
         cases=[{'op': o} for o in '+*'])
def enclosure_big_int(E, op):
    X, Y = proper(E, 'X', 'C', 'int'), proper(E, 'Y', 'C', 'int')
    x, y = member(E, 'x', X), member(E, 'y', Y)
    R = OPS[op](X, Y)
    contains(E, 'enclosure', R, OPS[op](x, y))


@harness('C01', mode='R', bounds='exact arithmetic, one operation',
         cases=[{'op': o, 'kx': kx, 'ky': ky} for o in '+-*/' for kx in 'CK' for ky in 'CK'])
def tight(E, op, kx, ky):
    """without rounding both endpoints of the result are attained by endpoints of the operands"""
    X, Y = proper(E, 'X', kx), proper(E, 'Y', ky)
    ok, R = E.call(lambda: OPS[op](X, Y), *((ValueError,) if op == '/' else ()))
    if not ok:
        E.stop()
    if op == '/':
        E.assume(E.Or(Y.a > 0, Y.b < 0))
    vs = [OPS[op](E.ex(s), E.ex(t)) for s in (X.a, X.b) for t in (Y.a, Y.b)]
    E.check('attained:inf', E.eq(R.a, E.min(*vs)))
    E.check('attained:sup', E.eq(R.b, E.max(*vs)))
    E.check('proper', E.le(R.a, R.b))


# ------------------------------------------------------------------------------------------- C02
def kexact(E, op, u, v):
    u, v = [E.ex(t) for t in u], [E.ex(t) for t in v]
    if op == '+':
        return u[0] + v[0], u[1] + v[1]
    if op == '-':
        return u[0] - v[1], u[1] - v[0]
    if op == '*':
        return kmul(E, u, v)
    one = E.ex(1)
    return kmul(E, u, (one / v[1], one / v[0]))


KPAIRS = [('C', 'K'), ('K', 'C'), ('K', 'K')]


def operand(E, name, k, kind='float'):
    return proper(E, name, 'C', kind, *intb(kind)) if k == 'C' else anyK(E, name, kind, *intb(kind))


@harness('C02', mode='R', bounds='any combination of proper and improper operands, exact arithmetic',
         cases=[{'op': o, 'kx': a, 'ky': b, 'kind': k} for o in '+-*/' for a, b in KPAIRS for k in ('float',)] +
               [{'op': o, 'kx': 'K', 'ky': 'K', 'kind': 'int'} for o in '+-*/'])
def definition(E, op, kx, ky, kind):
    X, Y = operand(E, 'X', kx, kind), operand(E, 'Y', ky, kind)
    if op == '/':
        E.assume(E.Or(E.And(Y.a > 0, Y.b > 0), E.And(Y.a < 0, Y.b < 0)))
    ok, R = E.call(lambda: OPS[op](X, Y))
    inf, sup = kexact(E, op, (X.a, X.b), (Y.a, Y.b))
    E.check('definition:inf', E.eq(R.a, inf))
    E.check('definition:sup', E.eq(R.b, sup))


@harness('C02', mode='R', bounds='Kaucher interval and number in either order, exact arithmetic',
         cases=[{'op': o, 'kind': k, 'left': l} for o in '+-*/' for k in ('float', 'int', 'np') for l in (False, True)])
def definition_number(E, op, kind, left):
    X = anyK(E, 'X')
    y = E.real('y', kind)
    u, v = ((y, y), (X.a, X.b)) if left else ((X.a, X.b), (y, y))
    if op == '/':
        E.assume(E.Or(E.And(v[0] > 0, v[1] > 0), E.And(v[0] < 0, v[1] < 0)))
    ok, R = E.call(lambda: OPS[op](y, X) if left else OPS[op](X, y))
    inf, sup = kexact(E, op, u, v)
    E.check('definition:inf', E.eq(R.a, inf))
    E.check('definition:sup', E.eq(R.b, sup))


@harness('C02', mode='F', opts={'relerr': False}, bounds='any combination of proper and improper operands; ' + FLOATB,
         cases=[{'op': o, 'kx': a, 'ky': b} for o in '+-*/' for a, b in KPAIRS], timeout=60000)
def outward(E, op, kx, ky):
    """the computed result contains (in Kaucher's inclusion order) the exact one"""
    X, Y = operand(E, 'X', kx), operand(E, 'Y', ky)
    if op == '/':
        E.assume(E.Or(E.And(Y.a > 0, Y.b > 0), E.And(Y.a < 0, Y.b < 0)))
    ok, R = E.call(lambda: OPS[op](X, Y))
    inf, sup = kexact(E, op, (X.a, X.b), (Y.a, Y.b))
    E.check('outward:inf', E.le(R.a, inf))
    E.check('outward:sup', E.le(sup, R.b))


# ------------------------------------------------------------------------------------------- C03
@harness('C03', mode='R', bounds='one interval, exact arithmetic', cases=[{'k': 'C'}, {'k': 'K'}])
def algebra(E, k):
    X = operand(E, 'X', k)
    a, b = E.ex(X.a), E.ex(X.b)
    eqiv(E, 'neg', -X, -b, -a)
    eqiv(E, 'dual', X.dual, b, a)
    eqiv(E, 'dual-dual', X.dual.dual, a, b)
    eqiv(E, 'opp', X.opp, -a, -b)
    eqiv(E, 'pro', X.pro, E.min(a, b), E.max(a, b))
    eqiv(E, 'x+opp', X + X.opp, 0, 0)
    eqiv(E, 'x-dual', X - X.dual, 0, 0)
    E.check('type-dual', isinstance(X.dual, C(E)) if bool(b <= a) else isinstance(X.dual, K(E)))
    E.check('type-opp', isinstance(X.opp, C(E)) if bool(b <= a) else isinstance(X.opp, K(E)))
    E.check('type-pro', isinstance(X.pro, C(E)))
    eqiv(E, 'operand-kept', X, a, b)


@harness('C03', mode='R', bounds='interval whose projection does not contain zero, exact arithmetic',
         cases=[{'k': 'C'}, {'k': 'K'}])
def inverse(E, k):
    X = operand(E, 'X', k)
    E.assume(E.Or(E.And(X.a > 0, X.b > 0), E.And(X.a < 0, X.b < 0)))
    one = E.ex(1)
    V = X.inv
    E.check('inv:inf', E.eq(E.ex(V.a) * E.ex(X.a), one))
    E.check('inv:sup', E.eq(E.ex(V.b) * E.ex(X.b), one))
    E.check('type-inv', isinstance(V, C(E)) if bool(X.b <= X.a) else isinstance(V, K(E)))
    P = X * V
    eqiv(E, 'x*inv', P, 1, 1)


@harness('C03', mode='F', opts={'relerr': False}, bounds='x + opp x and x * inv x with rounding; ' + FLOATB,
         cases=[{'k': 'C'}, {'k': 'K'}])
def inverse_rounded(E, k):
    """the algebraic opposite and inverse recombine to something containing 0 and 1"""
    X = operand(E, 'X', k)
    contains(E, 'x+opp', X + X.opp, 0)
    E.assume(E.Or(E.And(X.a > 0, X.b > 0), E.And(X.a < 0, X.b < 0)))
    V = X.inv
    one = E.ex(1)
    E.check('inv-outward:inf', E.le(V.a, one / E.ex(X.a)))
    E.check('inv-outward:sup', E.le(one / E.ex(X.b), V.b))
    contains(E, 'x*inv', X * V, 1)


# ------------------------------------------------------------------------------------------- C04
@harness('C04', mode='R', bounds='one operation, one operand enlarged, exact arithmetic',
         cases=[{'op': o, 'kx': a, 'ky': b} for o in '+-*/' for a, b in [('C', 'C')] + KPAIRS], timeout=40000)
def monotone(E, op, kx, ky):
    """X in X', Y in Y'  =>  X op Y in X' op Y' (inclusion in Kaucher's sense: inf down, sup up)"""
    X, Y = operand(E, 'X', kx), operand(E, 'Y', ky)
    X2, Y2 = operand(E, 'P', kx), operand(E, 'Q', ky)
    # one operand at a time (inclusion is transitive); which one is symbolic
    if E.boolean('first'):
        E.assume(E.And(X2.a <= X.a, X.b <= X2.b))
        Y2 = Y
    else:
        E.assume(E.And(Y2.a <= Y.a, Y.b <= Y2.b))
        X2 = X
    if op == '/':
        for V in (Y, Y2):
            E.assume(E.Or(E.And(V.a > 0, V.b > 0), E.And(V.a < 0, V.b < 0)))
    ok, R = E.call(lambda: OPS[op](X, Y))
    ok, R2 = E.call(lambda: OPS[op](X2, Y2))
    subset(E, 'monotone', R, R2)


# ------------------------------------------------------------------------------------------- C05
@harness('C05', mode='R', bounds='every divisor whose projection contains zero, every dividend kind',
         cases=[{'kx': x, 'ky': y} for x in ('C', 'K', 'float', 'int', 'np') for y in ('C', 'K')] +
               [{'kx': x, 'ky': y} for x in ('C', 'K') for y in ('float', 'int', 'np')])
def zero_division(E, kx, ky):
    """dividing by an interval that meets zero always raises and never returns a value"""
    def mk(n, k):
        return operand(E, n, k) if k in 'CK' else E.real(n, k)
    X, Y = mk('X', kx), mk('Y', ky)
    if ky in 'CK':
        E.assume(E.Or(E.And(Y.a <= 0, 0 <= Y.b), E.And(Y.b <= 0, 0 <= Y.a)))
    else:
        E.assume(Y == 0)
    ok, R = E.call(lambda: X / Y, *((ValueError,) if ky in 'CK' else (ValueError, ZeroDivisionError)))
    E.check('raises', not ok)


@harness('C05', mode='R', bounds='every divisor whose projection does not contain zero', cases=[
    {'kx': x, 'ky': y} for x in ('C', 'K', 'float') for y in ('C', 'K')])
def nonzero_division(E, kx, ky):
    def mk(n, k):
        return operand(E, n, k) if k in 'CK' else E.real(n, k)
    X, Y = mk('X', kx), mk('Y', ky)
    E.assume(E.Or(E.And(Y.a > 0, Y.b > 0), E.And(Y.a < 0, Y.b < 0)))
    ok, R = E.call(lambda: X / Y)
    E.check('returns', isinstance(R, (C(E), K(E))))


@harness('C05', mode='R', bounds='arrays of length 2, one element of the divisor meets zero',
         cases=[{'form': f} for f in ('iarr/iarr', 'iarr/I', 'nd/I', 'num/iarr', 'I/iarr', 'np/iarr', 'nd/iarr')])
def zero_division_array(E, form):
    X = E.ip.Interval([E.real('x0'), 1.0], [E.real('x1'), 2.0])
    z = proper(E, 'Z')
    E.assume(E.And(z.a <= 0, 0 <= z.b))
    Z = E.ip.Interval([1.0, 2.0], [2.0, 3.0])
    pos = 1 if E.boolean('pos') else 0
    Z[pos] = z
    num = E.real('n')
    f = {'iarr/iarr': lambda: X / Z, 'iarr/I': lambda: X / z, 'nd/I': lambda: E.arr([num, 1.0]) / z,
         'num/iarr': lambda: num / Z, 'I/iarr': lambda: X[0] / Z, 'np/iarr': lambda: E.real('m', 'np') / Z,
         'nd/iarr': lambda: E.arr([num, 1.0]) / Z}[form]
    ok, R = E.call(f, ValueError)
    E.check('raises', not ok)


# ------------------------------------------------------------------------------------------- C06
def prange(E, a, b, n):
    a, b = E.ex(a), E.ex(b)
    pa, pb = a ** n, b ** n
    if n % 2:
        return pa, pb
    zero = E.And(a <= 0, b >= 0)
    return E.If(zero, 0, E.min(pa, pb)), E.max(pa, pb)


NS = (1, 2, 3, 4)


@harness('C06', mode='F', opts={'relerr': False}, bounds='exponents 1..4 (thorough to 6), proper intervals; libm pow within one ulp',
         cases=[{'n': n, 'k': k, 'kind': d} for n in NS for k in 'CK' for d in ('float', 'int')],
         thorough=[{'n': n, 'k': k, 'kind': 'float'} for n in (5, 6) for k in 'CK'], timeout=60000)
def power_enclosure(E, n, k, kind):
    X = proper(E, 'X', k, kind, *((-2 ** 12, 2 ** 12) if kind == 'int' else ()))
    x = member(E, 'x', X)
    ok, R = E.call(lambda: X ** n)
    contains(E, 'enclosure', R, x ** n)


@harness('C06', mode='R', bounds='exponents 0..4, proper intervals, exact arithmetic',
         cases=[{'n': n, 'k': k} for n in NS for k in 'CK'], timeout=40000)
def power_tight(E, n, k):
    X = proper(E, 'X', k)
    ok, R = E.call(lambda: X ** n)
    inf, sup = prange(E, X.a, X.b, n)
    eqiv(E, 'range', R, inf, sup)


@harness('C06', mode='R', bounds='exponents 1..4, improper intervals, not negative for even exponents', cases=[{'n': n} for n in NS], timeout=40000)
def power_improper(E, n):
    """the power of an improper interval is the dual of the power of its projection (the repository's own tests pin
    a proper result for even powers of improper negative intervals: left out)"""
    X = improper(E, 'X')
    if n % 2 == 0:
        E.assume(X.a > 0)
    ok, R = E.call(lambda: X ** n)
    inf, sup = prange(E, X.b, X.a, n)
    eqiv(E, 'dual-range', R, sup, inf)


@harness('C06', mode='R', bounds='exponent 0', cases=[{'k': 'C'}, {'k': 'K'}])
def power_zero(E, k):
    X = proper(E, 'X', k)
    ok, R = E.call(lambda: X ** 0)
    eqiv(E, 'one', R, 1, 1)


# ------------------------------------------------------------------------------------------- C11
MODES = {'near': 0, 'down': 0x400, 'up': 0x800, 'zero': 0xc00}


@harness('C11', mode='F', opts={'relerr': False, 'libm': lambda c, n, x: __import__('checks.kernel_elem', fromlist=['x']).faithful(c, n, x)},
         bounds='every operation from each of the four rounding modes, operands of any sign (raising ones included)',
         cases=[{'what': w, 'k': k, 'mode': m} for w in ('add', 'sub', 'mul', 'div', 'rdiv', 'radd', 'rsub', 'rmul', 'inv', 'pow', 'ufdiv')
                for k in 'CK' for m in MODES] +
               [{'what': w, 'k': k, 'mode': m} for w in ('log', 'exp', 'sqrt') for k in 'C' for m in ('near', 'up')])
def rounding_restored(E, what, k, mode):
    """the rounding mode of the thread is the same before and after, whatever happens"""
    X, Y = operand(E, 'X', k), operand(E, 'Y', k)
    y = E.real('y')
    f = {'add': lambda: X + Y, 'sub': lambda: X - Y, 'mul': lambda: X * Y, 'div': lambda: X / Y, 'rdiv': lambda: y / X,
         'radd': lambda: y + X, 'rsub': lambda: y - X, 'rmul': lambda: y * X, 'inv': lambda: X.inv, 'pow': lambda: X ** 3,
         'ufdiv': lambda: E.np.true_divide(y, X), 'log': lambda: E.ip.log(X), 'exp': lambda: E.ip.exp(X),
         'sqrt': lambda: E.ip.sqrt(X)}[what]
    E.set_rounding(MODES[mode])
    ok, R = E.call(f, ValueError, ZeroDivisionError)
    after = E.get_rounding()
    E.set_rounding(0)
    E.check('restored', after == MODES[mode])


@harness('C11', mode='F', opts={'relerr': False}, bounds='enclosure holds when the caller runs in another rounding mode; ' + FLOATB,
         cases=[{'op': o, 'mode': m, 'k': k} for o in '+-*/' for m in ('down', 'up', 'zero') for k in ('C', 'K')])
def enclosure_any_mode(E, op, mode, k):
    X, Y = proper(E, 'X', k), proper(E, 'Y', k)
    x, y = member(E, 'x', X), member(E, 'y', Y)
    E.set_rounding(MODES[mode])
    ok, R = E.call(lambda: OPS[op](X, Y), *((ValueError,) if op == '/' else ()))
    E.set_rounding(0)
    if not ok:
        E.stop()
    if op == '/':
        E.assume(E.Or(y > 0, y < 0))
    contains(E, 'enclosure', R, OPS[op](x, y))


# ------------------------------------------------------------------------------------------- C12
@harness('C12', mode='R', bounds='a number as int, float, numpy float or point interval, either side, exact arithmetic',
         cases=[{'op': o, 'k': k, 'kind': d, 'left': l} for o in '+-*/' for k in 'CK' for d in ('float', 'int', 'np') for l in (0, 1)])
def scalar_representation(E, op, k, kind, left):
    """replacing a number by its point interval, or by another numeric type, changes nothing"""
    X = operand(E, 'X', k)
    y = E.real('y', kind)
    Y = E.ip.Interval(y, y)
    if op == '/':
        D = X if left else Y
        E.assume(E.Or(E.And(D.a > 0, D.b > 0), E.And(D.a < 0, D.b < 0)))
    ok, R = E.call(lambda: OPS[op](y, X) if left else OPS[op](X, y))
    ok, S = E.call(lambda: OPS[op](Y, X) if left else OPS[op](X, Y))
    E.check('is-interval', isinstance(R, (C(E), K(E))))
    eqiv(E, 'same', R, S.a, S.b)


UF = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'true_divide'}


@harness('C12', mode='R', bounds='numpy binary functions on intervals, scalars and length-2 arrays, exact arithmetic',
         cases=[{'op': o, 'form': f, 'k': k} for o in '+-*/' for k in 'CK' for f in ('I,n', 'n,I', 'I,J', 'A,n', 'n,A', 'A,B', 'A,nd', 'nd,A', 'A,I', 'I,nd', 'nd,I')])
def ufunc_operators(E, op, form, k):
    """np.add & co. agree elementwise with the operators on single intervals"""
    def nz(v):
        E.assume(E.Or(E.And(v.a > 0, v.b > 0), E.And(v.a < 0, v.b < 0)))

    def iv(n):
        v = operand(E, n, k)
        if op == '/':
            nz(v)
        return v

    def num(n):
        v = E.real(n)
        if op == '/':
            E.assume(E.Or(v > 0, v < 0))
        return v
    mk = {'I': lambda n: iv(n), 'J': lambda n: iv(n), 'n': lambda n: num(n), 'nd': lambda n: E.arr([num(n + '0'), num(n + '1')])}

    def arr(n):
        A = E.ip.zeros(2)
        A[0], A[1] = iv(n + '0'), iv(n + '1')
        return A
    mk['A'] = mk['B'] = arr
    fl, fr = form.split(',')
    L, R = mk[fl]('L'), mk[fr]('R')
    ok, V = E.call(lambda: getattr(E.np, UF[op])(L, R))
    ok, W = E.call(lambda: OPS[op](L, R))
    isarr = 'A' in (fl, fr) or 'B' in (fl, fr) or 'nd' in (fl, fr)
    if not isarr:
        eqiv(E, 'same', V, W.a, W.b)
        return
    E.check('shape', tuple(E.np.shape(V)) == (2,) and tuple(E.np.shape(W)) == (2,))
    for i in range(2):
        l = L[i] if fl in ('A', 'B', 'nd') else L
        r = R[i] if fr in ('A', 'B', 'nd') else R
        ok, S = E.call(lambda: OPS[op](l, r))
        for T in (V[i], W[i]):
            eqiv(E, 'elementwise', T, S.a, S.b)
