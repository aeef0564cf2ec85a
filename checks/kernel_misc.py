"""Predicates, characteristics, construction, interval arrays, utilities: C08 C09 C10 C13 C14 T01"""
import copy
import itertools
import math
from fractions import Fraction

from sx.registry import harness
from checks.common import *
from checks.kernel_arith import operand, kexact, intb

REL = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
       '==': lambda x, y: x == y, '!=': lambda x, y: x != y, 'in': lambda x, y: x in y}
KINDS = ('C', 'K', 'float', 'int', 'np')


def truth(E, v):
    """a truth value returned by the code (numpy or plain)"""
    return bool(v)


def mk(E, n, k):
    return operand(E, n, k) if k in 'CK' else E.real(n, k)


def pair(E, x):
    return (E.ex(x.a), E.ex(x.b)) if hasattr(x, 'a') else (E.ex(x), E.ex(x))


def relation(E, r, x, y):
    (a, b), (c, d) = pair(E, x), pair(E, y)
    return {'<': lambda: E.And(a < c, b < d), '<=': lambda: E.And(a <= c, b <= d), '>': lambda: E.And(a > c, b > d),
            '>=': lambda: E.And(a >= c, b >= d), '==': lambda: E.And(a == c, b == d),
            '!=': lambda: E.Or(a != c, b != d), 'in': lambda: E.And(c <= a, b <= d)}[r]()


def arr2(E, n, k='C'):
    A = E.ip.zeros(2)
    A[0], A[1] = operand(E, n + '0', k), operand(E, n + '1', k)
    return A


# ------------------------------------------------------------------------------------------- C08
@harness('C08', mode='R', bounds='one pair of operands of every kind',
         cases=[{'r': r, 'kx': x, 'ky': y} for r in REL for x in KINDS for y in KINDS
                if (y in 'CK' if r == 'in' else x in 'CK' or y in 'CK') and not (x == 'np' and r != 'in')])
def predicate(E, r, kx, ky):
    X, Y = mk(E, 'X', kx), mk(E, 'Y', ky)
    ok, v = E.call(lambda: REL[r](X, Y))
    E.check('predicate', E.Iff(truth(E, v), relation(E, r, X, Y)))


@harness('C08', mode='R', bounds='operands that are neither numbers nor intervals', cases=[{'r': r, 'k': k} for r in REL for k in 'CK'])
def unsupported_operand(E, r, k):
    X = operand(E, 'X', k)
    for bad in ('1', None, (1, 2)):
        ok, v = E.call(lambda: (bad in X) if r == 'in' else REL[r](X, bad), TypeError)
        E.check('raises', not ok)


@harness('C08', mode='R', bounds='interval arrays of length 2 against arrays, intervals and numbers',
         cases=[{'r': r, 'form': f} for r in ('<', '<=', '>', '>=', '==', '!=') for f in ('AB', 'AI', 'An', 'And')])
def array_predicate(E, r, form):
    A = arr2(E, 'A')
    B = {'AB': lambda: arr2(E, 'B'), 'AI': lambda: operand(E, 'B', 'C'), 'An': lambda: E.real('B'),
         'And': lambda: E.arr([E.real('B0'), E.real('B1')])}[form]()
    ok, v = E.call(lambda: REL[r](A, B))
    for i in range(2):
        y = B[i] if form in ('AB', 'And') else B
        E.check('elementwise', E.Iff(truth(E, v[i]), relation(E, r, A[i], y)))


@harness('C08', mode='R', bounds='interval arrays of shape (2,) and (1,2)', cases=[{'k': k} for k in ('float', 'C')])
def array_membership(E, k):
    """an element belongs to an interval array when some entry contains it"""
    A = arr2(E, 'A')
    x = mk(E, 'x', k)
    want = E.Or(relation(E, 'in', x, A[0]), relation(E, 'in', x, A[1]))
    ok, v = E.call(lambda: x in A)
    E.check('any', E.Iff(truth(E, v), want))
    B = A.reshape((1, 2))
    ok, v = E.call(lambda: x in B)
    E.check('any-2d', E.Iff(truth(E, v), want))


@harness('C08', mode='R', bounds='single intervals and interval arrays of length 2',
         cases=[{'f': f, 'arr': a, 'k': k} for f in ('subset', 'superset', 'proper_subset', 'proper_superset', 'contain')
                for a in (False, True) for k in 'CK'] + [{'f': 'supercontain', 'arr': False, 'k': 'C'}])
def inclusion(E, f, arr, k):
    X, Y = (arr2(E, 'X', k), arr2(E, 'Y', k)) if arr else (operand(E, 'X', k), operand(E, 'Y', k))
    ok, v = E.call(lambda: getattr(E.ip, f)(X, Y))

    def one(x, y):
        (a, b), (c, d) = pair(E, x), pair(E, y)
        return {'subset': lambda: E.And(a >= c, b <= d), 'superset': lambda: E.And(c >= a, d <= b),
                'proper_subset': lambda: E.And(a > c, b < d), 'proper_superset': lambda: E.And(c > a, d < b),
                'contain': lambda: E.And(a >= c, b <= d), 'supercontain': lambda: E.And(c >= a, d <= b)}[f]()
    if not arr:
        E.check('inclusion', E.Iff(truth(E, v), one(X, Y)))
    elif f == 'contain':
        for i in range(2):
            E.check('elementwise', E.Iff(truth(E, v[i]), one(X[i], Y[i])))
    else:
        E.check('inclusion', E.Iff(truth(E, v), E.And(one(X[0], Y[0]), one(X[1], Y[1]))))


# ------------------------------------------------------------------------------------------- C09
def chars(E, x):
    a, b = pair(E, x)
    A, B = E.abs(a), E.abs(b)
    zero = E.And(a <= 0, b >= 0)
    return {'a': a, 'b': b, 'inf': a, 'sup': b, 'wid': b - a, 'rad': (b - a) / 2, 'mid': (a + b) / 2, 'mag': E.max(A, B),
            'mig': E.If(zero, 0, E.min(A, B))}


CH = ('a', 'b', 'inf', 'sup', 'wid', 'rad', 'mid', 'mag', 'mig')


@harness('C09', mode='R', bounds='one interval, exact arithmetic', cases=[{'k': k, 'kind': d} for k in 'CK' for d in ('float', 'int')])
def characteristics(E, k, kind):
    X = operand(E, 'X', k, kind) if k == 'C' else anyK(E, 'X', kind)
    c = chars(E, X)
    for n in CH:
        if n == 'mig' and k == 'K':
            continue
        ok, v = E.call(lambda: getattr(X, n))
        E.check(n, E.eq(v, c[n]))
    for n in ('wid', 'rad', 'mid', 'inf', 'sup', 'mag'):
        ok, v = E.call(lambda: getattr(E.ip, n)(X))
        E.check('ip.' + n, E.eq(v, c[n]))
    ok, Y = E.call(lambda: X.copy())
    eqiv(E, 'copy', Y, c['a'], c['b'])
    E.check('copy-type', type(Y) is type(X))


@harness('C09', mode='R', bounds='one proper interval, exact arithmetic', cases=[{'k': k} for k in 'CK'])
def proper_characteristics(E, k):
    X = proper(E, 'X', k)
    c = chars(E, X)
    ok, v = E.call(lambda: X.mig)
    E.check('mig', E.eq(v, c['mig']))
    ok, A = E.call(lambda: abs(X))
    eqiv(E, 'abs', A, c['mig'], c['mag'])


@harness('C09', mode='R', bounds='one interval other than [0, 0], exact arithmetic', cases=[{'k': k} for k in 'CK'])
def ratschek(E, k):
    """khi is the ratio of the endpoint of smaller modulus to the one of greater modulus"""
    X = operand(E, 'X', k)
    a, b = pair(E, X)
    E.assume(E.Or(a != 0, b != 0))
    for f in (lambda: X.khi, lambda: E.ip.khi(X)):
        ok, v = E.call(f)
        v = E.ex(v)
        E.check('khi', E.If(E.abs(a) <= E.abs(b), v * b - a, v * a - b).__eq__(0) if E.symbolic else
                E.eq(v * (b if abs(a) <= abs(b) else a), a if abs(a) <= abs(b) else b))
        E.check('range', E.And(E.le(v, 1).cond(), E.le(-1, v).cond()) if E.symbolic else -1 <= v <= 1)


@harness('C09', mode='R', bounds='arrays of shapes (2,) and (1,2), lists and numbers, exact arithmetic', cases=[{'k': 'C'}, {'k': 'K'}])
def array_characteristics(E, k):
    A = arr2(E, 'A', k)
    B = A.reshape((1, 2))
    for n in CH:
        if n == 'mig' and k == 'K':
            continue
        ok, v = E.call(lambda: getattr(A, n))
        ok, w = E.call(lambda: getattr(B, n))
        E.check('shape', tuple(E.np.shape(v)) == (2,) and tuple(E.np.shape(w)) == (1, 2))
        for i in range(2):
            c = chars(E, A[i])[n]
            E.check(n, E.eq(v[i], c))
            E.check(n + '-2d', E.eq(w[0, i], c))
    y, z = E.real('y'), E.real('z')
    for n in ('wid', 'rad', 'mid', 'inf', 'sup', 'mag'):
        ok, v = E.call(lambda: getattr(E.ip, n)(A))
        for i in range(2):
            E.check('ip.' + n, E.eq(v[i], chars(E, A[i])[n]))
        want = {'wid': 0, 'rad': 0, 'mag': E.abs(y)}.get(n, y)
        if n != 'wid':
            ok, v = E.call(lambda: getattr(E.ip, n)(y))
            E.check('ip.%s-number' % n, E.eq(v, want))
            ok, v = E.call(lambda: getattr(E.ip, n)(E.arr([y, z])))
            E.check('ip.%s-ndarray' % n, E.eq(v[0], want))
    ok, N = E.call(lambda: E.ip.isnan(A))
    E.check('isnan', not truth(E, N[0]) and not truth(E, N[1]))


@harness('C09', mode='R', bounds='array of two intervals, one with integer and one with real endpoints, in both orders',
         cases=[{'order': o} for o in (0, 1)])
def mixed_kinds(E, order):
    A = E.ip.zeros(2)
    A[order], A[1 - order] = proper(E, 'I', 'C', 'int'), proper(E, 'X', 'C')
    for n in CH:
        ok, v = E.call(lambda: getattr(A, n))
        for i in range(2):
            E.check(n, E.eq(v[i], chars(E, A[i])[n]))
    for n in ('wid', 'rad', 'mid', 'inf', 'sup', 'mag'):
        ok, v = E.call(lambda: getattr(E.ip, n)(A))
        for i in range(2):
            E.check('ip.' + n, E.eq(v[i], chars(E, A[i])[n]))


@harness('C09', mode='R', bounds='arrays of length 2: dual, pro, opp, inv, -x, |x| elementwise', cases=[{'k': 'C'}, {'k': 'K'}])
def array_algebra(E, k):
    A = arr2(E, 'A', k)
    fs = {'dual': lambda x: x.dual, 'pro': lambda x: x.pro, 'opp': lambda x: x.opp, 'neg': lambda x: -x}
    if k == 'C':
        fs['abs'] = abs
    for n, f in fs.items():
        ok, v = E.call(lambda: f(A))
        for i in range(2):
            w = f(A[i])
            eqiv(E, n, v[i], w.a, w.b)
    for i in range(2):
        E.assume(E.Or(E.And(A[i].a > 0, A[i].b > 0), E.And(A[i].a < 0, A[i].b < 0)))
    ok, v = E.call(lambda: A.inv)
    for i in range(2):
        w = A[i].inv
        eqiv(E, 'inv', v[i], w.a, w.b)


# ------------------------------------------------------------------------------------------- C10
@harness('C10', mode='R', bounds='one interval built from two numbers in every accepted spelling',
         cases=[{'form': f, 'kind': d, 'sortQ': s} for f in ('two', 'list', 'tuple', 'ndarray', 'SingleInterval')
                for d in ('float', 'int', 'np') for s in (True, False)])
def from_ends(E, form, kind, sortQ):
    x, y = E.real('x', kind), E.real('y', kind)
    I = E.ip.Interval
    f = {'two': lambda **k: I(x, y, **k), 'list': lambda **k: I([x, y], **k), 'tuple': lambda **k: I((x, y), **k),
         'ndarray': lambda **k: I(E.arr([x, y]), **k), 'SingleInterval': lambda **k: E.ip.SingleInterval(x, y, **k)}[form]
    ok, R = E.call((lambda: f()) if sortQ else (lambda: f(sortQ=False)))
    a, b = E.ex(x), E.ex(y)
    if sortQ:
        eqiv(E, 'sorted', R, E.min(a, b), E.max(a, b))
        E.check('type', isinstance(R, C(E)))
    else:
        eqiv(E, 'kept', R, a, b)
        E.check('type', isinstance(R, C(E)) if bool(a <= b) else isinstance(R, K(E)))
    E.check('endpoint-type', isinstance(R.a, int) == isinstance(R.b, int) if not E.symbolic else True)


@harness('C10', mode='R', bounds='midpoint-radius construction, scalar, pair and arrays',
         cases=[{'form': f, 'sortQ': s} for f in ('two', 'list', 'arrays', 'nested') for s in (True, False)])
def mid_rad(E, form, sortQ):
    m, r = E.real('m'), E.real('r')
    m2, r2 = E.real('m2'), E.real('r2')
    I = E.ip.Interval
    f = {'two': lambda: I(m, r, midRadQ=True, sortQ=sortQ), 'list': lambda: I([m, r], midRadQ=True, sortQ=sortQ),
         'arrays': lambda: I([m, m2], [r, r2], midRadQ=True, sortQ=sortQ),
         'nested': lambda: I([[m, r], [m2, r2]], midRadQ=True, sortQ=sortQ)}[form]
    ok, R = E.call(f, AssertionError)
    neg = E.Or(r < 0, r2 < 0) if form in ('arrays', 'nested') else r < 0
    E.check('negative-radius', E.Iff(not ok, neg))
    if not ok:
        return
    for x, mm, rr in ((R, m, r),) if form in ('two', 'list') else ((R[0], m, r), (R[1], m2, r2)):
        eqiv(E, 'mid-rad', x, E.ex(mm) - rr, E.ex(mm) + rr)


@harness('C10', mode='R', bounds='arrays of two intervals in every accepted spelling',
         cases=[{'form': f, 'sortQ': s} for f in ('two-lists', 'two-arrays', 'nested', 'nested-array', 'nested-2d', 'two-2d', 'one-row')
                for s in (True, False)])
def from_arrays(E, form, sortQ):
    x = [E.real('x%d' % i) for i in range(2)]
    y = [E.real('y%d' % i) for i in range(2)]
    I = E.ip.Interval
    f = {'two-lists': lambda **k: I(x, y, **k), 'two-arrays': lambda **k: I(E.arr(x), E.arr(y), **k),
         'nested': lambda **k: I([[x[0], y[0]], [x[1], y[1]]], **k),
         'nested-array': lambda **k: I(E.arr([[x[0], y[0]], [x[1], y[1]]]), **k),
         'nested-2d': lambda **k: I([[[x[0], y[0]], [x[1], y[1]]]], **k),
         'two-2d': lambda **k: I([[x[0]], [x[1]]], [[y[0]], [y[1]]], **k),
         'one-row': lambda **k: I([[x[0], y[0]]], **k)}[form]
    ok, R = E.call((lambda: f()) if sortQ else (lambda: f(sortQ=False)))
    shape = {'nested-2d': (1, 2), 'two-2d': (2, 1), 'one-row': (1,)}.get(form, (2,))
    E.check('shape', tuple(R.shape) == shape and R.ndim == len(shape) and len(R) == shape[0])
    for i in range(1 if form == 'one-row' else 2):
        idx = {'nested-2d': (0, i), 'two-2d': (i, 0)}.get(form, i)
        a, b = E.ex(x[i]), E.ex(y[i])
        if sortQ:
            eqiv(E, 'sorted', R[idx], E.min(a, b), E.max(a, b))
        else:
            eqiv(E, 'kept', R[idx], a, b)


@harness('C10', mode='R', bounds='numbers, intervals, arrays and lists of them', cases=[{}])
def conversions(E):
    X, A = operand(E, 'X', 'C'), arr2(E, 'A')
    M = operand(E, 'M', 'K')
    I, asi = E.ip.Interval, E.ip.asinterval
    for V in (X, A, M):
        E.check('kept', asi(V) is V and I(V) is V)
    for d in ('float', 'int', 'np'):
        y = E.real('y' + d, d)
        for f in (asi, I):
            ok, R = E.call(lambda: f(y))
            eqiv(E, 'point', R, y, y)
    y, z = E.real('y'), E.real('z')
    for src in ([y, z], (y, z), E.arr([y, z])):
        ok, R = E.call(lambda: asi(src))
        E.check('shape', tuple(R.shape) == (2,))
        eqiv(E, 'points0', R[0], y, y)
        eqiv(E, 'points1', R[1], z, z)
    ok, R = E.call(lambda: asi([X, y]))
    eqiv(E, 'mixed0', R[0], X.a, X.b)
    eqiv(E, 'mixed1', R[1], y, y)
    ok, R = E.call(lambda: asi([[X, y], [z, M]]))
    E.check('shape2', tuple(R.shape) == (2, 2))
    eqiv(E, 'mixed00', R[0, 0], X.a, X.b)
    eqiv(E, 'mixed11', R[1, 1], M.a, M.b)
    for bad in ('abc', object()):
        ok, R = E.call(lambda: asi(bad), AssertionError, TypeError)
        E.check('rejects', not ok)
    ok, R = E.call(lambda: I(1, 2, 3), AssertionError)
    E.check('too-many', not ok)
    ok, R = E.call(lambda: E.ip.SingleInterval('1', 2), AssertionError)
    E.check('not-a-number', not ok)


@harness('C10', mode='R', bounds='point arrays, constant arrays, identity arrays', cases=[{}])
def special_arrays(E):
    for shape in (2, (2,), (2, 3)):
        Z = E.ip.zeros(shape)
        sh = (shape,) if isinstance(shape, int) else shape
        E.check('zeros-shape', tuple(Z.shape) == sh)
        for i in itertools.product(*map(range, sh)):
            eqiv(E, 'zeros', Z[i], 0, 0)
    a, b = E.real('a'), E.real('b')
    for shape in (2, (2, 2)):
        F = E.ip.full(shape, a, b)
        sh = (shape,) if isinstance(shape, int) else shape
        E.check('full-shape', tuple(F.shape) == sh)
        for i in itertools.product(*map(range, sh)):
            eqiv(E, 'full', F[i], a, b)
    for N, M, k in ((3, None, 0), (2, 3, 0), (3, 2, 0), (3, None, 1), (3, None, -1), (2, 4, 2)):
        J = E.ip.eye(N) if (M, k) == (None, 0) else E.ip.eye(N, M) if k == 0 else E.ip.eye(N, k=k) if M is None else E.ip.eye(N, M, k)
        E.check('eye-shape', tuple(J.shape) == (N, M or N))
        for i in range(N):
            for j in range(M or N):
                v = 1 if j - i == k else 0
                eqiv(E, 'eye', J[i, j], v, v)


# ------------------------------------------------------------------------------------------- C13
def arr22(E, n, k='C'):
    A = E.ip.zeros((2, 2))
    for i in range(2):
        for j in range(2):
            A[i, j] = operand(E, '%s%d%d' % (n, i, j), k)
    return A


def nonzero(E, x):
    E.assume(E.Or(E.And(x.a > 0, x.b > 0), E.And(x.a < 0, x.b < 0)) if hasattr(x, 'a') else E.Or(x > 0, x < 0))


def refs(E, A):
    sh = A.shape
    return {i: (A.data[i].a, A.data[i].b) for i in itertools.product(*map(range, sh))}


def unchanged(E, label, A, r):
    E.check(label + '-shape', set(r) == set(itertools.product(*map(range, A.shape))))
    for i, (a, b) in r.items():
        eqiv(E, label, A.data[i], a, b)


FORMS = ('A,A', 'A,I', 'I,A', 'A,n', 'n,A', 'A,np', 'np,A', 'A,nd', 'nd,A', 'A,row', 'A,list')


@harness('C13', mode='R', bounds='arrays of shape (2,) or (2,2), exact arithmetic, operands proper or Kaucher',
         cases=[{'op': o, 'form': f, 'k': k} for o in '+-*/' for f in FORMS for k in ('C', 'K') if not (o in '*/' and k == 'K' and f not in ('A,A', 'A,n'))],
         timeout=30000)
def operators(E, op, form, k):
    """operators on interval arrays act on the elements, with broadcasting, and leave the operands alone"""
    l, r = form.split(',')

    def build(w, n):
        if w == 'A':
            return arr2(E, n, k) if form != 'A,row' else E.ip.asinterval([[operand(E, n + '0', k)], [operand(E, n + '1', k)]])
        if w == 'I':
            return operand(E, n, k)
        if w in ('n', 'np'):
            return E.real(n, 'float' if w == 'n' else 'np')
        if w == 'row':
            return arr2(E, n, k)
        v = [E.real(n + '0'), E.real(n + '1')]
        return v if w == 'list' else E.arr(v)
    L, R = build(l, 'L'), build(r, 'R')

    def elem(V, w, i, j):
        if w in ('I', 'n', 'np'):
            return V
        if form == 'A,row':
            return V[i, 0] if w == 'A' else V[j]
        return V[i]
    out = [(i, j) for i in range(2) for j in (range(2) if form == 'A,row' else [0])]
    if op == '/':
        for i, j in out:
            nonzero(E, elem(R, r, i, j))
    keep = [(V, refs(E, V)) for V, w in ((L, l), (R, r)) if w in ('A', 'row')]
    ok, V = E.call(lambda: OPS[op](L, R))
    E.check('shape', tuple(V.shape) == ((2, 2) if form == 'A,row' else (2,)))
    for i, j in out:
        S = OPS[op](elem(L, l, i, j), elem(R, r, i, j))
        T = V[i, j] if form == 'A,row' else V[i]
        eqiv(E, 'element', T, S.a, S.b)
    for V, rf in keep:
        unchanged(E, 'operand', V, rf)


@harness('C13', mode='R', bounds='arrays of length 2, exponents 0..3', cases=[{'n': n} for n in (0, 1, 2, 3)])
def powers(E, n):
    A = arr2(E, 'A')
    rf = refs(E, A)
    ok, V = E.call(lambda: A ** n)
    for i in range(2):
        S = A[i] ** n
        eqiv(E, 'element', V[i], S.a, S.b)
    unchanged(E, 'operand', A, rf)


@harness('C13', mode='R', bounds='in-place operators on arrays of length 2', cases=[{'op': o, 'w': w} for o in '+-*/' for w in ('A', 'I', 'n')])
def inplace(E, op, w):
    A = arr2(E, 'A')
    B = A.copy()
    V = {'A': lambda: arr2(E, 'B'), 'I': lambda: operand(E, 'B', 'C'), 'n': lambda: E.real('B')}[w]()
    el = (lambda i: V[i]) if w == 'A' else (lambda i: V)
    if op == '/':
        for i in range(2):
            nonzero(E, el(i))

    def run():
        nonlocal A
        if op == '+':
            A += V
        elif op == '-':
            A -= V
        elif op == '*':
            A *= V
        else:
            A /= V
    ok, _ = E.call(run)
    for i in range(2):
        S = OPS[op](B[i], el(i))
        eqiv(E, 'element', A[i], S.a, S.b)
    E.check('shape', tuple(A.shape) == (2,))


@harness('C13', mode='R', bounds='2x2 matrix with vectors and matrices, interval and real, exact arithmetic', timeout=30000,
         cases=[{'form': f} for f in ('M@v', 'M@M', 'M@nd', 'nd@M', 'M@ndM', 'ndM@M', 'v@v', 'v@M', 'nd@v', 'list@M', 'M@list')])
def matmul(E, form):
    """the product of matrices is made of sums of element products"""
    l, r = form.split('@')

    def build(w, n):
        return {'M': lambda: arr22(E, n), 'v': lambda: arr2(E, n), 'nd': lambda: E.arr([E.real(n + '0'), E.real(n + '1')]),
                'list': lambda: [E.real(n + '0'), E.real(n + '1')],
                'ndM': lambda: E.arr([[E.real('%s%d%d' % (n, i, j)) for j in range(2)] for i in range(2)])}[w]()
    L, R = build(l, 'L'), build(r, 'R')
    ok, V = E.call(lambda: L @ R)
    rows = 2 if l in ('M', 'ndM') else 1
    cols = 2 if r in ('M', 'ndM') else 1

    def le(i, k):
        return L[i, k] if l in ('M', 'ndM') else L[k]

    def re(k, j):
        return R[k, j] if r in ('M', 'ndM') else R[k]
    for i in range(rows):
        for j in range(cols):
            s = le(i, 0) * re(0, j) + le(i, 1) * re(1, j)
            T = V[i, j] if rows == 2 and cols == 2 else (V[i] if rows == 2 else V[j] if cols == 2 else V)
            eqiv(E, 'element', T, s.a, s.b)
    sh = ((2,) if rows == 2 else ()) + ((2,) if cols == 2 else ())
    E.check('shape', tuple(getattr(V, 'shape', ())) == sh)


@harness('C13', mode='R', bounds='arrays of shape (3,), (2,2) and (2,3)', cases=[{}])
def indexing(E):
    iv = [operand(E, 'X%d' % i, 'C') for i in range(6)]
    v = E.ip.asinterval(iv[:3])
    for i in range(3):
        eqiv(E, 'get', v[i], iv[i].a, iv[i].b)
        eqiv(E, 'get-negative', v[i - 3], iv[i].a, iv[i].b)
    E.check('len', len(v) == 3 and tuple(v.shape) == (3,) and v.ndim == 1)
    for i, x in enumerate(v):
        eqiv(E, 'iter', x, iv[i].a, iv[i].b)
    ok, rv = E.call(lambda: list(reversed(v)))
    for i, x in enumerate(rv):
        eqiv(E, 'reversed', x, iv[2 - i].a, iv[2 - i].b)
    s = v[1:]
    E.check('slice-shape', tuple(s.shape) == (2,))
    for i in range(2):
        eqiv(E, 'slice', s[i], iv[i + 1].a, iv[i + 1].b)
    f = v[[2, 0]]
    eqiv(E, 'fancy0', f[0], iv[2].a, iv[2].b)
    eqiv(E, 'fancy1', f[1], iv[0].a, iv[0].b)
    b = v[E.np.array([True, False, True])]
    eqiv(E, 'mask', b[1], iv[2].a, iv[2].b)
    M = E.ip.asinterval([[iv[0], iv[1], iv[2]], [iv[3], iv[4], iv[5]]])
    for i in range(2):
        for j in range(3):
            x = iv[3 * i + j]
            eqiv(E, 'get2', M[i, j], x.a, x.b)
            eqiv(E, 'get-row', M[i][j], x.a, x.b)
            eqiv(E, 'get-col', M[:, j][i], x.a, x.b)
            eqiv(E, 'T', M.T[j, i], x.a, x.b)
            eqiv(E, 'reshape', M.reshape((3, 2))[(3 * i + j) // 2, (3 * i + j) % 2], x.a, x.b)
    E.check('T-shape', tuple(M.T.shape) == (3, 2))
    for i, row in enumerate(M):
        for j in range(3):
            eqiv(E, 'iter2', row[j], iv[3 * i + j].a, iv[3 * i + j].b)


@harness('C13', mode='R', bounds='assignment to elements, slices and rows; arrays of length 3 and shape (2,2)',
         cases=[{'w': w} for w in ('I', 'K', 'n', 'int', 'arr', 'list', 'nd')])
def assignment(E, w):
    iv = [operand(E, 'X%d' % i, 'C') for i in range(4)]
    v = E.ip.asinterval(iv[:3])
    M = E.ip.asinterval([[iv[0], iv[1]], [iv[2], iv[3]]])
    B = E.ip.asinterval([operand(E, 'B0', 'C'), operand(E, 'B1', 'C')])
    n0, n1 = E.real('n0'), E.real('n1')
    val = {'I': lambda: operand(E, 'B', 'C'), 'K': lambda: operand(E, 'B', 'K'), 'n': lambda: E.real('B'),
           'int': lambda: E.real('B', 'int'), 'arr': lambda: B, 'list': lambda: [n0, n1], 'nd': lambda: E.arr([n0, n1])}[w]()
    scal = w in ('I', 'K', 'n', 'int')

    def el(i):
        x = val if scal else val[i]
        return (x.a, x.b) if hasattr(x, 'a') else (x, x)
    c = v.copy()
    d = copy.deepcopy(v)

    def put(X, key):
        X[key] = val
    if scal:
        E.call(lambda: put(v, 1))
        eqiv(E, 'set', v[1], *el(0))
        eqiv(E, 'others', v[0], iv[0].a, iv[0].b)
        eqiv(E, 'others', v[2], iv[2].a, iv[2].b)
        E.call(lambda: put(M, (0, 1)))
        eqiv(E, 'set2', M[0, 1], *el(0))
        eqiv(E, 'others2', M[1, 0], iv[2].a, iv[2].b)
    else:
        E.call(lambda: put(v, slice(1, 3)))
        for i in range(2):
            eqiv(E, 'set', v[i + 1], *el(i))
        eqiv(E, 'others', v[0], iv[0].a, iv[0].b)
    E.call(lambda: put(M, 1))
    for j in range(2):
        eqiv(E, 'set-row', M[1, j], *el(j))
    eqiv(E, 'others3', M[0, 0], iv[0].a, iv[0].b)
    for cc in (c, d):
        for i in range(3):
            eqiv(E, 'copy-independent', cc[i], iv[i].a, iv[i].b)


@harness('C13', mode='R', bounds='deletion of an entry, a row and a column', cases=[{}])
def deletion(E):
    iv = [operand(E, 'X%d' % i, 'C') for i in range(4)]
    for k in (0, 1, 2, -1):
        v = E.ip.asinterval(iv[:3])
        old = v.copy()

        def dele():
            del v[k]
        E.call(dele)
        rest = [x for i, x in enumerate(iv[:3]) if i != k % 3]
        E.check('shape', tuple(v.shape) == (2,) and len(v) == 2)
        for i in range(2):
            eqiv(E, 'deleted', v[i], rest[i].a, rest[i].b)
        E.check('copy-kept', tuple(old.shape) == (3,))
    for axis in (0, 1):
        for k in (0, 1):
            M = E.ip.asinterval([[iv[0], iv[1]], [iv[2], iv[3]]])

            def dele():
                if axis == 0:
                    del M[k]
                else:
                    del M[:, k]
            E.call(dele)
            E.check('shape2', tuple(M.shape) == ((1, 2) if axis == 0 else (2, 1)))
            for i in range(2):
                x = iv[2 * (1 - k) + i] if axis == 0 else iv[2 * i + 1 - k]
                T = M[0, i] if axis == 0 else M[i, 0]
                eqiv(E, 'deleted2', T, x.a, x.b)
            x = E.real('p')
            hit = E.Or(*[relation(E, 'in', x, M.data[i]) for i in itertools.product(*map(range, M.shape))])
            E.check('in-after', E.Iff(truth(E, x in M), hit))


# ------------------------------------------------------------------------------------------- C14
@harness('C14', mode='R', bounds='two proper intervals, arrays of length 2 and numbers, exact arithmetic',
         cases=[{'form': f} for f in ('II', 'AA', 'AI', 'IA', 'nI', 'In')])
def intersection(E, form):
    """common points and nothing else; NaN when disjoint (intervals closer than 1e-15 count as touching)"""
    def build(w, n):
        return {'I': lambda: operand(E, n, 'C'), 'A': lambda: arr2(E, n), 'n': lambda: E.real(n)}[w]()
    X, Y = build(form[0], 'X'), build(form[1], 'Y')
    ok, R = E.call(lambda: E.ip.intersection(X, Y))
    n = 2 if 'A' in form else 1
    for i in range(n):
        x = X[i] if form[0] == 'A' else X
        y = Y[i] if form[1] == 'A' else Y
        r = R[i] if n == 2 else R
        (a, b), (c, d) = pair(E, x), pair(E, y)
        lo, hi = E.max(a, c), E.min(b, d)
        nan = isinstance(r.a, float) and math.isnan(r.a)
        if nan:
            E.check('empty', E.lt(hi, lo))
            E.check('empty-both', isinstance(r.b, float) and math.isnan(r.b))
        elif bool(lo <= hi):
            eqiv(E, 'common', r, lo, hi)
        else:
            E.check('nearly-touching', E.le(lo - hi, Fraction(1, 10 ** 14)))
    for V, w in ((X, form[0]), (Y, form[1])):
        pass


@harness('C14', mode='R', bounds='one fixed gap of a few units in the last place, arbitrary outer ends', cases=[{'v': v} for v in (0.5, 3.0, 1e3, 1e10)])
def intersection_gap(E, v):
    """intervals further apart than 1e-15 have no common point, whatever their magnitude"""
    w = v
    while w - v <= 2e-15:
        w = math.nextafter(w, math.inf)
    l, u = E.real('l', lo=-1e12, hi=0.25), E.real('u', lo=2e10, hi=1e12)
    for X, Y in ((E.ip.Interval(l, v), E.ip.Interval(w, u)), (E.ip.Interval(w, u), E.ip.Interval(l, v)), (E.ip.Interval(-v, -l), E.ip.Interval(-u, -w)), (E.ip.Interval(l, v), w)):
        ok, R = E.call(lambda: E.ip.intersection(X, Y))
        R = R[0] if not hasattr(R, 'a') or E.np.ndim(R.a) else R
        E.check('empty', isinstance(R.a, float) and math.isnan(R.a) and isinstance(R.b, float) and math.isnan(R.b))


@harness('C14', mode='R', bounds='intervals and arrays of length 2, order infinity, 1 and 2', timeout=30000,
         cases=[{'form': f, 'order': o} for f in ('I', 'A') for o in ('inf', 1, 2)])
def distance(E, form, order):
    mkv = (lambda n: operand(E, n, 'K')) if form == 'I' else (lambda n: arr2(E, n, 'K'))
    X, Y = mkv('X'), mkv('Y')
    o = float('inf') if order == 'inf' else order
    ok, d = E.call(lambda: E.ip.dist(X, Y, order=o))
    ok, e = E.call(lambda: E.ip.dist(Y, X, order=o))
    el = [(X, Y)] if form == 'I' else [(X[i], Y[i]) for i in range(2)]
    ch = [E.max(E.abs(E.ex(x.a) - E.ex(y.a)), E.abs(E.ex(x.b) - E.ex(y.b))) for x, y in el]
    d, e = E.ex(d), E.ex(e)
    if order == 'inf':
        E.check('value', E.eq(d, E.max(*ch)))
    elif order == 1:
        E.check('value', E.eq(d, sum(ch[1:], ch[0])))
    else:
        E.check('value', E.eq(d * d, sum([c * c for c in ch[1:]], ch[0] * ch[0])))
        E.check('nonnegative', E.le(0, d))
    E.check('symmetric', E.eq(d, e))
    if order == 'inf':
        ok, d0 = E.call(lambda: E.ip.dist(X, Y))
        E.check('default', E.eq(d0, d))


@harness('C14', mode='R', bounds='2x2 and 2x3 interval matrices, exact arithmetic', cases=[{}])
def comparison_matrix(E):
    A = arr22(E, 'A')
    ok, M = E.call(lambda: E.ip.compmat(A))
    E.check('shape', tuple(E.np.shape(M)) == (2, 2))
    for i in range(2):
        for j in range(2):
            c = chars(E, A[i, j])
            E.check('element', E.eq(M[i][j], c['mig'] if i == j else -c['mag']))


@harness('C14', mode='R', bounds='2x3 matrices, vectors of length 2, diagonals -1..2', cases=[{'k': k} for k in (-1, 0, 1, 2)])
def diagonal(E, k):
    iv = [operand(E, 'X%d' % i, 'C') for i in range(6)]
    M = E.ip.asinterval([[iv[0], iv[1], iv[2]], [iv[3], iv[4], iv[5]]])
    ok, D = E.call(lambda: E.ip.diag(M, k) if k else E.ip.diag(M))
    want = [(i, i + k) for i in range(2) if 0 <= i + k < 3]
    E.check('shape', tuple(D.shape) == (len(want),))
    for n, (i, j) in enumerate(want):
        x = iv[3 * i + j]
        eqiv(E, 'extracted', D[n], x.a, x.b)
    v = E.ip.asinterval(iv[:2])
    ok, B = E.call(lambda: E.ip.diag(v, k) if k else E.ip.diag(v))
    m = 2 + abs(k)
    E.check('shape2', tuple(B.shape) == (m, m))
    n = 0
    for i in range(m):
        for j in range(m):
            if j - i == k:
                eqiv(E, 'built', B[i, j], iv[n].a, iv[n].b)
                n += 1
            else:
                eqiv(E, 'zero', B[i, j], 0, 0)


@harness('C14', mode='R', bounds='vector of length 2 and matrix of shape (1,2) or (2,1)', cases=[{'sh': s} for s in (1, 2, 3)])
def vertices(E, sh):
    """the vertices are all 2^n choices of endpoints, each once"""
    iv = [operand(E, 'X0', 'C'), operand(E, 'X1', 'C')]
    A = E.ip.asinterval({1: iv, 2: [iv], 3: [[iv[0]], [iv[1]]]}[sh])
    ok, V = E.call(lambda: A.vertex)
    E.check('shape', tuple(E.np.shape(V)) == (4,) + tuple(A.shape))
    rows = []
    for r in range(4):
        v = V[r]
        rows.append((v[0], v[1]) if sh == 1 else (v[0][0], v[0][1]) if sh == 2 else (v[0][0], v[1][0]))
    for x in ((iv[0].a), (iv[0].b)):
        for y in ((iv[1].a), (iv[1].b)):
            E.check('present', E.Or(*[E.And(E.eq(p, x).cond(), E.eq(q, y).cond()) if E.symbolic else p == x and q == y for p, q in rows]))
    # with distinct endpoints, four distinct rows
    E.assume(E.And(iv[0].a < iv[0].b, iv[1].a < iv[1].b))
    for i in range(4):
        for j in range(i):
            E.check('distinct', E.Not(E.And(E.ex(rows[i][0]) == E.ex(rows[j][0]), E.ex(rows[i][1]) == E.ex(rows[j][1]))))


# ------------------------------------------------------------------------------------------- T01
@harness('T01', mode='R', bounds='orders 1 to 5, every parameter value', cases=[{'n': n, 'd': d} for n in (1, 2, 3, 4, 5) for d in (False, True)])
def neumaier_system(E, n, d):
    th = E.real('theta')
    lo, hi = E.real('lo'), E.real('hi')
    E.assume(lo <= hi)
    ok, r = E.call(lambda: E.ip.Neumaier_system(n, th) if d else E.ip.Neumaier_system(n, th, lo, hi))
    A, b = r
    E.check('shape', tuple(A.shape) == (n, n) and tuple(b.shape) == (n,))
    for i in range(n):
        eqiv(E, 'rhs', b[i], *((-1, 1) if d else (lo, hi)))
        for j in range(n):
            eqiv(E, 'matrix', A[i, j], *((th, th) if i == j else (0, 2)))


@harness('T01', mode='R', bounds='orders 1 to 5, every parameter value', cases=[{'n': n, 'd': d} for n in (1, 2, 3, 4, 5) for d in (0, 1, 2)])
def shary_system(E, n, d):
    N, al, be = E.real('N'), E.real('alpha'), E.real('beta')
    if d == 0:
        E.assume(N >= n - 1)
    if d == 2:
        # parameters outside the documented range are rejected
        E.assume(E.Or(al < 0, be < al, be > 1, N < n - 1))
        ok, r = E.call(lambda: E.ip.Shary_system(n, N, al, be), AssertionError, Exception)
        E.check('rejected', not ok)
        return
    if d == 1:
        ok, r = E.call(lambda: E.ip.Shary_system(n))
        offl, offh, N = 0.23 - 1, 1 - 0.35, n
    else:
        E.assume(E.And(0 < al, al <= be, be <= 1))
        ok, r = E.call(lambda: E.ip.Shary_system(n, N, al, be))
        offl, offh = E.ex(al) - 1, 1 - E.ex(be)
    A, b = r
    E.check('shape', tuple(A.shape) == (n, n) and tuple(b.shape) == (n,))
    for i in range(n):
        eqiv(E, 'rhs', b[i], 1 - n, n - 1)
        for j in range(n):
            if i == j:
                eqiv(E, 'diagonal', A[i, j], n - 1, N)
            else:
                eqiv(E, 'matrix', A[i, j], offl, offh)


@harness('T01', mode='R', bounds='orders 1 to 5, every parameter value', cases=[{'n': n} for n in (1, 2, 3, 4, 5)])
def toft_system(E, n):
    r, R = E.real('r'), E.real('R')
    bad = E.Or(r < 0, R < 0)
    ok, t = E.call(lambda: E.ip.Toft_system(n, r, R), AssertionError)
    E.check('rejected', E.Iff(not ok, bad))
    if not ok:
        return
    A, b = t
    E.check('shape', tuple(A.shape) == (n, n) and tuple(b.shape) == (n,))
    for i in range(n):
        eqiv(E, 'rhs', b[i], 1 - E.ex(R), 1 + E.ex(R))
        for j in range(n):
            if j == n - 1 or i == n - 1:
                k = i if j == n - 1 else j
                eqiv(E, 'border', A[i, j], k + 1 - E.ex(r), k + 1 + E.ex(r))
            elif i == j:
                eqiv(E, 'diagonal', A[i, j], 1 - E.ex(r), 1 + E.ex(r))
            else:
                eqiv(E, 'matrix', A[i, j], 0, 0)
