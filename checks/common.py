"""Shared building blocks of the harnesses."""
from fractions import Fraction


def C(E):
    """class of proper (classical) intervals"""
    return type(E.ip.Interval(1.0, 2.0))


def K(E):
    """class of Kaucher intervals"""
    return type(E.ip.Interval(2.0, 1.0, sortQ=False))


def cls(E, k):
    return {'C': C, 'K': K}[k](E)


def proper(E, name, k='C', kind='float', lo=None, hi=None):
    a = E.real(name + '_lo', kind, lo, hi)
    b = E.real(name + '_hi', kind, lo, hi)
    E.assume(a <= b)
    return cls(E, k)(a, b)


def improper(E, name, kind='float', strict=False, lo=None, hi=None):
    a = E.real(name + '_lo', kind, lo, hi)
    b = E.real(name + '_hi', kind, lo, hi)
    E.assume(b < a if strict else b <= a)
    return K(E)(a, b)


def anyK(E, name, kind='float', lo=None, hi=None):
    """Kaucher-class interval, proper or improper"""
    return K(E)(E.real(name + '_lo', kind, lo, hi), E.real(name + '_hi', kind, lo, hi))


def member(E, name, x):
    return E.exact(name, x.a, x.b)


def same(E, x, y):
    """same endpoints"""
    return E.And(E.ex(x.a) == E.ex(y.a), E.ex(x.b) == E.ex(y.b))


def eqiv(E, label, x, a, b):
    E.check(label + ':inf', E.eq(x.a, a))
    E.check(label + ':sup', E.eq(x.b, b))


def contains(E, label, x, t):
    """the exact real t lies in interval x"""
    E.check(label + ':inf', E.le(x.a, t))
    E.check(label + ':sup', E.le(t, x.b))


def subset(E, label, x, y):
    E.check(label + ':inf', E.le(y.a, x.a))
    E.check(label + ':sup', E.le(x.b, y.b))


OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}


def quot(E, name, x, y):
    """exact x / y for y != 0 as a value q with q*y == x"""
    return E.ex(x) / E.ex(y)


# ---- Kaucher arithmetic by its minimax definition (oracle written independently of the code under test)
def kmul(E, u, v):
    """exact endpoints of the Kaucher product of (u1,u2) and (v1,v2)"""
    u1, u2, v1, v2 = [E.ex(t) for t in (*u, *v)]

    def inner(x, big):     # over y in pro(v): max_y x*y / min_y x*y
        return E.max(x * v1, x * v2) if big else E.min(x * v1, x * v2)
    up, vp = u1 <= u2, v1 <= v2
    zero_in_u = E.Or(E.And(u1 <= 0, u2 >= 0), E.And(u2 <= 0, u1 >= 0))
    # v proper: inner join gives [min, max]; v improper: inner meet gives [max, min]
    lo = {}
    for x, n in ((u1, 1), (u2, 2)):
        lo[n] = (E.If(vp, inner(x, False), inner(x, True)), E.If(vp, inner(x, True), inner(x, False)))
    z = E.ex(0)
    inf_p = E.min(lo[1][0], lo[2][0])
    inf_i = E.max(lo[1][0], lo[2][0])
    sup_p = E.max(lo[1][1], lo[2][1])
    sup_i = E.min(lo[1][1], lo[2][1])
    inf = E.If(up, E.If(zero_in_u, E.min(inf_p, z), inf_p), E.If(zero_in_u, E.max(inf_i, z), inf_i))
    sup = E.If(up, E.If(zero_in_u, E.max(sup_p, z), sup_p), E.If(zero_in_u, E.min(sup_i, z), sup_i))
    return inf, sup
