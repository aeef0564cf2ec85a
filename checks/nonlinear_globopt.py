"""Global minimisation by bisection of boxes."""
from sx.registry import harness
from checks.common import C, proper, same


class Extension:
    """an interval extension of a function f: any interval for a box (the same one for the same box) that contains f(x) if x is in it"""
    def __init__(self, E, n, x, fx):
        self.E, self.n, self.x, self.fx = E, n, x, fx
        self.boxes, self.values = [], []

    def same_box(self, X, Y):
        return all(self.key(X[i].a) == self.key(Y[i].a) and self.key(X[i].b) == self.key(Y[i].b) for i in range(self.n))

    def key(self, v):
        return self.E.z3.simplify(v.t).get_id() if hasattr(v, 't') else v

    def __call__(self, X):
        E = self.E
        for Y, v in zip(self.boxes, self.values):
            if self.same_box(X, Y):
                return v
        k = len(self.boxes)
        v = proper(E, 'f%d' % k, lo=-100, hi=100)
        inside = E.And(*[E.And(E.ex(X[i].a) <= self.x[i], self.x[i] <= E.ex(X[i].b)) for i in range(self.n)])
        E.assume(E.Implies(inside, E.And(E.ex(v.a) <= self.fx, self.fx <= E.ex(v.b))))
        self.boxes.append([C(E)(X[i].a, X[i].b) for i in range(self.n)])
        self.values.append(v)
        return v


def half(E, B, P, n):
    """B is one half of P, cut across the widest side"""
    alt = []
    for j in range(n):
        w = [E.ex(v.b) - E.ex(v.a) for v in P]
        mid = (E.ex(P[j].a) + E.ex(P[j].b)) / 2
        widest = [w[i] <= w[j] for i in range(n)]
        rest = [same(E, B[i], P[i]) for i in range(n) if i != j]
        for lo, hi in ((E.ex(P[j].a), mid), (mid, E.ex(P[j].b))):
            alt.append(E.And(*widest, *rest, E.ex(B[j].a) == lo, E.ex(B[j].b) == hi))
    return E.Or(*alt)


@harness('N02', cases=[dict(n=1, it=0), dict(n=1, it=2), dict(n=2, it=0), dict(n=2, it=1)], thorough=[dict(n=1, it=3), dict(n=2, it=2)],
         max_paths=8000, stubs=['the function: an arbitrary interval for every box, containing the value at the tracked point'],
         bounds='one and two variables, every box; up to 3 (4) bisections; exact midpoints')
def minimum(E, n, it):
    x0 = [proper(E, 'x%d' % i, lo=-100, hi=100) for i in range(n)]
    x = [E.exact('p%d' % i, -100, 100) for i in range(n)]
    fx = E.exact('fp', -100, 100)
    f = Extension(E, n, x, fx)
    X0 = E.ip.asinterval(x0)
    tol = 0.5
    ok, r = E.call(lambda: E.ip.nonlinear.globopt(f, X0, tol=tol, maxiter=it))
    E.reach()
    box, val = r
    for i in range(n):
        E.check('starting box unchanged', same(E, X0[i], x0[i]))
        E.check('inside the starting box', E.And(E.ex(x0[i].a) <= E.ex(box[i].a), E.ex(box[i].b) <= E.ex(x0[i].b), E.ex(box[i].a) <= E.ex(box[i].b)))
    B = [C(E)(box[i].a, box[i].b) for i in range(n)]
    E.check('the value is that of the box', E.Or(*[E.And(*[same(E, u, v) for u, v in zip(B, Y)], same(E, val, v2))
                                                   for Y, v2 in zip(f.boxes, f.values)]))
    inside = E.And(*[E.And(E.ex(x0[i].a) <= x[i], x[i] <= E.ex(x0[i].b)) for i in range(n)])
    E.check('lower bound of the function', E.Implies(inside, E.ex(val.a) <= fx))
    k = (len(f.boxes) - 1) // 2
    E.check('number of bisections', k <= it + 1)
    E.check('tolerance', E.Or(E.ex(val.b) - E.ex(val.a) < E.ex(tol), k >= it + 1))
    for Y in f.boxes[1:]:
        E.check('halves of the widest side', E.Or(*[half(E, Y, P, n) for P in f.boxes]))
