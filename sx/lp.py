"""cvxopt as seen by the code under test. Symbolic execution: linear programs are replaced by the contract of a solver that is
right (the answer is feasible and no candidate point of the harness does better; 'infeasible' means no candidate is feasible).
Replay: the real solver, its answers recorded."""
import numpy as np

from . import npshim


class Matrix:
    def __init__(self, a, size=None, tc='d'):
        A = a.A if isinstance(a, Matrix) else np.array(a, dtype=object)
        if size is not None:
            A = A.reshape(size, order='F')
        self.A = A.reshape(-1, 1) if A.ndim < 2 else A
        self.size = self.A.shape

    def __array__(self, dtype=None, copy=None):
        return self.A

    def __len__(self):
        return self.A.size

    def __iter__(self):
        return iter(self.A.ravel(order='F'))

    def __getitem__(self, i):
        return self.A.ravel(order='F')[i] if isinstance(i, (int, np.integer)) else self.A[i]


class _Solvers:
    def __init__(self, lp):
        self.options = {'glpk': {}}
        self.lp = lp
        self.glpk = None


class FakeCvxopt:
    matrix = Matrix

    def __init__(self, E, candidates, infeasible=True, unbounded=False):
        self.E, self.candidates = E, candidates
        self.infeasible, self.unbounded = infeasible, unbounded
        self.log = []
        self.solvers = _Solvers(self.lp)

    def box(self, c, G, h):
        """every optimal point of a program whose constraints are bounds of single variables (None: not such a program)"""
        E = self.E
        if self.infeasible or self.unbounded:
            return None
        lo, up = [None] * len(c), [None] * len(c)
        for r, t in zip(G, h):
            k = [(j, npshim.const(E.num(v))) for j, v in enumerate(r) if E.z3.is_rational_value(E.z3.simplify(v.t))]
            k = [(j, v) for j, v in k if v] if len(k) == len(r) else []
            if len(k) != 1:
                return None
            j, v = k[0]
            t = E.ex(t) / E.ex(v)
            side = up if v > 0 else lo
            side[j] = t if side[j] is None else E.min(side[j], t) if v > 0 else E.max(side[j], t)
        if any(v is None for v in lo + up):
            return None
        x = []
        for a, b, v in zip(lo, up, c):
            E.fact(a <= b)
            if bool(E.core.sbool(v.t > 0)):
                x.append(a)
            elif bool(E.core.sbool(v.t < 0)):
                x.append(b)
            else:
                f = E.fresh('lp')
                E.fact(E.And(a <= f, f <= b))
                x.append(f)
        return x

    def lp(self, c, G, h, A=None, b=None, solver=None, **kw):
        E = self.E
        if A is not None or b is not None:
            raise E.core.Unsupported('linear program with equations')
        c, G, h = [m.A for m in (c, G, h)]
        c, h = [E.ex(v) for v in c.ravel()], [E.ex(v) for v in h.ravel()]
        G = [[E.ex(v) for v in r] for r in G]
        assert len(G) == len(h) and all(len(r) == len(c) for r in G), 'sizes of the linear program'
        zero = [[E.core.q(0).eq(v.t) for v in r] for r in G]
        zc = [E.core.q(0).eq(v.t) for v in c]

        def dot(r, z, x):
            s = E.ex(0)
            for v, k, y in zip(r, z, x):
                if not k:
                    s = s + v * y
            return s

        def feasible(x):
            return E.And(*[dot(r, z, x) <= t for r, z, t in zip(G, zero, h)])
        box = self.box(c, G, h)
        if box is not None:
            self.log.append((c, G, h, box))
            return {'status': 'optimal', 'x': Matrix([E.num(v) for v in box]), 'primal objective': E.num(dot(c, zc, box))}
        cands = [[E.ex(v) for v in y] for y in self.candidates(c, G, h)]
        n = len(self.log)
        if self.infeasible and E.boolean('lp_infeasible%d' % n):
            for y in cands:
                E.fact(E.Not(feasible(y)))
            self.log.append((c, G, h, None))
            return {'status': 'primal infeasible', 'x': None, 'primal objective': None}
        if self.unbounded and E.boolean('lp_unbounded%d' % n):
            self.log.append((c, G, h, None))
            return {'status': 'dual infeasible', 'x': None, 'primal objective': None}
        x = [E.fresh('lp') for _ in c]
        E.fact(feasible(x))
        for y in cands:
            E.fact(E.Implies(feasible(y), dot(c, zc, x) <= dot(c, zc, y)))
        self.log.append((c, G, h, x))
        return {'status': 'optimal', 'x': Matrix([E.num(v) for v in x]), 'primal objective': E.num(dot(c, zc, x))}


class Recorder:
    """replay: the real module with its lp answers recorded; solved by the simplex method (glpk), as precisely as possible"""
    def __init__(self, real):
        self._real = real
        self.log = []
        rec = self

        class Solvers:
            def __getattr__(self, n):
                return getattr(real.solvers, n)

            def lp(self, c, G, h, *a, **k):
                k.setdefault('solver', 'glpk')
                real.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
                r = real.solvers.lp(c, G, h, *a, **k)
                x = None if r['x'] is None else list(r['x'])
                rec.log.append((list(c), G, list(h), x))
                return r
        self.solvers = Solvers()

    def __getattr__(self, n):
        return getattr(self._real, n)


def install(E, candidates, **kw):
    if E.symbolic:
        f = FakeCvxopt(E, candidates, **kw)
    else:
        import cvxopt
        f = Recorder(cvxopt)
    E.patch('cvxopt', f)
    return f
