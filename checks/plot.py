"""Drawing of interval data: what is handed to the axes."""
from fractions import Fraction

from sx.registry import harness
from checks.common import proper


class Axes:
    """records what is drawn: lists of points (one for a dot, the corners of a polygon)"""
    def __init__(self):
        self.dots, self.areas = [], []

    def scatter(self, x, y, *a, **k):
        self.dots += [(p, q) for p, q in zip(list(x), list(y))]

    def fill(self, x, y, *a, **k):
        fill = k.get('fill', True)
        if getattr(x, 'ndim', 1) == 1:
            self.areas.append(([(p, q) for p, q in zip(x, y)], fill))
            return
        for j in range(x.shape[1]):
            self.areas.append(([(x[i, j], y[i, j]) for i in range(x.shape[0])], fill))


def board(E, axes, shape):
    """a drawing with these axes (pyplot itself is not used)"""
    p = E.ip.IPlot()
    p.nrows, p.ncols = shape
    p.ax = axes
    p.fig = None
    return p


def same_point(E, p, q):
    return E.And(E.ex(p[0]) == E.ex(q[0]), E.ex(p[1]) == E.ex(q[1]))


def outline(E, pts, box):
    """the corners in order round the box, from any corner in any direction"""
    a, b, c, d = box
    ring = [(a, c), (a, d), (b, d), (b, c)]
    alts = []
    for seq in (ring, ring[::-1]):
        for k in range(4):
            alts.append(E.And(*[same_point(E, p, q) for p, q in zip(pts, seq[k:] + seq[:k])]))
    return E.Or(*alts) if len(pts) == 4 else False


@harness('V01', cases=[dict(n=1), dict(n=2)], bounds='one and two pairs of intervals, every ends', stubs=['matplotlib axes: records what is drawn'])
def scatter_draws(E, n):
    """every pair of intervals is drawn once, as a dot, a segment or a filled box"""
    X = [proper(E, 'x%d' % i, lo=-100, hi=100) for i in range(n)]
    Y = [proper(E, 'y%d' % i, lo=-100, hi=100) for i in range(n)]
    xi, yi = E.ip.asinterval(X), E.ip.asinterval(Y)
    ax = Axes()
    ok, _ = E.call(lambda: board(E, ax, (1, 1)).scatter(xi, yi))
    E.reach()
    E.check('one drawing each', len(ax.dots) + len(ax.areas) == n)
    used = 0
    for i in range(n):
        a, b, c, d = [E.ex(v) for v in (X[i].a, X[i].b, Y[i].a, Y[i].b)]
        dot, box = E.And(a == b, c == d), E.And(a < b, c < d)
        E.check('dot', E.Implies(dot, E.Or(False, *[same_point(E, p, (a, c)) for p in ax.dots])))
        E.check('box', E.Implies(box, E.Or(False, *[outline(E, p, (a, b, c, d)) for p, f in ax.areas if f])))
        E.check('segment', E.Implies(E.And(E.Not(dot), E.Not(box)), E.Or(False, *[outline(E, p, (a, b, c, d)) for p, f in ax.areas if not f])))
    for i in range(n):
        E.check('data unchanged', E.And(E.ex(xi[i].a) == E.ex(X[i].a), E.ex(xi[i].b) == E.ex(X[i].b), E.ex(yi[i].a) == E.ex(Y[i].a), E.ex(yi[i].b) == E.ex(Y[i].b)))


def tables(grid):
    """(all axes, what pyplot gives for them, shape, which axes an index chooses)"""
    import numpy as real
    if grid is None:
        shape = (1, 1)
        axes = Axes()
        table = [axes]
        choose = {None: axes}
    else:
        shape = grid
        table = [Axes() for _ in range(grid[0] * grid[1])]
        axes = real.empty(grid if 1 not in grid else len(table), dtype=object)
        for k, t in enumerate(table):
            axes[(k // grid[1], k % grid[1]) if 1 not in grid else k] = t
        first = (0, 0) if 1 not in grid else 0
        last = (grid[0] - 1, grid[1] - 1) if 1 not in grid else len(table) - 1
        choose = {None: axes[first], last: axes[last]}
    return table, axes, shape, choose


@harness('V01', cases=[dict(grid=g) for g in ((1, 2), (2, 1), (2, 2))], bounds='one pair of intervals; rows, columns and tables of axes',
         stubs=['matplotlib axes: records what is drawn'])
def scatter_axes(E, grid):
    """the chosen axes, by default the first ones"""
    X, Y = proper(E, 'x', lo=-100, hi=100), proper(E, 'y', lo=-100, hi=100)
    xi, yi = E.ip.asinterval([X]), E.ip.asinterval([Y])
    table, axes, shape, choose = tables(grid)
    for index, target in choose.items():
        for t in table:
            t.dots, t.areas = [], []
        ok, _ = E.call(lambda: board(E, axes, shape).scatter(xi, yi, **({} if index is None else {'axindex': index})))
        E.reach()
        E.check('one drawing', len(target.dots) + len(target.areas) == 1)
        E.check('other axes', all(t is target or not t.dots and not t.areas for t in table))


@harness('V01', cases=[dict(sizes=s, grid=g) for s in ((3,), (4, 0, 3)) for g in (None, (1, 2), (2, 1), (2, 2))],
         bounds='up to three polygons with up to four vertices, every vertex; single axes, rows, columns and tables of axes', stubs=['matplotlib axes: records what is drawn'])
def polygons_draw(E, sizes, grid):
    """every nonempty polygon is drawn on the chosen axes, with all of its vertices in order"""
    import numpy as real
    P = [[(E.real('u%d_%d' % (k, i), lo=-100, hi=100), E.real('v%d_%d' % (k, i), lo=-100, hi=100)) for i in range(n)] for k, n in enumerate(sizes)]
    V = [E.arr([list(p) for p in poly]) if poly else E.np.array([]) for poly in P]
    table, axes, shape, choose = tables(grid)
    for index, target in choose.items():
        for t in table:
            t.dots, t.areas = [], []
        p = board(E, axes, shape)
        chosen = {} if index is None else {'axindex': index}
        if len(sizes) == 1:
            ok, _ = E.call(lambda: p.lineqs(V[0], **chosen))
        else:
            ok, _ = E.call(lambda: p.IntLinIncR2(V, **chosen))
        E.reach()
        todo = [poly for poly in P if poly]
        E.check('areas', len(target.areas) == len(todo))
        E.check('vertices', len(target.dots) == sum(len(poly) for poly in todo))
        E.check('other axes', all(t is target or not t.dots and not t.areas for t in table))
        for poly, (pts, f) in zip(todo, target.areas):
            E.check('outline', len(pts) == len(poly) and E.And(*[same_point(E, a, b) for a, b in zip(pts, poly)]))
        for a, b in zip([v for poly in todo for v in poly], target.dots):
            E.check('vertex', same_point(E, a, b))
