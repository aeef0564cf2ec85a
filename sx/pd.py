"""Stand-in for the few pandas operations the package uses: a table of named columns of objects."""
import numpy as np


def cells(v):
    v = list(v.flat) if isinstance(v, np.ndarray) else list(v)
    out = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        out[i] = x
    return out


class DataFrame:
    def __init__(self, data=None):
        self._cols = {}
        if data is None:
            pass
        elif isinstance(data, DataFrame):
            self._cols = dict(data._cols)
        elif isinstance(data, dict):
            self._cols = {k: cells(v) for k, v in data.items()}
        else:
            n, m = data.shape
            self._cols = {j: cells([data[i, j] for i in range(n)]) for j in range(m)}

    @property
    def shape(self):
        return (len(next(iter(self._cols.values()))) if self._cols else 0, len(self._cols))

    @property
    def columns(self):
        return list(self._cols)

    def insert(self, loc, column, value):
        if column in self._cols:
            raise ValueError('cannot insert %s, already exists' % column)
        items = list(self._cols.items())
        items.insert(loc, (column, cells(value)))
        self._cols.clear()
        self._cols.update(items)

    def copy(self, deep=True):
        return DataFrame(self)

    def __getitem__(self, col):
        return self._cols[col]

    def __setitem__(self, col, value):
        self._cols[col] = cells(value)

    def __len__(self):
        return self.shape[0]

    def __iter__(self):
        return iter(self._cols)

    def __array__(self, dtype=None, copy=None):
        n, m = self.shape
        out = np.empty((n, m), dtype=object)
        for j, c in enumerate(self._cols.values()):
            for i in range(n):
                out[i, j] = c[i]
        return out

    @property
    def values(self):
        return self.__array__()

    def to_numpy(self):
        return self.__array__()

    def __matmul__(self, v):
        n, m = self.shape
        out = np.empty(n, dtype=object)
        a = self.__array__()
        for i in range(n):
            s = a[i, 0] * v[0]
            for j in range(1, m):
                s = s + a[i, j] * v[j]
            out[i] = s
        return out

    dot = __matmul__
