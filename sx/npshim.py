"""numpy as seen by the code under test: real numpy over object arrays, with the float-only entry points replaced."""
from fractions import Fraction
import math
import types

import numpy as np

from . import core
from .core import SymBool, SymNp, SymReal, Unsupported

_FLOATS = (float, np.float64, np.double, 'float64', 'float', 'd', np.floating, None)


def hassym(x, depth=0):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (SymReal, SymBool)) for v in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(hassym(v, depth + 1) for v in x)
    return False


def isfloat_dtype(dt):
    if dt is None:
        return True
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return getattr(dt, '__name__', '') == 'sym_float'


def realdt(dt):
    n = getattr(dt, '__name__', '')
    if n == 'sym_float':
        return float
    if n == 'sym_int':
        return int
    return dt


def norm(a):
    """object arrays of plain bools become bool arrays"""
    if isinstance(a, np.ndarray) and a.dtype == object and a.size and all(isinstance(v, (bool, np.bool_)) for v in a.ravel()):
        return a.astype(bool)
    return a


def _zero(x):
    return x


class Linalg(types.ModuleType):
    def __init__(self, shim):
        super().__init__('numpy.linalg')
        self.shim = shim
        self.LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        real = getattr(np.linalg, name)
        if not callable(real) or isinstance(real, type):
            return real
        shim = self.shim

        def f(*a, **k):
            h = shim.linalg_stubs.get(name)
            if h is not None and core.CTX is not None:
                return h(*a, **k)
            if core.CTX is not None and (name in ('inv', 'solve', 'det') or any(hassym(x) or getattr(x, 'dtype', None) == object for x in a)):
                d = getattr(shim, '_default_' + name, None)
                if d is not None:
                    return d(*a, **k)
                if name in ('pinv', 'lstsq', 'cond', 'svd', 'eigvals', 'eigvalsh', 'eig', 'eigh', 'qr', 'cholesky', 'matrix_rank', 'slogdet') \
                        and all(not isinstance(x, (np.ndarray, list)) or isconst(x) for x in a):
                    return real(*[constants(x).astype(float) if isinstance(x, (np.ndarray, list)) else x for x in a], **k)
                raise Unsupported('numpy.linalg.' + name)
            return real(*a, **k)
        f.__name__ = name
        return f


class Rows:
    """rows of an array of symbols seen as single items"""
    def __init__(self, a):
        self.a = a


class Index:
    """positions of the different rows of an array; the order (lexicographic by row) is worked out only when it is looked at"""
    def __init__(self, A, first, rows=False):
        self.A, self.first, self.rows, self.done = A, first, rows, None

    def order(self):
        if self.done is None:
            def less(i, j):
                for u, v in zip(self.A[i], self.A[j]):
                    if bool(u < v):
                        return True
                    if bool(v < u):
                        return False
                return False
            r = []
            for i in self.first:
                k = next((k for k, j in enumerate(r) if less(i, j)), len(r))
                r.insert(k, i)
            self.done = [self.A[i] for i in r] if self.rows else r
        return self.done

    def sort(self):
        assert not self.rows
        self.done = sorted(self.first)

    def __len__(self):
        return len(self.first)

    def __iter__(self):
        return iter(self.order())

    def __getitem__(self, i):
        return np.array(self.order(), dtype=object if self.rows else int)[i]

    def __array__(self, dtype=None, copy=None):
        return np.array(self.order(), dtype=object if self.rows else int)


class Extremum:
    """np.maximum and np.minimum, with the methods of a ufunc"""
    def __init__(self, shim, ismax):
        self.shim, self.ismax = shim, ismax
        self.ufunc = np.maximum if ismax else np.minimum
        self.__name__ = self.ufunc.__name__

    def __call__(self, a, b, out=None, **k):
        if k:
            raise Unsupported('np.%s options' % self.__name__)
        r = self.shim._ew2(lambda x, y: core.CTX.minmax([x, y], self.ismax), a, b)
        r = self.ufunc(a, b) if r is None else r
        if out is None:
            return r
        out[...] = r
        return out

    def reduce(self, a, axis=0, **k):
        return self.shim._minmax(a, self.ismax, axis, **k)

    def accumulate(self, a, axis=0):
        if not self.shim._issym(a):
            return self.ufunc.accumulate(a, axis=axis)
        A = np.moveaxis(self.shim._arr(a), axis, 0)
        out = np.array(A)
        for i in range(1, len(A)):
            out[i] = self(out[i - 1], A[i])
        return np.moveaxis(out, 0, axis)

    def outer(self, a, b):
        a, b = self.shim._arr(a), self.shim._arr(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)


class NPShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.linalg_stubs = {}
        self.random_stubs = {}
        self.linalg = Linalg(self)
        for n in dir(type(self)):
            if n.startswith('np_'):
                setattr(self, n[3:], getattr(self, n))
        self.maximum = self.fmax = Extremum(self, True)
        self.minimum = self.fmin = Extremum(self, False)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(np, name)

    # ------------------------------------------------------------------ creation
    def _obj(self, a):
        if core.CTX is None or not core.CTX.opts.get('objarrays', True):
            return a
        if isinstance(a, np.ndarray) and a.dtype.kind == 'f':
            return a.astype(object)
        return a

    def np_zeros(self, shape, dtype=None, **k):
        if isfloat_dtype(dtype):
            return self._obj(np.zeros(shape))
        return np.zeros(shape, dtype=realdt(dtype), **k)

    def np_ones(self, shape, dtype=None, **k):
        if isfloat_dtype(dtype):
            return self._obj(np.ones(shape))
        return np.ones(shape, dtype=realdt(dtype), **k)

    def np_empty(self, shape, dtype=None, **k):
        return self.np_zeros(shape, dtype)

    def np_full(self, shape, v, dtype=None, **k):
        if hassym(v) or (isfloat_dtype(dtype)):
            r = np.empty(shape, dtype=object)
            r[...] = v
            return r if core.CTX is not None else np.full(shape, v, dtype=dtype)
        return np.full(shape, v, dtype=realdt(dtype), **k)

    def np_eye(self, N, M=None, k=0, dtype=float, **kw):
        if isfloat_dtype(dtype):
            return self._obj(np.eye(N, M=M, k=k))
        return np.eye(N, M=M, k=k, dtype=realdt(dtype), **kw)

    np_identity = lambda self, n, dtype=None: self.np_eye(n)

    def np_zeros_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        if dtype is None and a.dtype.kind in 'fO':
            return self._obj(np.zeros(a.shape))
        return np.zeros_like(a, dtype=realdt(dtype) if dtype is not None else None)

    def np_ones_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        if dtype is None and a.dtype.kind in 'fO':
            return self._obj(np.ones(a.shape))
        return np.ones_like(a, dtype=realdt(dtype) if dtype is not None else None)

    np_empty_like = np_zeros_like

    def np_full_like(self, a, v, **k):
        r = np.empty(np.shape(a), dtype=object)
        r[...] = v
        return r

    def np_array(self, a, dtype=None, copy=True, **k):
        if dtype is not None and dtype is not object:
            probe = np.array(a, dtype=object) if not isinstance(a, np.ndarray) else a
            if core.CTX is not None and probe.dtype == object and hassym(probe):
                if isfloat_dtype(dtype):
                    return np.array(probe, dtype=object)
                if np.dtype(dtype).kind == 'b':
                    return np.array([bool(v) for v in probe.ravel()], dtype=bool).reshape(probe.shape)
                raise Unsupported('np.array dtype %r' % (dtype,))
            if core.CTX is not None and isfloat_dtype(dtype):
                return self._obj(np.array(a, dtype=float))
        return np.array(a, dtype=realdt(dtype), copy=copy, **k)

    def np_fromiter(self, it, dtype=None, count=-1):
        vals = list(it)
        if count >= 0:
            if len(vals) < count:
                raise ValueError('iterator too short: Expected %d but iterator had only %d items.' % (count, len(vals)))
            vals = vals[:count]
        if hassym(vals) and isfloat_dtype(dtype):
            out = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                out[i] = v
            return out
        return self._obj(np.fromiter(vals, dtype=realdt(dtype)))

    def np_asarray(self, a, dtype=None, **k):
        if dtype is None:
            return np.asarray(a)
        if isinstance(a, np.ndarray) and a.dtype == object and isfloat_dtype(dtype):
            return a
        return self.np_array(a, dtype=dtype)

    def np_ascontiguousarray(self, a, dtype=None):
        return np.ascontiguousarray(a)

    # ------------------------------------------------------------------ elementwise
    def np_vectorize(self, pyfunc, otypes=None, **kw):
        if kw:
            raise Unsupported('np.vectorize options')

        def call(*args, **kws):
            if kws:
                raise Unsupported('np.vectorize kwargs')
            if core.CTX is None:
                return np.vectorize(pyfunc, otypes=otypes)(*args)
            arrs = [a if isinstance(a, np.ndarray) else self._cell(a) for a in args]
            b = np.broadcast(*arrs) if len(arrs) > 1 else None
            shape = b.shape if b is not None else arrs[0].shape
            if any(0 in a.shape for a in arrs) and otypes is None:
                raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
            bs = [np.broadcast_to(a, shape) for a in arrs]
            out = np.empty(shape, dtype=object)
            for idx in np.ndindex(*shape):
                out[idx] = pyfunc(*[x[idx] for x in bs])
            if otypes is None:
                out = self._natural(out)
            if shape == ():
                if otypes is not None and list(otypes) == [object]:
                    return out
                return out
            return out
        return call

    def _cell(self, a):
        if isinstance(a, (list, tuple)):
            return np.array(a)
        if hasattr(a, '__array__') and not isinstance(a, np.generic):
            return np.asarray(a)
        r = np.empty((), dtype=object)
        r[()] = a
        if isinstance(a, (int, float, np.generic)) and not isinstance(a, SymReal):
            return np.asarray(a)
        return r

    def _natural(self, out):
        """dtype inference as numpy does it, from the first element, when nothing symbolic is involved"""
        vals = list(out.ravel())
        isint = lambda v: v.isint if isinstance(v, SymReal) else isinstance(v, (int, np.integer)) and not isinstance(v, bool)
        isreal = lambda v: isinstance(v, (SymReal, float, int, np.floating, np.integer))
        if vals and isint(vals[0]) and all(isreal(v) for v in vals) and not all(isint(v) for v in vals):
            # the first element decides: the others are truncated to integers
            for i in np.ndindex(*out.shape):
                v = out[i]
                if isinstance(v, SymReal) and not v.isint:
                    out[i] = core.CTX.floor(v) if bool(v >= 0) else -core.CTX.floor(-v)
                elif isinstance(v, float):
                    if not math.isfinite(v):
                        raise ValueError('cannot convert float NaN to integer')
                    out[i] = int(v)
            vals = list(out.ravel())
        if any(isinstance(v, (SymReal, SymBool)) for v in vals):
            if all(isinstance(v, (SymBool, bool, np.bool_)) for v in vals):
                return np.array([bool(v) for v in vals]).reshape(out.shape)
            return out
        if vals and all(isinstance(v, (bool, np.bool_)) for v in vals):
            return out.astype(bool)
        if vals and all(isinstance(v, (int, np.integer)) for v in vals):
            return out.astype(np.asarray(vals[0]).dtype) if core.CTX is None else out
        return out

    def _ew2(self, f, a, b):
        if not (self._issym(a) or self._issym(b)):
            return None
        A, B = np.broadcast_arrays(self._arr(a), self._arr(b))
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(*A.shape):
            out[i] = f(A[i], B[i])
        return out[()] if out.shape == () else out

    def _arr(self, a):
        if isinstance(a, np.ndarray):
            return a
        if isinstance(a, SymReal):
            r = np.empty((), dtype=object)
            r[()] = a
            return r
        return np.array(a, dtype=object)

    def _issym(self, a):
        return core.CTX is not None and hassym(a)


    def np_abs(self, a):
        if isinstance(a, SymReal):
            return abs(a)
        return np.abs(a)

    np_absolute = np_abs
    np_fabs = np_abs

    def np_sign(self, a):
        def sg(v):
            if not isinstance(v, SymReal):
                return float(np.sign(v)) if isinstance(v, (int, float)) else np.sign(v)
            return SymReal(core.z3.If(v.t > 0, core.q(1), core.z3.If(v.t < 0, core.q(-1), core.q(0)))) \
                if core.CTX.opts.get('sign_ite') else (1.0 if bool(v > 0) else (-1.0 if bool(v < 0) else 0.0))
        if isinstance(a, SymReal):
            return sg(a)
        if self._issym(a):
            A = self._arr(a)
            out = np.empty(A.shape, dtype=object)
            for i in np.ndindex(*A.shape):
                out[i] = sg(A[i])
            return out
        return np.sign(a)

    def _minmax(self, a, ismax, axis=None, **k):
        out, initial, keep = k.pop('out', None), k.pop('initial', None), k.pop('keepdims', False)
        if k or out is not None or (initial is not None and axis is not None):
            raise Unsupported('np.max options')
        if not self._issym(a) and not hassym(initial):
            o = {'initial': initial} if initial is not None else {}
            return (np.max if ismax else np.min)(a, axis=axis, keepdims=keep, **o)
        A = self._arr(a)
        if isinstance(axis, tuple):
            if sorted(x % A.ndim for x in axis) != list(range(A.ndim)):
                raise Unsupported('axis tuple')
            axis = None
        if axis is None:
            r = core.CTX.minmax(list(A.ravel()) + ([] if initial is None else [initial]), ismax)
            if keep:
                o = np.empty((1,) * A.ndim, dtype=object)
                o[...] = r
                return o
            return r
        if keep:
            return np.expand_dims(self._minmax(a, ismax, axis), axis)
        A = np.moveaxis(A, axis, -1)
        out = np.empty(A.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = core.CTX.minmax(list(A[i]), ismax)
        return out[()] if out.shape == () else out

    def np_max(self, a, axis=None, **k):
        return self._minmax(a, True, axis, **k)

    def np_min(self, a, axis=None, **k):
        return self._minmax(a, False, axis, **k)

    np_amax = np_max
    np_amin = np_min

    def np_isnan(self, a):
        if isinstance(a, SymReal):
            return np.False_
        if isinstance(a, np.ndarray) and a.dtype == object:
            out = np.zeros(a.shape, dtype=bool)
            for i in np.ndindex(*a.shape):
                v = a[i]
                out[i] = False if isinstance(v, SymReal) else bool(np.isnan(v))
            return out
        return np.isnan(a)

    def np_isfinite(self, a):
        if isinstance(a, SymReal):
            return True
        if isinstance(a, np.ndarray) and a.dtype == object:
            return np.array([True if isinstance(v, SymReal) else bool(np.isfinite(v)) for v in a.ravel()],
                            dtype=bool).reshape(a.shape)
        return np.isfinite(a)

    def np_isinf(self, a):
        if isinstance(a, SymReal):
            return False
        if isinstance(a, np.ndarray) and a.dtype == object:
            return np.array([False if isinstance(v, SymReal) else bool(np.isinf(v)) for v in a.ravel()],
                            dtype=bool).reshape(a.shape)
        return np.isinf(a)

    def _nanred(self, a, ismax):
        if not self._issym(a):
            a = np.asarray(a)
            return (np.nanmax if ismax else np.nanmin)(a.astype(float) if a.dtype == object else a)
        vals = [v for v in self._arr(a).ravel() if isinstance(v, SymReal) or not math.isnan(v)]
        if not vals:
            return float('nan')
        return core.CTX.minmax(vals, ismax)

    def np_nanmax(self, a, **k):
        return self._nanred(a, True)

    def np_nanmin(self, a, **k):
        return self._nanred(a, False)

    def np_around(self, a, decimals=0):
        if core.CTX is None:
            return np.around(a, decimals)
        if not self._issym(a):
            a = np.asarray(a)
            return np.around(a.astype(float) if a.dtype == object else a, decimals)
        if decimals < 9:
            raise Unsupported('np.around')
        return np.array(a, dtype=object)        # rounding to 9 and more decimals is below the tolerance of the harnesses

    np_round = np_around

    def np_unique(self, a, return_index=False, axis=None, **k):
        if isinstance(a, Rows) or (axis == 0 and self._issym(a)):
            if k:
                raise Unsupported('np.unique options')
            A = a.a if isinstance(a, Rows) else a
            first = []
            for i in range(len(A)):
                if not any(all(bool(u == v) for u, v in zip(A[i], A[j])) for j in first):
                    first.append(i)
            ix = Index(A, first)
            return (None if isinstance(a, Rows) else Index(A, first, True), ix) if return_index else Index(A, first, True)
        if self._issym(a):
            if k or axis is not None:
                raise Unsupported('np.unique options')
            A, r = self._arr(a).ravel(), []
            for i in range(len(A)):
                if not any(bool(A[i] == A[j]) for j in r):
                    r.insert(next((k for k, j in enumerate(r) if bool(A[i] < A[j])), len(r)), i)
            return (A[r], np.array(r)) if return_index else A[r]
        return np.unique(a, return_index=return_index, axis=axis, **k)

    def np_sort(self, a, **k):
        return np.array(sorted(a.first)) if isinstance(a, Index) else np.sort(a, **k)

    def np_sqrt(self, a):
        if isinstance(a, SymReal):
            return core.CTX.sqrt(a)
        return np.sqrt(a)

    def _un(self, name, a):
        if isinstance(a, SymReal):
            return core.CTX.libm(name, a)
        return getattr(np, name)(a)

    def np_exp(self, a):
        return self._un('exp', a)

    def np_log(self, a):
        return self._un('log', a)

    def np_sin(self, a):
        return self._un('sin', a)

    def np_cos(self, a):
        return self._un('cos', a)

    def np_tan(self, a):
        return self._un('tan', a)

    def np_isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not (self._issym(a) or self._issym(b)):
            f = lambda x: x.astype(float) if isinstance(x, np.ndarray) and x.dtype == object else x
            return np.isclose(f(a), f(b), rtol=rtol, atol=atol, equal_nan=equal_nan)
        def close(x, y):
            if not (isinstance(x, SymReal) or math.isfinite(x)) or not (isinstance(y, SymReal) or math.isfinite(y)):
                return False if (isinstance(x, SymReal) or isinstance(y, SymReal)) else bool(np.isclose(x, y, rtol, atol, equal_nan))
            return bool(abs(x - y) <= atol + rtol * abs(y))
        r = self._ew2(close, a, b)
        return norm(r) if isinstance(r, np.ndarray) else r

    def np_allclose(self, a, b, **k):
        return bool(np.all(self.np_isclose(a, b, **k)))

    def np_array_equal(self, a, b, **k):
        if k or not (self._issym(a) or self._issym(b)):
            return np.array_equal(a, b, **k)
        return np.shape(a) == np.shape(b) and bool(np.all(norm(np.array(self._arr(a) == self._arr(b)))))

    def np_signbit(self, a):
        r = self._ew2(lambda x, _: bool(x < 0), a, 0.0)
        return np.signbit(a) if r is None else norm(r) if isinstance(r, np.ndarray) else r

    def np_copysign(self, a, b):
        r = self._ew2(lambda x, y: -abs(x) if bool(y < 0) else abs(x), a, b)
        return np.copysign(a, b) if r is None else r

    def np_heaviside(self, a, b):
        r = self._ew2(lambda x, y: 0.0 if bool(x < 0) else y if bool(x == 0) else 1.0, a, b)
        return np.heaviside(a, b) if r is None else r

    def np_hypot(self, a, b):
        r = self._ew2(lambda x, y: self.np_sqrt(x * x + y * y), a, b)
        return np.hypot(a, b) if r is None else r

    def np_clip(self, a, lo=None, hi=None, min=None, max=None):
        lo, hi = min if lo is None else lo, max if hi is None else hi
        if not (self._issym(a) or self._issym(lo) or self._issym(hi)):
            return np.clip(a, lo, hi)
        r = a if lo is None else self.maximum(a, lo)
        return r if hi is None else self.minimum(r, hi)

    def np_reciprocal(self, a):
        return 1.0 / a if self._issym(a) else np.reciprocal(a)

    def np_sum(self, a, *p, **k):
        return np.sum(np.asarray(list(a), dtype=object) if isinstance(a, types.GeneratorType) else a, *p, **k)

    def f64(self, x=0.0):
        if hassym(x):
            return x if isinstance(x, SymReal) else np.array(x, dtype=object)
        return np.float64(x)

    def np_copy(self, a):
        if isinstance(a, SymReal):
            return a
        return np.copy(a)

    def np_diag(self, v, k=0):
        v = np.asarray(v)
        return np.diag(v, k)

    def np_where(self, c, *a):
        if not a:
            c = np.asarray(c)
            if c.dtype == object:
                c = np.array([bool(v) for v in c.ravel()]).reshape(c.shape)
            return np.where(c)
        C = np.asarray(c)
        if C.dtype == object or self._issym(a[0]) or self._issym(a[1]):
            C, X, Y = np.broadcast_arrays(self._arr(C), self._arr(a[0]), self._arr(a[1]))
            out = np.empty(C.shape, dtype=object)
            for i in np.ndindex(*C.shape):
                out[i] = core.CTX.ite(C[i], X[i], Y[i]) if isinstance(C[i], SymBool) else (X[i] if C[i] else Y[i])
            return out
        return np.where(c, *a)

    # ------------------------------------------------------------------ linalg defaults
    def _default_inv(self, M):
        """exact inverse of a constant matrix"""
        A = constants(M)
        if len(A.shape) != 2 or A.shape[0] != A.shape[1]:
            raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
        R = exact_inverse(A)
        if R is None:
            raise np.linalg.LinAlgError('Singular matrix')
        return np.array([[core.SymReal(core.q(v)) for v in r] for r in R], dtype=object).reshape(A.shape)

    def _default_solve(self, M, b):
        return self._default_inv(M) @ np.asarray(b, dtype=object)

    def _default_det(self, M):
        A = constants(M)
        return core.SymReal(core.q(exact_det([list(r) for r in A])))

    def _default_lstsq(self, M, b, rcond=None):
        """least squares solution for a constant matrix of full column rank"""
        A = constants(M)
        R = exact_inverse((A.T @ A).tolist())
        if R is None:
            raise Unsupported('numpy.linalg.lstsq of a rank deficient matrix')
        B = np.asarray(b, dtype=object)
        P = np.array([[core.SymReal(core.q(v)) for v in r] for r in (np.array(R, dtype=object).reshape(A.shape[1], A.shape[1]) @ A.T).tolist()], dtype=object)
        return P @ B, np.array([]), A.shape[1], np.linalg.svd(A.astype(float), compute_uv=False)

    def _default_multi_dot(self, arrays):
        r = arrays[0]
        for a in arrays[1:]:
            r = np.dot(r, a)
        return r

    def _default_norm(self, x, ord=None, axis=None, keepdims=False):
        if axis is not None:
            A = self._arr(x)
            if isinstance(axis, tuple):
                if len(axis) != 1:
                    raise Unsupported('norm axis')
                axis = axis[0]
            A = np.moveaxis(A, axis, -1)
            out = np.empty(A.shape[:-1], dtype=object)
            for i in np.ndindex(*out.shape):
                out[i] = self._default_norm(np.array(A[i], dtype=object), ord)
            return np.expand_dims(out, axis) if keepdims else out
        if keepdims:
            raise Unsupported('norm keepdims')
        if ord == 'fro' or (ord is None and isinstance(x, np.ndarray) and x.ndim == 2):
            x, ord = x.ravel(), 2
        A = self._arr(x).ravel() if not isinstance(x, np.ndarray) else x.ravel()
        c = core.CTX
        if ord == 1 and (not isinstance(x, np.ndarray) or x.ndim == 1):
            s = 0.0
            for v in A:
                s = s + abs(v)
            return s
        if ord in (None, 2) and (not isinstance(x, np.ndarray) or x.ndim == 1):
            s = 0.0
            for v in A:
                s = s + v * v
            return c.sqrt(s) if isinstance(s, SymReal) else math.sqrt(s)
        if ord == np.inf:
            return c.minmax([abs(v) for v in A], True)
        raise Unsupported('norm')


def constants(M):
    """exact values of a constant matrix"""
    A = np.asarray(M, dtype=object)
    R = np.empty(A.shape, dtype=object)
    for i, v in np.ndenumerate(A):
        R[i] = const(v)
    return R


def isconst(M):
    try:
        constants(M)
    except (Unsupported, ValueError, OverflowError):
        return False
    return True


def const(v):
    if isinstance(v, core.SymReal):
        t = core.z3.simplify(v.t)
        if not core.z3.is_rational_value(t):
            raise Unsupported('numpy.linalg function of a symbolic matrix')
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return Fraction(v)


def exact_inverse(M):
    n = len(M)
    T = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for k in range(n):
        p = next((i for i in range(k, n) if T[i][k]), None)
        if p is None:
            return None
        T[k], T[p] = T[p], T[k]
        T[k] = [v / T[k][k] for v in T[k]]
        for i in range(n):
            if i != k and T[i][k]:
                f = T[i][k]
                T[i] = [a - f * c for a, c in zip(T[i], T[k])]
    return [r[n:] for r in T]


def exact_det(M):
    if not M:
        return Fraction(1)
    return sum((-1) ** j * v * exact_det([r[:j] + r[j + 1:] for r in M[1:]]) for j, v in enumerate(M[0]) if v)
