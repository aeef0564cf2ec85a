"""Loads the intvalpy package from /repo's current sources for symbolic execution.

Every module's real source text is compiled and executed; only its environment is replaced: builtins
(isinstance/min/max/abs/float/int/...), numpy, math, cvxopt, pandas, matplotlib, mpmath, libc and fenv.
The Cython module goes through sx.pyx first."""
import ast
import builtins
import hashlib
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np

from . import core, pyx
from .core import SymBool, SymNp, SymReal, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')


# ------------------------------------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, SymReal):
            return not o.isint
        return builtins.isinstance(o, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class sym_float(metaclass=_FloatMeta):
    def __new__(cls, v=0.0):
        if isinstance(v, SymReal):
            return to_double(v)
        if isinstance(v, np.ndarray) and v.dtype == object and v.size == 1:
            return sym_float(v.reshape(-1)[0])
        return float(v)

    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, SymReal):
            return o.isint
        return builtins.isinstance(o, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class sym_int(metaclass=_IntMeta):
    def __new__(cls, v=0, *a):
        if isinstance(v, SymReal):
            if v.isint:
                return v
            raise Unsupported('int(symbolic)')
        return int(v, *a)


def to_double(v):
    """conversion to a C double / python float"""
    if v.isint:
        c = core.CTX
        if c.mode == 'F' and not c.opts.get('int53', True):
            r = c.round_term(v.t, core.FE_NEAR, 'i2d')
            big = core.z3.RealVal(2 ** 53)
            c.add(core.z3.Implies(core.z3.And(v.t <= big, -v.t <= big), r == v.t))
            return SymReal(r)
        return SymReal(v.t, False)
    return v


def _fixcls(c):
    if builtins.isinstance(c, tuple):
        return tuple(_fixcls(x) for x in c)
    return c


def sym_isinstance(o, c):
    if builtins.isinstance(o, SymReal):
        cs = c if builtins.isinstance(c, tuple) else (c,)
        flat = []
        st = list(cs)
        while st:
            x = st.pop()
            if builtins.isinstance(x, tuple):
                st.extend(x)
            else:
                flat.append(x)
        for x in flat:
            if x in (float, sym_float):
                if not o.isint:
                    return True
            elif x in (int, sym_int):
                if o.isint and not builtins.isinstance(o, SymNp):
                    return True
            elif builtins.isinstance(x, type) and issubclass(x, np.generic):
                if builtins.isinstance(o, SymNp):
                    t = np.int64 if o.isint else np.float64
                    if issubclass(t, x):
                        return True
            elif builtins.isinstance(o, x):
                return True
        return False
    if builtins.isinstance(o, SymBool):
        cs = c if builtins.isinstance(c, tuple) else (c,)
        return bool in cs or np.bool_ in cs
    return builtins.isinstance(o, c)


def _flat_args(args, kw):
    if len(args) == 1 and not kw:
        return list(args[0])
    return list(args)


def sym_min(*args, **kw):
    vals = _flat_args(args, kw)
    if kw or not any(isinstance(v, SymReal) for v in vals):
        return builtins.min(*args, **kw) if len(args) != 1 or kw else builtins.min(vals)
    return core.CTX.minmax(vals, False)


def sym_max(*args, **kw):
    vals = _flat_args(args, kw)
    if kw or not any(isinstance(v, SymReal) for v in vals):
        return builtins.max(*args, **kw) if len(args) != 1 or kw else builtins.max(vals)
    return core.CTX.minmax(vals, True)


def sym_round(v, n=None):
    if isinstance(v, SymReal):
        raise Unsupported('round')
    return builtins.round(v, n) if n is not None else builtins.round(v)


def sym_pow(a, b, *m):
    return a ** b


def sym_type(*a):
    if len(a) == 1 and isinstance(a[0], SymReal):
        if isinstance(a[0], SymNp):
            return np.float64
        return int if a[0].isint else float
    return type(*a)


# ------------------------------------------------------------------------------------------- C runtime
def cc(t, v):
    """coercion of a value to a C typed variable"""
    if t is None:
        return v
    if t == 'double':
        if isinstance(v, SymReal):
            v = to_double(v)
            return SymReal(v.t) if isinstance(v, SymNp) else v
        if isinstance(v, SymBool):
            return float(bool(v))
        if isinstance(v, np.ndarray) and v.dtype == object and v.ndim == 0:
            return cc(t, v.item())
        if isinstance(v, (str, type(None))):
            raise TypeError('must be real number, not %s' % type(v).__name__)
        return float(v)
    if t == 'bint':
        return bool(v)
    if t == 'int':
        if isinstance(v, SymReal):
            if v.isint:
                return v
            raise Unsupported('C int from a symbolic double')
        if isinstance(v, float):
            raise TypeError('expected int, got float')
        return int(v)
    if t == 'cfloat':
        raise Unsupported('C float')
    raise Unsupported('C type ' + t)


def ctuple(ts, v):
    v = tuple(v)
    if len(v) != len(ts):
        raise ValueError('unpack')
    return tuple(cc(t, x) for t, x in zip(ts, v))


def cdiv(a, b):
    if isinstance(b, SymReal):
        if bool(b == 0):
            raise Unsupported('C division by zero (cdivision)')
        return a / b
    if b == 0:
        if isinstance(a, SymReal):
            raise Unsupported('C division by zero (cdivision)')
        return float(np.float64(a) / np.float64(b))
    return a / b


class CBase:
    __ctypes__ = {}

    def __setattr__(self, name, v):
        for k in type(self).__mro__:
            ct = k.__dict__.get('__ctypes__')
            if ct is not None and name in ct:
                object.__setattr__(self, name, cc(ct[name], v))
                return
        p = getattr(type(self), name, None)
        if isinstance(p, property) and p.fset is not None:
            p.fset(self, v)
            return
        raise AttributeError('%r object has no attribute %r' % (type(self).__name__, name))

    def __reduce__(self):
        raise TypeError('no default __reduce__ due to non-trivial __cinit__')


def _rounding_get():
    return core.CTX.rm if core.CTX else core.FE_NEAR


def _rounding_set(m):
    if core.CTX:
        if m not in (core.FE_NEAR, core.FE_DOWN, core.FE_UP, core.FE_ZERO):
            if isinstance(m, SymReal):
                core.CTX.rm = m
                return 0
            return 1
        core.CTX.rm = m
    return 0


def c_fabs(x):
    return abs(x) if isinstance(x, SymReal) else math.fabs(x)


def c_floor(x):
    if isinstance(x, SymReal):
        return SymReal(core.CTX.floor(x).t)
    return float(math.floor(x)) if math.isfinite(x) else x


def c_ceil(x):
    if isinstance(x, SymReal):
        return SymReal(core.CTX.ceil(x).t)
    return float(math.ceil(x)) if math.isfinite(x) else x


def _libm(name):
    def f(x):
        if isinstance(x, SymReal):
            return core.CTX.libm(name, x)
        return getattr(math, name)(x)
    f.__name__ = name
    return f


def c_fmin(a, b):
    return sym_min(a, b)


def c_fmax(a, b):
    return sym_max(a, b)


def c_sqrt(x):
    return core.CTX.sqrt(x) if isinstance(x, SymReal) else math.sqrt(x)


def c_pow(x, y):
    return x ** y


def c_isnan(x):
    return False if isinstance(x, SymReal) else math.isnan(x)


def c_isinf(x):
    return False if isinstance(x, SymReal) else math.isinf(x)


def c_isfinite(x):
    return True if isinstance(x, SymReal) else math.isfinite(x)


def c_copysign(x, y):
    if isinstance(x, SymReal) or isinstance(y, SymReal):
        m = abs(x)
        return m if bool(y >= 0) else -m
    return math.copysign(x, y)


def c_nextafter(x, y):
    if isinstance(x, SymReal) or isinstance(y, SymReal):
        return core.CTX.nextafter(x, y)
    return math.nextafter(x, y)


def c_fma(x, y, z):
    raise Unsupported('fma')


CSYMS = {
    'fegetround': _rounding_get, 'fesetround': _rounding_set,
    'FE_DOWNWARD': core.FE_DOWN, 'FE_UPWARD': core.FE_UP, 'FE_TONEAREST': core.FE_NEAR, 'FE_TOWARDZERO': core.FE_ZERO,
    'fabs': c_fabs, 'floor': c_floor, 'ceil': c_ceil, 'exp': _libm('exp'), 'log': _libm('log'), 'sin': _libm('sin'),
    'cos': _libm('cos'), 'sqrt': c_sqrt, 'pow': c_pow, 'fmin': c_fmin, 'fmax': c_fmax, 'isnan': c_isnan,
    'isinf': c_isinf, 'isfinite': c_isfinite, 'copysign': c_copysign, 'nextafter': c_nextafter,
    'nexttoward': c_nextafter, 'INFINITY': math.inf, 'NAN': math.nan, 'DBL_MAX': sys.float_info.max,
    'DBL_MIN': sys.float_info.min, 'DBL_EPSILON': sys.float_info.epsilon, 'fused_type': None, 'fma': c_fma,
    'M_PI': math.pi,
}


def extern(name, mod=None):
    if name in CSYMS:
        return CSYMS[name]

    def missing(*a):
        raise Unsupported('C symbol %s.%s' % (mod, name))
    return missing


class _CyMod:
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def deco(*a, **k):
            if len(a) == 1 and callable(a[0]) and not k:
                return a[0]
            return lambda f: f
        return deco


# ------------------------------------------------------------------------------------------- math shim
class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.__dict__.update({k: getattr(math, k) for k in dir(math) if not k.startswith('__')})
        for n in ('exp', 'log', 'sin', 'cos'):
            setattr(self, n, _libm(n))
        self.fabs = c_fabs
        self.floor = lambda x: core.CTX.floor(x) if isinstance(x, SymReal) else math.floor(x)
        self.ceil = lambda x: core.CTX.ceil(x) if isinstance(x, SymReal) else math.ceil(x)
        self.sqrt = c_sqrt
        self.isnan, self.isinf, self.isfinite = c_isnan, c_isinf, c_isfinite
        self.copysign = c_copysign
        self.nextafter = c_nextafter
        self.pow = c_pow
        self.fma = c_fma
        symb = lambda *v: any(isinstance(x, SymReal) for x in v)
        self.hypot = lambda *v: c_sqrt(sum(x * x for x in v)) if symb(*v) else math.hypot(*v)
        self.dist = lambda p, q: self.hypot(*[a - b for a, b in zip(p, q)])
        self.fsum = lambda v: (lambda v: sum(v[1:], v[0]) if symb(*v) else math.fsum(v))(list(v))
        self.isclose = lambda a, b, *, rel_tol=1e-9, abs_tol=0.0: math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol) if not symb(a, b) else \
            bool(a == b) or bool(abs(a - b) <= core.CTX.minmax([rel_tol * core.CTX.minmax([abs(a), abs(b)], True), abs_tol], True))


def sym_sorted(it, *a, **k):
    from . import npshim
    if isinstance(it, npshim.Index) and not a and not k and not it.rows:
        return builtins.sorted(it.first)
    return builtins.sorted(it, *a, **k)


# ------------------------------------------------------------------------------------------- loader
class _Methods(ast.NodeTransformer):
    """conversions of arrays of symbols: x.astype(t) becomes __astype__(x, t), x.view(t) becomes __view__(x, t)"""
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ('astype', 'view'):
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name('__%s__' % f.attr, ast.Load()), f), [f.value] + node.args, node.keywords), node)
        if isinstance(f, ast.Attribute) and f.attr in ('float64', 'double', 'round', 'min', 'max', 'clip'):
            kind = {'round': 'round', 'float64': 'f64', 'double': 'f64'}.get(f.attr, 'ends')
            name = ast.copy_location(ast.Name('__%s__' % kind, ast.Load()), f)
            return ast.copy_location(ast.Call(name, [f.value, ast.copy_location(ast.Constant(f.attr), f)] + node.args, node.keywords), node)
        return node


def _f64(owner, attr, *a, **k):
    from . import npshim
    if core.CTX is not None and len(a) == 1 and not k and isinstance(owner, npshim.NPShim) and npshim.hassym(a[0]):
        return owner.f64(a[0])
    return getattr(owner, attr)(*a, **k)


def _ends(owner, attr, *a, **k):
    from . import npshim
    if core.CTX is not None and isinstance(owner, np.ndarray) and (npshim.hassym(owner) or npshim.hassym(a)):
        if attr == 'clip':
            return npshim.NPShim().np_clip(owner, *a, **k)
        return npshim.NPShim()._minmax(owner, attr == 'max', *a, **k)
    return getattr(owner, attr)(*a, **k)


def _round(owner, attr, *a, **k):
    from . import npshim
    if core.CTX is not None and isinstance(owner, np.ndarray) and npshim.hassym(owner):
        return npshim.NPShim().np_around(owner, *a, **k)
    return getattr(owner, attr)(*a, **k)


def _astype(x, *a, **k):
    from . import npshim
    if isinstance(x, np.ndarray) and core.CTX is not None and npshim.hassym(x):
        return npshim.NPShim().np_array(x, *a, **{n: v for n, v in k.items() if n == 'dtype'})
    return x.astype(*a, **k)


def _view(x, *a, **k):
    from . import npshim
    if isinstance(x, np.ndarray) and core.CTX is not None and x.dtype == object and a and isinstance(a[0], list):
        if x.ndim != 2 or len(a[0]) != x.shape[1]:
            raise core.Unsupported('view of an array of symbols')
        return npshim.Rows(x)
    return x.view(*a, **k)


class Stub(types.ModuleType):
    """a package that plays no role in the property: any attribute is another stub"""
    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        s = Stub(self.__name__ + '.' + n)
        setattr(self, n, s)
        return s

    def __call__(self, *a, **k):
        raise Unsupported('call of ' + self.__name__)

    def __setitem__(self, k, v):
        pass

    def __getitem__(self, k):
        return None

    def __instancecheck__(self, o):
        return False


_CODE = {}


class Loader:
    def __init__(self, repo=None, overrides=None):
        from . import npshim, pd
        self.repo = repo or REPO
        self.modules = {}
        self.sources = {}
        self.np = npshim.NPShim()
        self.math = MathShim()
        self.stubs = {}
        self.pyx_functions = []
        for n in ('cvxopt', 'pandas', 'matplotlib', 'mpmath', 'scipy'):
            self.stubs[n] = Stub(n)
        self.stubs['mpmath'].mp = types.SimpleNamespace(dps=36)
        self.stubs['mpmath'].mpf = type('mpf', (), {})
        self.stubs['cvxopt'].matrix = type('matrix', (), {})
        self.stubs['cvxopt'].solvers = Stub('cvxopt.solvers')
        self.stubs['cvxopt'].solvers.options = {}
        self.stubs['pandas'].DataFrame = pd.DataFrame
        if overrides:
            self.stubs.update(overrides)
        self.builtins = dict(vars(builtins))
        self.builtins.update({
            'isinstance': sym_isinstance, 'float': sym_float, 'int': sym_int, 'min': sym_min, 'max': sym_max,
            'round': sym_round, 'pow': sym_pow, 'type': self._type_shim(), '__import__': self._import,
            'print': lambda *a, **k: None, 'sorted': sym_sorted,
        })

    def _type_shim(self):
        return sym_type

    # -------------------------------------------------------------- import machinery
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals['__package__']
            parts = pkg.split('.')
            base = parts[:len(parts) - (level - 1)]
            full = '.'.join(base + ([name] if name else []))
            m = self.load(full)
            if fromlist:
                self._fromlist(m, full, fromlist)
                return m
            return m
        top = name.split('.')[0]
        if top == 'intvalpy':
            m = self.load(name)
            if fromlist:
                self._fromlist(m, name, fromlist)
                return m
            return self.modules['intvalpy']
        if top == 'numpy':
            if name == 'numpy' or not fromlist:
                return self.np
            m = self.np
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            return m
        if name == 'math':
            return self.math
        if top in self.stubs:
            m = self.stubs[top]
            if fromlist and '.' in name:
                for p in name.split('.')[1:]:
                    m = getattr(m, p)
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _fromlist(self, m, full, fromlist):
        for n in fromlist:
            if n != '*' and not hasattr(m, n):
                try:
                    self.load(full + '.' + n)
                except ModuleNotFoundError:
                    pass

    def _find(self, full):
        p = os.path.join(self.repo, *full.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.pyx'):
            return p + '.pyx', False
        if os.path.exists(p + '.py'):
            return p + '.py', False
        raise ModuleNotFoundError(full)

    def load(self, full):
        if full in self.modules:
            return self.modules[full]
        if '.' in full:
            self.load(full.rsplit('.', 1)[0])
            if full in self.modules:
                return self.modules[full]
        if (self.repo, full) not in _CODE:
            path, ispkg = self._find(full)
            with open(path, encoding='utf-8-sig') as f:
                src = f.read()
            functions = []
            if path.endswith('.pyx'):
                tree, tr = pyx.translate(src)
                functions = tr.functions
            else:
                tree = ast.parse(src, path)
            code = compile(_Methods().visit(tree), path, 'exec')
            _CODE[self.repo, full] = (path, ispkg, hashlib.sha256(src.encode()).hexdigest()[:16], code, functions)
        path, ispkg, digest, code, functions = _CODE[self.repo, full]
        self.sources[path] = digest
        self.pyx_functions += functions
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if ispkg else full.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__astype__'] = _astype
        m.__dict__['__view__'] = _view
        m.__dict__['__f64__'] = _f64
        m.__dict__['__round__'] = _round
        m.__dict__['__ends__'] = _ends
        self.modules[full] = m
        if path.endswith('.pyx'):
            m.__dict__.update({'__cc__': cc, '__ctuple__': ctuple, '__cdiv__': cdiv, '__extern__': extern,
                               '__cimport__': lambda n: _CyMod(), '__CBase__': CBase})
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(full, None)
            raise
        if '.' in full:
            par, _, leaf = full.rpartition('.')
            setattr(self.modules[par], leaf, m)
        return m


def load_package(repo=None, overrides=None):
    L = Loader(repo, overrides)
    L.load('intvalpy')
    return L
