"""Cython (.pyx) -> Python ast.  Parses with the real Cython parser of the build environment and
rewrites the tree to plain Python: cdef classes become classes, cdef functions become functions, C typed
variables get an explicit coercion (__cc__('double', value)) at every assignment, argument and return.
Anything that has no faithful Python counterpart raises Untranslatable (never silently dropped)."""
import ast
import warnings


class Untranslatable(Exception):
    pass


_CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq,
        'in': ast.In, 'not_in': ast.NotIn, 'is': ast.Is, 'is_not': ast.IsNot}
_BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod,
        '**': ast.Pow, '@': ast.MatMult, '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor,
        '<<': ast.LShift, '>>': ast.RShift}
_UN = {'-': ast.USub, '+': ast.UAdd, '~': ast.Invert, '!': ast.Not}

REALS = {'double', 'float', 'long double'}
INTS = {'int', 'long', 'short', 'char', 'long long', 'size_t', 'Py_ssize_t', 'unsigned', 'unsigned int'}


def parse(src):
    from Cython.Compiler.TreeFragment import parse_from_strings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from Cython.Compiler import Errors
        Errors.init_thread()
        return parse_from_strings('pyxmod', src)


def N(name, ctx=None):
    return ast.Name(id=name, ctx=ctx or ast.Load())


def C(v):
    return ast.Constant(value=v)


def call(f, *args):
    return ast.Call(func=N(f) if isinstance(f, str) else f, args=list(args), keywords=[])


class Scope:
    def __init__(self, kind, parent=None):
        self.kind = kind            # module / class / func
        self.parent = parent
        self.types = {}
        self.globals = set()
        self.ret = None
        self.cdiv = parent.cdiv if parent else False

    def lookup(self, name):
        s = self
        while s is not None:
            if name in s.types and (s is self or s.kind != 'class'):
                return s.types[name]
            s = s.parent
        return None


class Translator:
    def __init__(self):
        self.typedefs = {}
        self.classes = set()
        self.scope = None
        self.externs = []
        self.functions = []       # names of the functions translated
        self.qual = []

    # ---------------------------------------------------------------- types
    def tname(self, bt):
        k = type(bt).__name__
        if k == 'CSimpleBaseTypeNode':
            n = bt.name
            if n is None:
                return None
            if bt.longness and n == 'int':
                n = 'long'
            n = self.typedefs.get(n, n)
            if n in REALS:
                return 'double' if n != 'float' else 'cfloat'
            if n == 'bint':
                return 'bint'
            if n in INTS or bt.is_basic_c_type and n not in ('void', 'object'):
                return 'int'
            return None
        if k in ('CConstTypeNode', 'CConstOrVolatileTypeNode'):
            return self.tname(bt.base_type)
        if k in ('CComplexBaseTypeNode',):
            return self.tname(bt.base_type)
        return None

    def decl(self, d):
        """-> (name, wrappers, default) ; wrappers: list of 'ptr'/'arr:<node>'/'func'"""
        wr = []
        default = getattr(d, 'default', None)
        while True:
            k = type(d).__name__
            if k == 'CNameDeclaratorNode':
                if default is None:
                    default = d.default
                return d.name, wr, default
            if k == 'CArrayDeclaratorNode':
                wr.append(('arr', d.dimension))
            elif k == 'CPtrDeclaratorNode':
                wr.append(('ptr', None))
            elif k == 'CFuncDeclaratorNode':
                wr.append(('func', d))
            elif k == 'CReferenceDeclaratorNode':
                wr.append(('ref', None))
            else:
                raise Untranslatable('declarator ' + k)
            d = d.base
            if default is None:
                default = getattr(d, 'default', None)

    def coerce(self, t, e):
        if t is None:
            return e
        return call('__cc__', C(t), e)

    # ---------------------------------------------------------------- module
    def module(self, tree):
        self.scope = Scope('module')
        dirs = getattr(tree, 'directive_comments', {}) or {}
        if dirs.get('cdivision'):
            self.scope.cdiv = True
        self.predeclare(tree.body)
        body = self.stmts(tree.body)
        # extension types and cdef functions exist before the module body runs
        imp = (ast.Import, ast.ImportFrom)
        isext = lambda st: isinstance(st, imp) or (isinstance(st, ast.Assign) and isinstance(st.value, ast.Call)
                and isinstance(st.value.func, ast.Name) and st.value.func.id in ('__extern__', '__cimport__'))
        isdef = lambda st: isinstance(st, (ast.FunctionDef, ast.ClassDef))
        body = ([st for st in body if isext(st)] + [st for st in body if isdef(st)]
                + [st for st in body if not isext(st) and not isdef(st)])
        m = ast.Module(body=body, type_ignores=[])
        for n in ast.walk(m):
            for f in n._fields:
                v = getattr(n, f, None)
                if isinstance(v, str) and type(v) is not str:
                    setattr(n, f, ''.join(v))
                elif isinstance(v, list):
                    setattr(n, f, [''.join(x) if isinstance(x, str) and type(x) is not str else x for x in v])
        ast.fix_missing_locations(m)
        return m

    def predeclare(self, node):
        for s in self.flat(node):
            if type(s).__name__ == 'CClassDefNode':
                self.classes.add(s.class_name)
            elif type(s).__name__ == 'CTypeDefNode':
                n, wr, _ = self.decl(s.declarator)
                if not wr and type(s.base_type).__name__ == 'CSimpleBaseTypeNode' and s.base_type.name:
                    b = s.base_type.name
                    self.typedefs[n] = self.typedefs.get(b, b)

    def flat(self, node):
        if node is None:
            return
        if type(node).__name__ == 'StatListNode':
            for s in node.stats:
                yield from self.flat(s)
        else:
            yield node

    def stmts(self, node):
        out = []
        for s in self.flat(node):
            r = getattr(self, 's_' + type(s).__name__, None)
            if r is None:
                raise Untranslatable('statement %s at %s' % (type(s).__name__, s.pos[1:]))
            x = r(s)
            if x is None:
                continue
            new = x if isinstance(x, list) else [x]
            line = s.pos[1] if s.pos else 1
            for st in new:
                for sub in ast.walk(st):
                    if not hasattr(sub, 'lineno') and isinstance(sub, (ast.stmt, ast.expr, ast.excepthandler)):
                        sub.lineno = line
                        sub.col_offset = 0
                        sub.end_lineno = line
                        sub.end_col_offset = 0
            out += new
        return out

    def block(self, node):
        return self.stmts(node) or [ast.Pass()]

    # ---------------------------------------------------------------- declarations
    def s_CTypeDefNode(self, s):
        return None

    def s_FusedTypeNode(self, s):
        return None

    def s_CDefExternNode(self, s):
        for d in self.flat(s.body):
            k = type(d).__name__
            if k == 'CVarDefNode':
                for dd in d.declarators:
                    self.externs.append(self.decl(dd)[0])
            elif k == 'CEnumDefNode':
                for it in d.items:
                    self.externs.append(it.name)
            elif k in ('PassStatNode', 'CTypeDefNode', 'CStructOrUnionDefNode'):
                pass
            else:
                raise Untranslatable('extern ' + k)
        return [ast.Assign(targets=[N(n, ast.Store())], value=call('__extern__', C(n))) for n in self.externs]

    def s_CImportStatNode(self, s):
        as_ = s.as_name or s.module_name.split('.')[0]
        return ast.Assign(targets=[N(as_, ast.Store())], value=call('__cimport__', C(s.module_name)))

    def s_FromCImportStatNode(self, s):
        out = []
        for it in s.imported_names:
            name, as_ = it[1], it[2]
            out.append(ast.Assign(targets=[N(as_ or name, ast.Store())],
                                  value=call('__extern__', C(name), C(s.module_name))))
        return out

    def s_CVarDefNode(self, s):
        t0 = self.tname(s.base_type)
        out = []
        for d in s.declarators:
            name, wr, default = self.decl(d)
            t = t0
            if wr and wr[0][0] == 'func':
                continue                       # forward declaration
            init = None
            if wr:
                if len(wr) == 1 and wr[0][0] == 'arr':
                    t = None
                    z = {'double': 0.0, 'int': 0, 'bint': False}.get(t0)
                    init = ast.BinOp(left=ast.List(elts=[C(z)], ctx=ast.Load()), op=ast.Mult(),
                                     right=self.e(wr[0][1]))
                else:
                    raise Untranslatable('pointer declaration of %s' % name)
            self.scope.types[name] = t
            if default is not None:
                init = self.coerce(t, self.e(default))
            if init is None and self.scope.kind in ('class', 'module'):
                init = C({'double': 0.0, 'int': 0, 'bint': False}.get(t))
            if init is not None:
                out.append(ast.Assign(targets=[N(name, ast.Store())], value=init))
        return out

    def s_CClassDefNode(self, s):
        bases = []
        if s.bases is not None:
            bases = [self.e(a) for a in s.bases.args]
        elif getattr(s, 'base_class_name', None):
            bases = [N(s.base_class_name)]
        sc = Scope('class', self.scope)
        self.scope = sc
        self.qual.append(s.class_name)
        body = self.stmts(s.body)
        self.qual.pop()
        self.scope = sc.parent
        body.insert(0, ast.Assign(targets=[N('__ctypes__', ast.Store())],
                                  value=ast.Dict(keys=[C(k) for k in sc.types],
                                                 values=[C(v) for v in sc.types.values()])))
        if not bases:
            bases = [N('__CBase__')]
        decos = [self.e(d.decorator) for d in (s.decorators or [])]
        return ast.ClassDef(name=s.class_name, bases=bases, keywords=[], body=body, decorator_list=decos,
                            type_params=[])

    def s_PyClassDefNode(self, s):
        sc = Scope('class', self.scope)
        self.scope = sc
        self.qual.append(s.name)
        body = self.stmts(s.body)
        self.qual.pop()
        self.scope = sc.parent
        bases = [self.e(a) for a in s.bases.args] if s.bases is not None else []
        decos = [self.e(d.decorator) for d in (s.decorators or [])]
        return ast.ClassDef(name=s.name, bases=bases, keywords=[], body=body or [ast.Pass()],
                            decorator_list=decos, type_params=[])

    def func(self, name, args, star, starstar, body, decos, ret, doc=None, nkw=0):
        sc = Scope('func', self.scope)
        sc.ret = ret
        for d in decos:
            t = d.decorator
            if type(t).__name__ in ('SimpleCallNode', 'GeneralCallNode') and \
                    getattr(t.function, 'attribute', getattr(t.function, 'name', '')) == 'cdivision':
                try:
                    sc.cdiv = bool(t.args[0].value)
                except Exception:
                    raise Untranslatable('cdivision decorator')
        pre, pos, defaults, kwonly, kwdef = [], [], [], [], []
        for i, a in enumerate(args):
            n, wr, default = self.decl(a.declarator)
            t = self.tname(a.base_type)
            if not n:            # untyped argument: parsed as a type name
                n = a.base_type.name
                t = None
            if wr:
                raise Untranslatable('pointer/array argument %s of %s' % (n, name))
            default = a.default if a.default is not None else default
            sc.types[n] = t
            if t:
                pre.append(ast.Assign(targets=[N(n, ast.Store())], value=self.coerce(t, N(n))))
            if getattr(a, 'kw_only', False):
                kwonly.append(ast.arg(arg=n))
                kwdef.append(self.e(default) if default is not None else None)
            else:
                pos.append(ast.arg(arg=n))
                if default is not None:
                    defaults.append(self.e(default))
        fa = ast.arguments(posonlyargs=[], args=pos, vararg=ast.arg(arg=star.name) if star else None,
                           kwonlyargs=kwonly, kw_defaults=kwdef,
                           kwarg=ast.arg(arg=starstar.name) if starstar else None, defaults=defaults)
        self.scope = sc
        self.qual.append(name)
        self.functions.append('.'.join(self.qual))
        # a local declared anywhere in the function is typed everywhere in it
        self.collect(body)
        b = pre + self.block(body)
        self.qual.pop()
        self.scope = sc.parent
        out = ast.FunctionDef(name=name, args=fa, body=b,
                              decorator_list=[self.e(d.decorator) for d in decos], returns=None, type_params=[])
        return out

    def collect(self, body):
        for s in self.flat(body):
            if type(s).__name__ == 'CVarDefNode':
                t0 = self.tname(s.base_type)
                for d in s.declarators:
                    name, wr, _ = self.decl(d)
                    if not wr:
                        self.scope.types[name] = t0

    def s_DefNode(self, s):
        name = s.name
        if name == '__cinit__':
            name = '__init__'
        return self.func(name, s.args, s.star_arg, s.starstar_arg, s.body, s.decorators or [], None)

    def s_CFuncDefNode(self, s):
        d = s.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        name = d.base.name
        ret = self.tname(s.base_type)
        f = self.func(name, d.args, None, None, s.body, s.decorators or [], ret)
        if ret:     # falling off the end of a C function returns 0
            f.body.append(ast.Return(value=C({'double': 0.0, 'int': 0, 'bint': False}.get(ret))))
        return f

    def s_PropertyNode(self, s):
        raise Untranslatable('property block')

    # ---------------------------------------------------------------- statements
    def s_PassStatNode(self, s):
        return ast.Pass()

    def s_ExprStatNode(self, s):
        return ast.Expr(value=self.e(s.expr))

    def target(self, t):
        e = self.e(t)
        for x in [e] + (list(ast.walk(e)) if isinstance(e, (ast.Tuple, ast.List)) else []):
            if hasattr(x, 'ctx') and (x is e or isinstance(e, (ast.Tuple, ast.List)) and x in getattr(e, 'elts', [])):
                x.ctx = ast.Store()
        if isinstance(e, (ast.Tuple, ast.List)):
            self._store(e)
        return e

    def _store(self, e):
        e.ctx = ast.Store()
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                self._store(x.value if isinstance(x, ast.Starred) else x)

    def ttype(self, t):
        if type(t).__name__ == 'NameNode':
            return self.scope.lookup(t.name) if t.name not in self.scope.globals else None
        return None

    def assign(self, lhs, val):
        k = type(lhs).__name__
        if k in ('TupleNode', 'ListNode'):
            ts = [self.ttype(a) for a in lhs.args]
            if any(ts):
                if isinstance(val, (ast.Tuple, ast.List)) and len(val.elts) == len(ts):
                    val = ast.Tuple(elts=[self.coerce(t, v) for t, v in zip(ts, val.elts)], ctx=ast.Load())
                else:
                    val = call('__ctuple__', ast.Tuple(elts=[C(t) for t in ts], ctx=ast.Load()), val)
            return ast.Assign(targets=[self.target(lhs)], value=val)
        return ast.Assign(targets=[self.target(lhs)], value=self.coerce(self.ttype(lhs), val))

    def s_SingleAssignmentNode(self, s):
        k = type(s.rhs).__name__
        if k == 'ImportNode':
            mod = str(s.rhs.module_name.value)
            if s.rhs.imported_names is None and not (s.rhs.level and s.rhs.level > 0):
                lname = str(s.lhs.name)
                return ast.Import(names=[ast.alias(name=mod, asname=None if lname == mod.split('.')[0] else lname)])
            raise Untranslatable('import form')
        return self.assign(s.lhs, self.e(s.rhs))

    def s_FromImportStatNode(self, s):
        mod = s.module.module_name.value
        names = []
        for item in s.items:
            name, target = item[0], item[1]
            tn = getattr(target, 'name', None) or name
            names.append(ast.alias(name=str(name), asname=None if str(tn) == str(name) else str(tn)))
        lvl = s.module.level
        return ast.ImportFrom(module=str(mod) or None, names=names, level=lvl if lvl and lvl > 0 else 0)

    def s_CascadedAssignmentNode(self, s):
        tmp = '__tmp%d' % s.pos[1]
        out = [ast.Assign(targets=[N(tmp, ast.Store())], value=self.e(s.rhs))]
        for l in s.lhs_list:
            out.append(self.assign(l, N(tmp)))
        return out

    def s_ParallelAssignmentNode(self, s):
        # a, b = x, y  already split by the parser
        out, tmps = [], []
        for i, st in enumerate(s.stats):
            tmp = '__p%d_%d' % (s.pos[1], i)
            out.append(ast.Assign(targets=[N(tmp, ast.Store())], value=self.e(st.rhs)))
            tmps.append((st.lhs, tmp))
        for lhs, tmp in tmps:
            out.append(self.assign(lhs, N(tmp)))
        return out

    def s_InPlaceAssignmentNode(self, s):
        t = self.ttype(s.lhs)
        if t:
            return ast.Assign(targets=[self.target(s.lhs)],
                              value=self.coerce(t, self.binop(s.operator, s.lhs, s.rhs)))
        return ast.AugAssign(target=self.target(s.lhs), op=_BIN[s.operator](), value=self.e(s.rhs))

    def s_DelStatNode(self, s):
        ts = []
        for a in s.args:
            e = self.e(a)
            e.ctx = ast.Del()
            ts.append(e)
        return ast.Delete(targets=ts)

    def s_ReturnStatNode(self, s):
        if s.value is None:
            return ast.Return(value=None)
        sc = self.scope
        return ast.Return(value=self.coerce(sc.ret, self.e(s.value)))

    def s_RaiseStatNode(self, s):
        exc = self.e(s.exc_type) if s.exc_type is not None else None
        if s.exc_value is not None:
            exc = call(exc, self.e(s.exc_value))
        return ast.Raise(exc=exc, cause=self.e(s.cause) if getattr(s, 'cause', None) is not None else None)

    def s_ReraiseStatNode(self, s):
        return ast.Raise(exc=None, cause=None)

    def s_AssertStatNode(self, s):
        cond = getattr(s, 'condition', None) or getattr(s, 'cond', None)
        msg = None
        if getattr(s, 'value', None) is not None:
            msg = self.e(s.value)
        elif getattr(s, 'exception', None) is not None:
            v = getattr(s.exception, 'exc_value', None)
            msg = self.e(v) if v is not None else None
        return ast.Assert(test=self.e(cond), msg=msg)

    def s_IfStatNode(self, s):
        orelse = self.block(s.else_clause) if s.else_clause is not None else []
        for c in reversed(s.if_clauses):
            node = ast.If(test=self.e(c.condition), body=self.block(c.body), orelse=orelse)
            orelse = [node]
        return node

    def s_WhileStatNode(self, s):
        return ast.While(test=self.e(s.condition), body=self.block(s.body),
                         orelse=self.block(s.else_clause) if s.else_clause is not None else [])

    def s_ForInStatNode(self, s):
        tgt = self.target(s.target)
        body = self.block(s.body)
        t = self.ttype(s.target)
        if t == 'double':
            body = [ast.Assign(targets=[self.target(s.target)], value=self.coerce(t, self.e(s.target)))] + body
        return ast.For(target=tgt, iter=self.e(s.iterator.sequence), body=body,
                       orelse=self.block(s.else_clause) if s.else_clause is not None else [])

    def s_BreakStatNode(self, s):
        return ast.Break()

    def s_ContinueStatNode(self, s):
        return ast.Continue()

    def s_GlobalNode(self, s):
        self.scope.globals |= set(s.names)
        return ast.Global(names=list(s.names))

    def s_NonlocalNode(self, s):
        return ast.Nonlocal(names=list(s.names))

    def s_WithStatNode(self, s):
        body = s.body
        # the parser wraps the body: unwrap the helper nodes
        k = type(body).__name__
        tgt = self.target(s.target) if s.target is not None else None
        return ast.With(items=[ast.withitem(context_expr=self.e(s.manager), optional_vars=tgt)],
                        body=self.block(body))

    def s_GILStatNode(self, s):
        return self.block(s.body)

    def s_TryExceptStatNode(self, s):
        hs = []
        for c in s.except_clauses:
            typ = None
            if c.pattern is not None:
                ps = c.pattern if isinstance(c.pattern, list) else [c.pattern]
                ps = [self.e(p) for p in ps]
                typ = ps[0] if len(ps) == 1 else ast.Tuple(elts=ps, ctx=ast.Load())
            name = c.target.name if c.target is not None else None
            hs.append(ast.ExceptHandler(type=typ, name=name, body=self.block(c.body)))
        return ast.Try(body=self.block(s.body), handlers=hs,
                       orelse=self.block(s.else_clause) if s.else_clause is not None else [], finalbody=[])

    def s_TryFinallyStatNode(self, s):
        return ast.Try(body=self.block(s.body), handlers=[], orelse=[], finalbody=self.block(s.finally_clause))

    # ---------------------------------------------------------------- expressions
    def e(self, n):
        r = getattr(self, 'e_' + type(n).__name__, None)
        if r is None:
            for b in type(n).__mro__[1:]:
                r = getattr(self, 'e_' + b.__name__, None)
                if r is not None:
                    break
        if r is None:
            raise Untranslatable('expression %s at %s' % (type(n).__name__, n.pos[1:] if n.pos else '?'))
        x = r(n)
        if n.pos and not hasattr(x, 'lineno'):
            x.lineno = n.pos[1]
            x.col_offset = 0
            x.end_lineno = n.pos[1]
            x.end_col_offset = 0
        return x

    def e_IntNode(self, n):
        return C(int(n.value.replace('_', ''), 0) if not n.value.startswith('0') or len(n.value) == 1 or
                 n.value[1] in 'xXoObB' else int(n.value))

    def e_FloatNode(self, n):
        return C(float(n.value))

    def e_ImagNode(self, n):
        return C(complex(0, float(n.value)))

    def e_NoneNode(self, n):
        return C(None)

    def e_BoolNode(self, n):
        return C(bool(n.value))

    def e_UnicodeNode(self, n):
        return C(str(n.value))

    def e_BytesNode(self, n):
        return C(bytes(n.value, 'latin1') if isinstance(n.value, str) else bytes(n.value))

    def e_StringNode(self, n):
        return C(str(n.value))

    def e_EllipsisNode(self, n):
        return C(...)

    def e_NullNode(self, n):
        return C(None)

    def e_NameNode(self, n):
        return N(n.name)

    def e_AttributeNode(self, n):
        return ast.Attribute(value=self.e(n.obj), attr=n.attribute, ctx=ast.Load())

    def e_TupleNode(self, n):
        return ast.Tuple(elts=[self.e(a) for a in n.args], ctx=ast.Load())

    def e_ListNode(self, n):
        return ast.List(elts=[self.e(a) for a in n.args], ctx=ast.Load())

    def e_SetNode(self, n):
        return ast.Set(elts=[self.e(a) for a in n.args])

    def e_DictNode(self, n):
        return ast.Dict(keys=[self.e(i.key) for i in n.key_value_pairs],
                        values=[self.e(i.value) for i in n.key_value_pairs])

    def e_StarredUnpackingNode(self, n):
        return ast.Starred(value=self.e(n.target), ctx=ast.Load())

    def e_NotNode(self, n):
        return ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand))

    def e_UnopNode(self, n):
        return ast.UnaryOp(op=_UN[n.operator](), operand=self.e(n.operand))

    def is_c(self, n):
        k = type(n).__name__
        if k in ('FloatNode', 'IntNode', 'TypecastNode'):
            return True
        if k == 'NameNode':
            return self.scope.lookup(n.name) in ('double', 'int')
        if hasattr(n, 'operand1'):
            return self.is_c(n.operand1) and self.is_c(n.operand2)
        if hasattr(n, 'operand'):
            return self.is_c(n.operand)
        return False

    def binop(self, op, a, b):
        if op == '/' and self.scope.cdiv and self.is_c(a) and self.is_c(b):
            return call('__cdiv__', self.e(a), self.e(b))
        if op not in _BIN:
            raise Untranslatable('operator ' + op)
        return ast.BinOp(left=self.e(a), op=_BIN[op](), right=self.e(b))

    def e_BinopNode(self, n):
        return self.binop(n.operator, n.operand1, n.operand2)

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(op=ast.And() if n.operator == 'and' else ast.Or(),
                          values=[self.e(n.operand1), self.e(n.operand2)])

    def e_PrimaryCmpNode(self, n):
        ops, comps = [_CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(_CMP[c.operator]())
            comps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.e(n.operand1), ops=ops, comparators=comps)

    def e_CondExprNode(self, n):
        cond = getattr(n, 'condition', None) or n.test
        return ast.IfExp(test=self.e(cond), body=self.e(n.true_val), orelse=self.e(n.false_val))

    def e_IndexNode(self, n):
        return ast.Subscript(value=self.e(n.base), slice=self.e(n.index), ctx=ast.Load())

    def e_SliceIndexNode(self, n):
        if n.slice is not None:
            return ast.Subscript(value=self.e(n.base), slice=self.e(n.slice), ctx=ast.Load())
        return ast.Subscript(value=self.e(n.base), slice=ast.Slice(
            lower=self.e(n.start) if n.start is not None else None,
            upper=self.e(n.stop) if n.stop is not None else None, step=None), ctx=ast.Load())

    def e_SliceNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        return ast.Slice(lower=f(n.start), upper=f(n.stop), step=f(n.step))

    def e_SimpleCallNode(self, n):
        return ast.Call(func=self.e(n.function), args=[self.e(a) for a in n.args], keywords=[])

    def posargs(self, n):
        k = type(n).__name__
        if n is None:
            return []
        if k == 'TupleNode':
            return [self.e(a) for a in n.args]
        if k == 'AsTupleNode':
            return [ast.Starred(value=self.e(n.arg), ctx=ast.Load())]
        if k == 'AddNode':
            return self.posargs(n.operand1) + self.posargs(n.operand2)
        if k == 'MergedSequenceNode':
            out = []
            for a in n.args:
                out += self.posargs(a)
            return out
        return [ast.Starred(value=self.e(n), ctx=ast.Load())]

    def kwargs(self, n):
        k = type(n).__name__
        if n is None:
            return []
        if k == 'DictNode':
            return [ast.keyword(arg=str(i.key.value), value=self.e(i.value)) for i in n.key_value_pairs]
        if k == 'MergedDictNode':
            out = []
            for a in n.keyword_args:
                out += self.kwargs(a)
            return out
        return [ast.keyword(arg=None, value=self.e(n))]

    def e_GeneralCallNode(self, n):
        return ast.Call(func=self.e(n.function), args=self.posargs(n.positional_args),
                        keywords=self.kwargs(n.keyword_args))

    def e_AsTupleNode(self, n):
        return call('tuple', self.e(n.arg))

    def e_MergedSequenceNode(self, n):
        return ast.List(elts=self.posargs(n), ctx=ast.Load())

    def e_TypecastNode(self, n):
        return self.coerce(self.tname(n.base_type), self.e(n.operand))

    def e_JoinedStrNode(self, n):
        return ast.JoinedStr(values=[self.e(v) if type(v).__name__ == 'FormattedValueNode'
                                     else C(str(v.value)) for v in n.values])

    def e_FormattedValueNode(self, n):
        fs = None
        if n.format_spec is not None:
            f = self.e(n.format_spec)
            fs = f if isinstance(f, ast.JoinedStr) else ast.JoinedStr(values=[f])
        conv = {'s': 115, 'r': 114, 'a': 97}.get(n.conversion_char, -1)
        return ast.FormattedValue(value=self.e(n.value), conversion=conv, format_spec=fs)

    def lam(self, n):
        d = n.def_node if getattr(n, 'def_node', None) is not None else None
        args = n.args
        sc = Scope('func', self.scope)
        pos, defaults = [], []
        for a in args:
            nm, wr, default = self.decl(a.declarator)
            if not nm:
                nm = a.base_type.name
            sc.types[nm] = None
            pos.append(ast.arg(arg=nm))
            dflt = a.default if a.default is not None else default
            if dflt is not None:
                defaults.append(self.e(dflt))
        self.scope = sc
        body = self.e(n.result_expr)
        self.scope = sc.parent
        return ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=pos, vararg=ast.arg(arg=n.star_arg.name) if n.star_arg else None,
            kwonlyargs=[], kw_defaults=[], kwarg=ast.arg(arg=n.starstar_arg.name) if n.starstar_arg else None,
            defaults=defaults), body=body)

    def e_LambdaNode(self, n):
        return self.lam(n)

    def comp_parts(self, loop):
        gens = []
        node = loop
        while True:
            k = type(node).__name__
            if k == 'ForInStatNode':
                gens.append(ast.comprehension(target=self.target(node.target), iter=self.e(node.iterator.sequence),
                                              ifs=[], is_async=0))
                node = node.body
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.e(node.if_clauses[0].condition))
                node = node.if_clauses[0].body
            elif k == 'StatListNode' and len(node.stats) == 1:
                node = node.stats[0]
            else:
                return gens, node

    def e_ComprehensionNode(self, n):
        gens, body = self.comp_parts(n.loop)
        k = type(body).__name__
        if k == 'DictComprehensionAppendNode':
            return ast.DictComp(key=self.e(body.key_expr), value=self.e(body.value_expr), generators=gens)
        t = n.type.py_type_name() if getattr(n, 'type', None) is not None else 'list'
        cls = ast.SetComp if t == 'set' else ast.ListComp
        return cls(elt=self.e(body.expr), generators=gens)

    def e_GeneratorExpressionNode(self, n):
        gens, body = self.comp_parts(n.loop)
        k = type(body).__name__
        if k == 'ExprStatNode':
            body = body.expr
        return ast.GeneratorExp(elt=self.e(body.arg), generators=gens)

    def e_InlinedGeneratorExpressionNode(self, n):
        return self.e(n.gen)

    def e_AssignmentExpressionNode(self, n):
        raise Untranslatable('walrus')


def translate(src):
    t = Translator()
    return t.module(parse(src)), t


if __name__ == '__main__':
    import sys
    m, t = translate(open(sys.argv[1]).read())
    print(ast.unparse(m))
