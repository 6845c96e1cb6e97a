"""Evaluator for the ASTs of the real functions in /repo.

The function objects, classes, MROs, properties, closures and module globals are
the live ones; only the *bodies* of functions that belong to the package under
verification are evaluated here, statement by statement, from the AST of the
file the function object was loaded from.  Everything else is called natively
(or through a model in models.py when symbolic values are involved).
"""
import ast
import contextlib
import builtins
import functools
import operator
import types
import os
from . import sym
from .attrs import attrs, has_attrs
from .sym import (Unsupported, PyExc, Poison, raised, SymInt, SymBool, SymFloat, SymBytes, SymStr, SymText,
                  Seg, CStruct, InBuf, OutBuf, is_sym, has_sym, mk_bool, to_z3bool)
from .engine import Engine

_FILES = {}


def _file_nodes(path):
    ent = _FILES.get(path)
    if ent is None:
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        m = {}

        def visit(node, cls):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    ln = ch.decorator_list[0].lineno if ch.decorator_list else ch.lineno
                    m[(ln, ch.name)] = ch
                elif isinstance(ch, ast.Lambda):
                    m.setdefault((ch.lineno, '<lambda>'), []).append(ch)
                visit(ch, cls)
        visit(tree, None)
        ent = _FILES[path] = m
    return ent


def func_node(f):
    """AST of a live function object (None if unavailable)"""
    code = f.__code__
    try:
        nodes = _file_nodes(code.co_filename)
    except (OSError, SyntaxError):
        return None
    n = nodes.get((code.co_firstlineno, code.co_name))
    if isinstance(n, list):
        return n[0] if len(n) == 1 else None
    return n


class Sig:          # control-flow signals
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


BREAK, CONTINUE = Sig('break'), Sig('continue')
_UNSET = object()


def assigned_names(body, args=None):
    """names bound in a function body (not descending into nested scopes)"""
    names, glob, nonl = set(), set(), set()

    def targets(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, (ast.Lambda,)):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    targets(c.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            targets(n.target)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            targets(n.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    if args is not None:
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            names.add(a.arg)
        if args.vararg:
            names.add(args.vararg.arg)
        if args.kwarg:
            names.add(args.kwarg.arg)
    return names - glob - nonl, glob, nonl


class Frame:
    __slots__ = ('locals', 'names', 'globals', 'parent', 'cells', 'func', 'cls', 'first', 'globnames',
                 'nonlocals', 'isclass', 'label', 'emit', 'serial')
    count = 0

    def __init__(self, globals_, names, parent=None, cells=None, label=''):
        self.locals = {}
        self.names = names
        self.globals = globals_
        self.parent = parent
        self.cells = cells or {}
        self.cls = _UNSET
        self.first = _UNSET
        self.globnames = ()
        self.nonlocals = ()
        self.isclass = False
        self.label = label
        self.emit = None            # where a generator's values go
        Frame.count += 1
        self.serial = Frame.count


class GenStop(Exception):
    """the consumer of a generator leaves its loop"""

    def __init__(self, gen, sig):
        self.gen, self.sig = gen, sig


class Gen:
    """a generator: run(emit) executes it, handing each value to emit at the point
    where it is produced, so that its effects and its consumer's interleave as they do"""

    def __init__(self, interp, run):
        self.i, self.run, self.state, self.value = interp, run, 'new', None
        interp.e.born(self)

    def to(self, state):
        old = self.state

        def undo():
            self.state = old
        self.state = state
        self.i.e.log('gen', self, 'state', undo)

    def consume(self, emit):
        """None, or the signal with which emit left"""
        if self.state == 'done':
            return None
        if self.state != 'new':
            raise Unsupported('generator resumed')
        self.to('running')
        depth = self.i.e.kdepth

        def put(v):
            r = emit(v)
            if r is not None and r.kind in ('break', 'return'):
                if self.i.e.kdepth != depth:
                    raise Unsupported('leaving a generator inside a loop of symbolic length')
                raise GenStop(self, r)
        try:
            self.value = self.run(put)
        except GenStop as st:
            if st.gen is not self:
                raise
            self.to('left')
            return st.sig
        self.to('done')
        return None

    def __iter__(self):
        return iter(self.i.concrete_items(self))


class Managed:
    """what a contextlib.contextmanager function returns"""

    def __init__(self, gen):
        self.gen = gen


class IFunc:
    """metadata of a function created while interpreting (attached to a real
    Python function so that it can live in classes, be bound, ...)"""

    def __init__(self, interp, node, frame, defaults, kwdefaults, f):
        self.node, self.frame, self.f = node, frame, f
        self.defaults, self.kwdefaults = defaults, kwdefaults


_NODE_INFO = {}


def yields(n, guarded=False):
    """for each yield of the body: whether a try or with statement surrounds it"""
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
        return
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
        yield guarded
    if isinstance(n, (ast.Await, ast.AsyncFor, ast.AsyncWith)):
        yield True
    g = guarded or isinstance(n, (ast.Try, ast.With))
    for c in ast.iter_child_nodes(n):
        yield from yields(c, g)


def node_info(node):
    r = _NODE_INFO.get(id(node))
    if r is None:
        body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
        ys = [y for s in body for y in yields(s)]
        r = assigned_names(body, node.args) + ('guarded' if any(ys) else 'plain' if ys else '',)
        r = _NODE_INFO[id(node)] = r + (node,)
    return r


PYLIB = 'pyvc.pylib'
from .models import ListIter    # noqa: E402


class Interp:
    def __init__(self, engine: Engine, package='opendis'):
        self.e = engine
        self.package = package
        self.contracts = {}       # function object -> handler(interp, args, kwargs)
        self.inlined = set()      # qualnames of bodies evaluated
        self.metas = {}         # id of a function made by the code -> its IFunc
        self.objdicts = {}      # id of a __dict__ the code took -> it, its object
        self.used_contracts = set()
        self.called_native = set()
        self.depth = 0
        from . import models
        self.models = models.build(self)
        from . import loops
        self.loops = loops.Loops(self)

    # ---------------------------------------------------------------- calls --
    def in_package(self, f):
        m = getattr(f, '__module__', None)
        return isinstance(m, str) and (m == self.package or m.startswith(self.package + '.') or m == PYLIB)

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.e.tick()
        try:
            h = self.models.get(f)
        except TypeError:
            h = None
        if any(isinstance(a, Gen) for a in args) or any(isinstance(a, Gen) for a in kwargs.values()):
            if h is not None and f not in self.models.lazy or h is None and not isinstance(f, (
                    types.MethodType, BoundModel, types.FunctionType)) and not self.in_package(f):
                r = self.gen_call(f, args)
                if r is not NotImplemented:
                    return r
                args = [self.loops.parts(a) if isinstance(a, Gen) else a for a in args]
                kwargs = {k: self.loops.parts(a) if isinstance(a, Gen) else a for k, a in kwargs.items()}
        if h is not None:
            return h(*args, **kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, (f.__self__,) + tuple(args), kwargs)
        if isinstance(f, BoundModel):
            return f.fn(*args, **kwargs)
        if isinstance(f, types.FunctionType) and f.__code__.co_filename == contextlib.__file__ and \
                f.__name__ != 'contextmanager' and hasattr(f, '__wrapped__') and self.in_package(f.__wrapped__):
            g = self.call(f.__wrapped__, args, kwargs)
            if not isinstance(g, Gen):
                raise Unsupported('context manager')
            return Managed(g)
        if isinstance(f, types.FunctionType):
            c = self.contracts.get(f)
            if c is not None:
                r = c(self, args, kwargs)
                if r is not NotImplemented:
                    self.used_contracts.add(f)
                    return r
            meta = getattr(f, '__pyvc__', None)
            if meta is not None and meta.f is not f:        # functools.wraps copied it
                meta = self.metas.get(id(f))
                if meta is not None and meta.f is not f:
                    meta = None
            if meta is not None:
                return self.call_node(meta.node, args, kwargs, meta.frame.globals, meta.frame,
                                      None, meta.defaults, meta.kwdefaults, f.__qualname__)
            if self.in_package(f):
                node = func_node(f)
                if node is None:
                    return self.generated(f, args, kwargs)
                cells = {}
                if f.__closure__:
                    for n, c in zip(f.__code__.co_freevars, f.__closure__):
                        cells[n] = c
                if f.__module__ != PYLIB:
                    self.inlined.add(f.__module__ + '.' + f.__qualname__)
                return self.call_node(node, args, kwargs, f.__globals__, None, cells,
                                      f.__defaults__ or (), f.__kwdefaults__ or {}, f.__qualname__)
            return self.native(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)):
            return self.call_builtin(f, args, kwargs)
        if isinstance(f, (types.MethodWrapperType, types.WrapperDescriptorType,
                          types.MethodDescriptorType)):
            return self.native(f, args, kwargs)
        if isinstance(f, Poison):
            raise Unsupported(f'call of poisoned value {f.why}')
        if type(f) is functools.partial:
            return self.call(f.func, f.args + tuple(args), {**f.keywords, **kwargs})
        if type(f) in (operator.itemgetter, operator.attrgetter, operator.methodcaller) and not kwargs:
            return self.getter(f, args)
        w = getattr(f, '__wrapped__', None)
        tp = type(f)
        callm = None
        for k in tp.__mro__:
            if '__call__' in k.__dict__:
                callm = k.__dict__['__call__']
                break
        if isinstance(callm, types.FunctionType) and self.in_package(callm):
            return self.call(callm, (f,) + tuple(args), kwargs)
        if w is not None and has_sym(list(args)):
            raise Unsupported(f'decorated function {f!r}')
        return self.native(f, args, kwargs)

    def getter(self, f, args):
        o, = args
        r = f.__reduce__()
        if type(f) is operator.methodcaller:
            c, a = r[0], r[1]
            if type(c) is functools.partial:
                return self.call(self.getattr(o, c.args[0]), a, c.keywords)
            return self.call(self.getattr(o, a[0]), a[1:])

        def one(x):
            if type(f) is operator.itemgetter:
                return self.getitem(o, x)
            v = o
            for n in x.split('.'):
                v = self.getattr(v, n)
            return v
        vs = [one(x) for x in r[1]]
        return vs[0] if len(vs) == 1 else tuple(vs)

    def gen_call(self, f, args):
        """calls that take only part of a generator"""
        if f is iter and len(args) == 1:
            return args[0]
        if f is next:
            got = []
            if self.loops.each(args[0], None, lambda v: got.append(v) or BREAK) is not None:
                return got[-1]
            if len(args) > 1:
                return args[1]
            raise PyExc(StopIteration())
        if (getattr(f, '__module__', None) or '') in ('itertools', 'functools', 'contextlib', 'builtins') and \
                f not in (dict, set, frozenset, sorted, min, max, sum, list, tuple, bytes, bytearray, str, format,
                          any, all):
            raise Unsupported('generator given to ' + getattr(f, '__name__', '?'))
        return NotImplemented

    def native(self, f, args, kwargs):
        if has_sym(list(args)) or has_sym(kwargs):
            raise Unsupported(f'native call of {getattr(f, "__qualname__", f)!r} with symbolic arguments')
        for a in args:
            if isinstance(a, Poison):
                raise Unsupported('poisoned argument')
        mod = getattr(f, '__module__', None) or type(getattr(f, '__self__', None)).__module__
        if mod in self.AMBIENT or f is next and type(args[0]).__module__ != 'builtins' or f is id:
            self.e.outside.add(f'consults {mod}.{getattr(f, "__name__", f)}')
        elif isinstance(f, functools._lru_cache_wrapper) and self.in_package(f.__wrapped__):
            self.e.outside.add(f'remembers results of {f.__wrapped__.__qualname__}')
        try:
            r = f(*args, **kwargs)
            if hasattr(type(r), '__next__') and type(r).__module__ in ('builtins', 'itertools') and f is not iter:
                r = self.e.born(ListIter(self, list(r)))
            return r
        except (Unsupported, PyExc):
            raise
        except Exception as ex:
            raise raised(ex)

    AMBIENT = {'time', 'random', 'os', 'posix', 'datetime', 'secrets', 'uuid', 'threading', 'gc',
               'weakref', 'sys', 'inspect', 'socket'}

    MUT = {'append', 'extend', 'insert', 'pop', 'clear', 'remove', 'sort', 'reverse', 'update',
           'setdefault', 'add', 'discard', 'popitem', '__setitem__', '__delitem__', '__iadd__'}

    def call_builtin(self, f, args, kwargs):
        slf = getattr(f, '__self__', None)
        name = f.__name__
        if type(slf) in (list, dict, set, bytearray, tuple, bytes, str):
            h = self.models.method(type(slf), name)
            if h is not None:
                r = h(slf, *args, **kwargs)
                if r is not NotImplemented:
                    return r
            if type(slf) in (str, bytes) and name in self.models.SEQ and has_sym(list(args)):
                r = self.models.seq_method(slf, name, args, kwargs)
                if r is not NotImplemented:
                    return r
            elif type(slf) is str and name == 'join' and args and not isinstance(args[0], (list, tuple, str)):
                return self.models.seq_method(slf, name, args, kwargs)
            if id(slf) in self.objdicts and name in ('update', 'setdefault'):
                return self.objdict_update(slf, name, args, kwargs)
            if name in self.MUT:
                self.snapshot(slf)
            if type(slf) in (list, tuple) and any(isinstance(x, Seg) for x in slf):
                raise Unsupported(f'list.{name} on symbolic list')
            if type(slf) in (list, dict) and name in ('append', 'extend', 'insert', 'pop', 'clear', 'reverse',
                                                      'copy', 'get', 'setdefault', 'update', 'items', 'keys',
                                                      'values'):
                try:
                    return f(*args, **kwargs)
                except Exception as ex:
                    raise raised(ex)
        return self.native(f, args, kwargs)

    def objdict_update(self, d, name, args, kwargs):
        """an object's __dict__ changed: attributes assigned"""
        o = self.objdicts[id(d)][1]
        if name == 'setdefault':
            if args[0] not in d:
                self.raw_setattr(o, args[0], args[1] if len(args) > 1 else None)
            return d[args[0]]
        new = {}
        if args:
            a = args[0] if isinstance(args[0], dict) else self.concrete_items(args[0])
            new.update(a if isinstance(a, dict) else [self.concrete_items(x) for x in a])
        new.update(kwargs)
        for k, v in new.items():
            self.raw_setattr(o, k, v)

    def snapshot(self, obj):
        if id(obj) in self.e.flags.get('materialized', ()):
            raise Unsupported('list within an element of a list of symbolic length modified')
        if isinstance(obj, (list, bytearray)):
            old = obj[:]

            def undo():
                obj[:] = old
            self.e.log('list', obj, None, undo)
        elif isinstance(obj, dict):
            old = dict(obj)

            def undo():
                obj.clear()
                obj.update(old)
            self.e.log('dict', obj, None, undo)
        elif isinstance(obj, set):
            old = set(obj)

            def undo():
                obj.clear()
                obj.update(old)
            self.e.log('set', obj, None, undo)

    def instantiate(self, cls, args, kwargs):
        from ctypes import Structure
        if issubclass(cls, Structure):
            return self.models.ctypes_new(cls, args, kwargs)
        if not self.in_package(cls) and getattr(cls, '__pyvc_cls__', None) is None:
            if issubclass(cls, BaseException):
                try:
                    return cls(*[a if not has_sym([a]) else SymText('an exception argument') for a in args])
                except Exception as ex:
                    raise raised(ex)
            return self.native(cls, args, kwargs)
        if isinstance(cls, type) and issubclass(cls, (int, float, str, bytes, tuple, list, dict)):
            r = self.models.builtin_subclass(cls, args, kwargs)
            if r is not NotImplemented:
                return r
        import enum
        if issubclass(cls, enum.Enum):
            return self.native(cls, args, kwargs)
        meta_call = type(cls).__call__
        new = cls.__new__
        if isinstance(new, types.FunctionType) and self.in_package(new):
            obj = self.call(new, (cls,) + tuple(args), kwargs)
        else:
            try:
                if new is object.__new__:
                    obj = object.__new__(cls)
                else:
                    obj = new(cls, *args, **kwargs)
            except Exception as ex:
                raise raised(ex)
        self.e.born(obj)
        init = cls.__init__
        if isinstance(init, types.FunctionType):
            self.call(init, (obj,) + tuple(args), kwargs)
        elif init is object.__init__:
            if args or kwargs:
                raise PyExc(TypeError(f'{cls.__name__}() takes no arguments'))
        else:
            self.native(init, (obj,) + tuple(args), kwargs)
        return obj

    def generated(self, f, args, kwargs):
        """a method that the dataclass decorator wrote"""
        import dataclasses
        owner = next((c for c in type(args[0]).__mro__ if vars(c).get(f.__name__) is f), None) if args else None
        if owner is None or '__dataclass_params__' not in vars(owner):
            raise Unsupported(f'no source for {f.__qualname__}')
        fields = owner.__dataclass_fields__.values()
        normal = [x for x in fields if x._field_type is dataclasses._FIELD]
        obj = args[0]
        if f.__name__ == '__init__':
            c = f.__code__
            names = c.co_varnames[:c.co_argcount]
            kwo = c.co_varnames[c.co_argcount:c.co_argcount + c.co_kwonlyargcount]
            node = ast.parse('lambda %s: None' % ', '.join(list(names) + (['*'] if kwo else []) + list(kwo))).body[0].value
            loc = self.bind_args(node, args, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {}, f.__qualname__)
            put = self.raw_setattr if owner.__dataclass_params__.frozen else self.setattr
            for x in normal:
                if x.init:
                    v = loc[x.name]
                    if v is dataclasses._HAS_DEFAULT_FACTORY:
                        v = self.call(x.default_factory)
                elif x.default_factory is not dataclasses.MISSING:
                    v = self.call(x.default_factory)
                elif '__slots__' in vars(owner) and x.default is not dataclasses.MISSING:
                    v = x.default
                else:
                    continue
                put(obj, x.name, v)
            if hasattr(owner, '__post_init__'):
                self.call(self.getattr(obj, '__post_init__'), tuple(
                    loc[x.name] for x in fields if x._field_type is dataclasses._FIELD_INITVAR))
            return None
        if f.__name__ == '__eq__' and len(args) == 2 and not kwargs:
            if type(args[1]) is not type(obj):
                return NotImplemented
            for x in normal:
                if x.compare and not self.truth(self.compare(
                        ast.Eq(), self.getattr(obj, x.name), self.getattr(args[1], x.name))):
                    return False
            return True
        raise Unsupported(f'no source for {f.__qualname__}')

    def bind_args(self, node, args, kwargs, defaults, kwdefaults, name):
        a = node.args
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        n = len(args)
        if n > len(pos) and a.vararg is None:
            raise PyExc(TypeError(f'{name}() takes {len(pos)} positional arguments but {n} were given'))
        for p, v in zip(pos, args):
            loc[p] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        npo = len(a.posonlyargs)
        for i, p in enumerate(pos):
            if p in kwargs and i >= npo:
                if p in loc:
                    raise PyExc(TypeError(f"{name}() got multiple values for argument '{p}'"))
                loc[p] = kwargs.pop(p)
        d0 = len(pos) - len(defaults)
        for i, p in enumerate(pos):
            if p not in loc:
                if i >= d0:
                    loc[p] = defaults[i - d0]
                else:
                    raise PyExc(TypeError(f"{name}() missing required argument: '{p}'"))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                loc[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                loc[x.arg] = kwdefaults[x.arg]
            else:
                raise PyExc(TypeError(f"{name}() missing keyword argument: '{x.arg}'"))
        if a.kwarg is not None:
            loc[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyExc(TypeError(f"{name}() got an unexpected keyword argument '{next(iter(kwargs))}'"))
        return loc

    def call_node(self, node, args, kwargs, globals_, parent, cells, defaults, kwdefaults, name):
        names, glob, nonl, isgen, _ = node_info(node)
        loc = self.bind_args(node, args, kwargs, defaults, kwdefaults, name)
        fr = Frame(globals_, names, parent, cells, name)
        fr.locals.update(loc)
        fr.globnames, fr.nonlocals = glob, nonl
        if node.args.posonlyargs or node.args.args:
            fr.first = args[0] if args else next(iter(loc.values()), _UNSET)
        if isgen:
            g = Gen(self, lambda emit: self.run_gen(node, fr, emit))
            g.guarded = isgen == 'guarded' and name
            return g
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unsupported('recursion too deep')
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            s = self.block(node.body, fr)
            if s is not None and s.kind == 'return':
                return s.val
            return None
        finally:
            self.depth -= 1

    def run_gen(self, node, fr, emit):
        fr.emit = emit
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unsupported('recursion too deep')
        try:
            s = self.block(node.body, fr)
            return s.val if s is not None and s.kind == 'return' else None
        finally:
            self.depth -= 1

    def ev_Yield(self, n, fr):
        fr.emit(None if n.value is None else self.ev(n.value, fr))
        return None

    def ev_YieldFrom(self, n, fr):
        it = self.ev(n.value, fr)
        self.loops.each(it, fr, fr.emit)
        return it.value if isinstance(it, Gen) else None

    # ------------------------------------------------------------ attributes --
    def getattr(self, obj, name):
        if isinstance(obj, (Gen, Managed)):
            raise Unsupported(f'{name} of a generator')
        if isinstance(obj, Poison):
            raise Unsupported(f'use of poisoned value {obj.why}')
        if isinstance(obj, CStruct):
            return self.models.ctypes_getattr(obj, name)
        if isinstance(obj, CSuper):
            return self.models.ctypes_getattr(obj.o, name, obj.cls)
        if isinstance(obj, (InBuf, OutBuf, SymBytes, SymStr, SymText, SymInt, SymBool, SymFloat, sym.RatInt)):
            return self.models.sym_getattr(obj, name)
        if isinstance(obj, sym.SymReal):
            try:
                return getattr(obj, name)
            except AttributeError as ex:
                raise raised(ex)
        if isinstance(obj, super):
            p = self._super_property(obj, name)
            if p is not None:
                return p[0]
            try:
                return getattr(obj, name)
            except AttributeError as ex:
                raise raised(ex)
        if isinstance(obj, type):
            from ctypes import Structure
            if issubclass(obj, Structure) and name in ('from_buffer_copy', 'from_buffer'):
                return BoundModel(lambda *a, **k: self.models.ctypes_from_buffer(obj, *a, **k))
            try:
                v = getattr(obj, name)
            except AttributeError as ex:
                raise raised(ex)
            return v
        tp = type(obj)
        for k in tp.__mro__:
            if name in k.__dict__:
                d = k.__dict__[name]
                if isinstance(d, property):
                    if d.fget is None:
                        raise PyExc(AttributeError(f"property '{name}' has no getter"))
                    return self.call(d.fget, (obj,))
                if isinstance(d, types.FunctionType) or not hasattr(type(d), '__get__'):
                    break
                dg = type(d).__get__
                if isinstance(dg, types.FunctionType):
                    if not self.in_package(dg):
                        raise Unsupported('descriptor')
                    if not hasattr(type(d), '__set__') and name in getattr(obj, '__dict__', ()):
                        break
                    return self.call(dg, (d, obj, tp))
                import functools
                if isinstance(d, functools.cached_property):
                    od = obj.__dict__
                    if name in od:
                        return od[name]
                    v = self.call(d.func, (obj,))
                    self.setattr(obj, name, v)
                    return v
                break
        try:
            v = getattr(obj, name) if not self._has_getattr(tp) else object.__getattribute__(obj, name)
        except AttributeError as ex:
            ga = self._has_getattr(tp)
            if ga:
                return self.call(ga, (obj, name))
            raise raised(ex)
        except Exception as ex:
            raise raised(ex)
        if isinstance(v, Poison):
            raise Unsupported(f'use of poisoned attribute {name}')
        if name == '__dict__':
            self.objdicts[id(v)] = v, obj
        return v

    def _has_getattr(self, tp):
        for k in tp.__mro__:
            g = k.__dict__.get('__getattr__')
            if g is not None:
                return g if isinstance(g, types.FunctionType) and self.in_package(g) else None
        return None

    def _super_property(self, sup, name):
        cls, slf = sup.__thisclass__, sup.__self__
        if isinstance(slf, type):
            return None
        mro = type(slf).__mro__
        i = mro.index(cls)
        for k in mro[i + 1:]:
            if name in k.__dict__:
                d = k.__dict__[name]
                if isinstance(d, property):
                    return (self.call(d.fget, (slf,)),)
                return None
        return None

    def setattr(self, obj, name, v):
        if isinstance(obj, Poison):
            raise Unsupported('setattr on poisoned value')
        if isinstance(obj, CStruct):
            return self.models.ctypes_setattr(obj, name, v)
        if isinstance(obj, type):
            had = name in obj.__dict__
            old = obj.__dict__.get(name)

            def undo():
                if had:
                    setattr(obj, name, old)
                else:
                    delattr(obj, name)
            try:
                setattr(obj, name, v)
            except Exception as ex:
                raise raised(ex)
            self.e.log('classattr', obj, name, undo)
            return
        tp = type(obj)
        for k in tp.__mro__:
            if name in k.__dict__:
                d = k.__dict__[name]
                if isinstance(d, property):
                    if d.fset is None:
                        raise PyExc(AttributeError(f"property '{name}' of {tp.__name__!r} object has no setter"))
                    self.call(d.fset, (obj, v))
                    return
                ds = getattr(type(d), '__set__', None)
                if isinstance(ds, types.FunctionType):
                    if not self.in_package(ds):
                        raise Unsupported('descriptor')
                    self.call(ds, (d, obj, v))
                    return
                break
        sa = tp.__setattr__
        if isinstance(sa, types.FunctionType) and self.in_package(sa):
            return self.call(sa, (obj, name, v))
        self.raw_setattr(obj, name, v)

    def raw_setattr(self, obj, name, v):
        d = attrs(obj) if has_attrs(obj) else {}
        if id(obj) in self.e.flags.get('materialized', ()):
            f = self.e.flags.get('element_write')
            if f is None or not f(obj, name, d.get(name), v):
                raise Unsupported('element of a list of symbolic length modified')
            return
        had, old = name in d, d.get(name)
        if had and old is v and isinstance(v, (list, dict, bytearray)):
            return

        def undo():
            if had:
                object.__setattr__(obj, name, old)
            else:
                object.__delattr__(obj, name)
        try:
            object.__setattr__(obj, name, v)
        except Exception as ex:
            raise raised(ex)
        self.e.log('attr', obj, name, undo)

    # ------------------------------------------------------------- variables --
    def load(self, name, fr):
        f = fr
        while f is not None:
            if name in f.names and not (f.isclass and f is not fr):
                if name in f.locals:
                    v = f.locals[name]
                    if isinstance(v, Poison):
                        raise Unsupported(f'variable {name} has no known value here ({v.why})')
                    return v
                if f.isclass:
                    pass
                elif f is fr:
                    raise PyExc(UnboundLocalError(
                        f"cannot access local variable '{name}' where it is not associated with a value"))
                else:
                    raise PyExc(NameError(f"cannot access free variable '{name}'"))
            if name in f.cells:
                try:
                    return f.cells[name].cell_contents
                except ValueError:
                    raise PyExc(NameError(f"free variable '{name}' referenced before assignment"))
            g = f.globals
            f = f.parent
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError(f"name '{name}' is not defined"))

    def store(self, name, v, fr):
        if name in fr.globnames:
            g = fr.globals
            had, old = name in g, g.get(name)

            def undo():
                if had:
                    g[name] = old
                else:
                    del g[name]
            g[name] = v
            self.e.log('global', g, name, undo)
            return
        if name in fr.nonlocals or (name not in fr.names):
            f = fr.parent
            while f is not None:
                if name in f.names and not f.isclass:
                    self._setlocal(f, name, v)
                    return
                f = f.parent
            if name in fr.cells:
                c = fr.cells[name]
                old = c.cell_contents
                c.cell_contents = v

                def undo():
                    c.cell_contents = old
                self.e.log('cell', c, name, undo)
                return
        self._setlocal(fr, name, v)

    def _setlocal(self, fr, name, v):
        loc = fr.locals
        had, old = name in loc, loc.get(name)
        if had and old is v and isinstance(v, (list, dict, bytearray)):
            return          # x += [...] stores the list it extended

        def undo():
            if had:
                loc[name] = old
            else:
                loc.pop(name, None)
        loc[name] = v
        self.e.log('local', fr, name, undo)

    # ------------------------------------------------------------ statements --
    def block(self, stmts, fr):
        for s in stmts:
            r = self.st(s, fr)
            if r is not None:
                return r
        return None

    def st(self, s, fr):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        return m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        return

    def st_Return(self, s, fr):
        return Sig('return', self.ev(s.value, fr) if s.value is not None else None)

    def st_Break(self, s, fr):
        return BREAK

    def st_Continue(self, s, fr):
        return CONTINUE

    def st_Global(self, s, fr):
        return

    st_Nonlocal = st_Global

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
            v = self.aug(s.op, cur, self.ev(s.value, fr))
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            name = self.mangle(t.attr, fr)
            cur = self.getattr(o, name)
            self.setattr(o, name, self.aug(s.op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_slice(t.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.aug(s.op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported('augmented target')

    def aug(self, op, a, b):
        if isinstance(a, list) and isinstance(op, ast.Add):
            self.call(self.getattr(a, 'extend'), (b,))
            return a
        if isinstance(a, sym.SymArray):
            if isinstance(op, ast.Add):
                self.call(self.getattr(a, 'extend'), (b,))
                return a
            raise Unsupported('in-place operation on a bytearray')
        d = getattr(type(a), '__i' + self.OPS[type(op)][2:], None)
        if isinstance(d, types.FunctionType) and self.in_package(d):
            r = self.call(d, (a, b))
            if r is not NotImplemented:
                return r
        elif isinstance(a, (list, dict, set, bytearray)) and d is not None:
            import operator as o
            if has_sym([b]) or isinstance(a, list) and any(isinstance(x, Seg) for x in a):
                raise Unsupported('in-place operation')
            self.snapshot(a)
            return self.native_op({ast.Mult: o.imul, ast.BitOr: o.ior, ast.BitAnd: o.iand, ast.Sub: o.isub,
                                   ast.BitXor: o.ixor, ast.Add: o.iadd}[type(op)], a, b)
        return self.binop(op, a, b)

    def assign(self, t, v, fr):
        if callable(t):
            t(v)
        elif isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.concrete_items(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise PyExc(ValueError('not enough values to unpack'))
                mid = items[i:len(items) - after]
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, self.e.born(list(mid)), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                raise PyExc(ValueError('wrong number of values to unpack'))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.load(t.id, fr)
                loc = fr.locals
                old = loc.pop(t.id)
                self.e.log('local', fr, t.id, lambda n=t.id, o=old: loc.__setitem__(n, o))
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                i = self.ev_slice(t.slice, fr)
                if has_sym([i]) or (isinstance(o, list) and any(isinstance(x, Seg) for x in o)):
                    if isinstance(o, list) and isinstance(i, slice) and i == slice(None, None, None):
                        self.snapshot(o)
                        del o[:]
                        continue
                    raise Unsupported('symbolic del')
                if isinstance(o, sym.SymArray):
                    self.models.arr_delitem(o, i)
                    continue
                d = getattr(type(o), '__delitem__', None)
                if isinstance(d, types.FunctionType) and self.in_package(d):
                    self.call(d, (o, i))
                    continue
                self.snapshot(o)
                try:
                    del o[i]
                except Exception as ex:
                    raise raised(ex)
            else:
                raise Unsupported('del target')

    def st_If(self, s, fr):
        return self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)

    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyExc(AssertionError())

    def st_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if cur:
                raise PyExc(cur[-1])
            raise PyExc(RuntimeError('No active exception to reraise'))
        v = self.ev(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.call(v, ())
        if not isinstance(v, BaseException):
            raise PyExc(TypeError('exceptions must derive from BaseException'))
        if s.cause is not None:
            self.ev(s.cause, fr)
        raise PyExc(v)

    def st_Try(self, s, fr):
        self.e.try_depth += 1
        try:
            try:
                r = self.block(s.body, fr)
            finally:
                self.e.try_depth -= 1
            exc = None
        except PyExc as e:
            exc = e
        if exc is not None:
            r = None
            try:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        tp = self.ev(h.type, fr)
                        ok = isinstance(exc.exc, tp)
                    if ok:
                        if h.name:
                            self.store(h.name, exc.exc, fr)
                        if not hasattr(self, 'handling'):
                            self.handling = []
                        self.handling.append(exc.exc)
                        try:
                            r = self.block(h.body, fr)
                        finally:
                            self.handling.pop()
                        exc = None
                        break
            except PyExc as e2:
                if s.finalbody:
                    f = self.block(s.finalbody, fr)
                    if f is not None:
                        return f
                raise e2
            if exc is not None:
                if s.finalbody:
                    f = self.block(s.finalbody, fr)
                    if f is not None:
                        return f
                raise exc
        elif r is None and s.orelse:
            try:
                r = self.block(s.orelse, fr)
            except PyExc:
                if s.finalbody:
                    f = self.block(s.finalbody, fr)
                    if f is not None:
                        return f
                raise
        if s.finalbody:
            f = self.block(s.finalbody, fr)
            if f is not None:
                return f
        return r

    def st_With(self, s, fr):
        return self._with(s.items, s.body, fr)

    def _with(self, items, body, fr):
        if not items:
            return self.block(body, fr)
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, Managed):
            return self.managed(cm.gen, it, items, body, fr)
        v = self.call(self.getattr(cm, '__enter__'), ())
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        self.e.try_depth += 1
        try:
            try:
                r = self._with(items[1:], body, fr)
            finally:
                self.e.try_depth -= 1
        except PyExc as e:
            if self.truth(self.call(self.getattr(cm, '__exit__'), (type(e.exc), e.exc, None))):
                return None
            raise
        self.call(self.getattr(cm, '__exit__'), (None, None, None))
        return r

    def managed(self, g, it, items, body, fr):
        """the block runs where the manager yields, its exceptions raised there"""
        ran = []
        depth = self.e.kdepth

        def emit(v):
            if ran or self.e.kdepth != depth:
                raise Unsupported('context manager yields twice')
            ran.append(None)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            ran[0] = self._with(items[1:], body, fr)
        g.guarded = False
        g.consume(emit)
        if not ran:
            raise PyExc(RuntimeError("generator didn't yield"))
        return ran[0]

    def st_FunctionDef(self, s, fr):
        f = self.make_function(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), (f,))
        self.store(s.name, f, fr)

    def make_function(self, node, fr, name=None):
        a = node.args
        defaults = tuple(self.ev(d, fr) for d in a.defaults)
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        interp = self

        def f(*args, **kwargs):
            return interp.call_node(node, args, kwargs, fr.globals, fr, None, defaults, kwd,
                                    getattr(node, 'name', '<lambda>'))
        f.__name__ = f.__qualname__ = getattr(node, 'name', '<lambda>')
        f.__module__ = fr.globals.get('__name__', self.package)
        f.__pyvc__ = self.metas[id(f)] = IFunc(self, node, fr, defaults, kwd, f)
        return f

    def st_ClassDef(self, s, fr):
        bases = tuple(self.ev(b, fr) for b in s.bases)
        kw = {k.arg: self.ev(k.value, fr) for k in s.keywords}
        cf = Frame(fr.globals, assigned_names(s.body)[0], fr, None, s.name)
        cf.isclass = True
        holder = Frame(fr.globals, {'__class__'}, fr, None, s.name)
        cf.parent = holder
        self.block(s.body, cf)
        ns = dict(cf.locals)
        ns['__module__'] = fr.globals.get('__name__', self.package)
        ns['__qualname__'] = s.name
        ann = {}
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ann[st.target.id] = None
        if ann:
            ns['__annotations__'] = ann
        c = holder.locals['__class__'] = self.new_class(s.name, bases, ns, kw)
        for d in reversed(s.decorator_list):
            c = self.call(self.ev(d, fr), (c,))
        self.store(s.name, c, fr)

    def new_class(self, name, bases, ns, kw):
        kw = dict(kw)
        mc = kw.pop('metaclass', None)
        try:
            c = mc(name, bases, ns, **kw) if mc is not None else types.new_class(
                name, bases, kw, lambda d: d.update(ns))
        except Exception as ex:
            raise raised(ex)
        return self.e.born(c)

    def st_Import(self, s, fr):
        import importlib
        for a in s.names:
            try:
                m = importlib.import_module(a.name)
            except Exception as ex:
                raise raised(ex)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                self.store(a.name.split('.')[0], importlib.import_module(a.name.split('.')[0]), fr)

    def st_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.globals.get('__package__')
        try:
            m = importlib.import_module('.' * s.level + (s.module or ''), pkg)
            for a in s.names:
                if hasattr(m, a.name):
                    self.store(a.asname or a.name, getattr(m, a.name), fr)
                else:
                    self.store(a.asname or a.name,
                               importlib.import_module('.' * s.level + (s.module + '.' if s.module else '') + a.name,
                                                       pkg), fr)
        except Exception as ex:
            raise raised(ex)

    def st_For(self, s, fr):
        return self.loops.for_stmt(s, fr)

    def st_While(self, s, fr):
        return self.loops.while_stmt(s, fr)

    def st_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                return self.block(c.body, fr)
        return None

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.store(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        raise Unsupported('match pattern')

    # ----------------------------------------------------------- expressions --
    def truth(self, v):
        if isinstance(v, (bool, SymBool, SymInt, SymFloat, int, float, str, type(None))):
            return bool(v)
        if isinstance(v, Poison):
            raise Unsupported('truth of poisoned value')
        if isinstance(v, (list, tuple, SymBytes, SymStr)):
            return bool(self.models.length(v) != 0)
        if isinstance(v, sym.SymReal):
            return bool(v)
        for k in type(v).__mro__:
            for nm in ('__bool__', '__len__'):
                d = k.__dict__.get(nm)
                if isinstance(d, types.FunctionType) and self.in_package(d):
                    return self.truth(self.call(d, (v,)))
        if isinstance(v, CStruct):
            return True
        try:
            return bool(v)
        except Exception as ex:
            raise raised(ex)

    def ev(self, n, fr):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__}')
        return m(n, fr)

    def ev_Constant(self, n, fr):
        return n.value

    def ev_Name(self, n, fr):
        return self.load(n.id, fr)

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            f = fr
            c = self.find_class(fr)
            if c is not None:
                return '_' + c.__name__.lstrip('_') + name
        return name

    def find_class(self, fr):
        f = fr
        while f is not None:
            if '__class__' in f.cells:
                return f.cells['__class__'].cell_contents
            if '__class__' in f.locals:
                return f.locals['__class__']
            f = f.parent
        # functions without a __class__ cell: search by qualname
        q = fr.label
        if '.' in q and '<locals>' not in q:
            return fr.globals.get(q.split('.')[0])
        return None

    def ev_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), self.mangle(n.attr, fr))

    def ev_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, SymStr) and v.conversion in (-1, 115) and v.format_spec is None:
                    parts.append(x)
                elif has_sym([x]) or not isinstance(x, (str, int, float, bool, type(None), bytes)):
                    parts.append(SymText('a formatted value'))
                else:
                    try:
                        if v.conversion == 114:
                            x = repr(x)
                        elif v.conversion == 115:
                            x = str(x)
                        spec = self.ev(v.format_spec, fr) if v.format_spec else ''
                        parts.append(format(x, spec))
                    except Exception as ex:
                        raise raised(ex)
        if any(isinstance(x, SymText) for x in parts):
            return SymText('a formatted value')
        if any(isinstance(x, SymStr) for x in parts):
            return sym.mk_str([c for x in parts for c in (x.cps if isinstance(x, SymStr) else map(ord, x))])
        return ''.join(parts)

    def ev_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def ev_List(self, n, fr):
        return self.e.born(self.elts(n.elts, fr))

    def ev_Set(self, n, fr):
        v = self.elts(n.elts, fr)
        if has_sym(v):
            return SymSet(v)
        try:
            return set(v)
        except Exception as ex:
            raise raised(ex)

    def elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.raw_items(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def ev_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                d[kk] = self.ev(v, fr)
        return self.e.born(d)

    def ev_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SymBool) else False
            if not isand and t:
                return v if not isinstance(v, SymBool) else True
        return v

    def ev_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, SymBool):
                import z3
                return mk_bool(z3.Not(v.t))
            return not self.truth(v)
        import operator as o
        nm, f = {ast.USub: ('__neg__', o.neg), ast.UAdd: ('__pos__', o.pos), ast.Invert: ('__invert__', o.invert)}[type(n.op)]
        d = getattr(type(v), nm, None)
        if isinstance(d, types.FunctionType) and self.in_package(d):
            return self.call(d, (v,))
        return self.native_op(f, v)

    OPS = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__',
           ast.FloorDiv: '__floordiv__', ast.Mod: '__mod__', ast.Pow: '__pow__', ast.BitAnd: '__and__',
           ast.BitOr: '__or__', ast.BitXor: '__xor__', ast.LShift: '__lshift__', ast.RShift: '__rshift__',
           ast.MatMult: '__matmul__'}

    def ev_BinOp(self, n, fr):
        return self.binop(n.op, self.ev(n.left, fr), self.ev(n.right, fr))

    def binop(self, op, a, b):
        import operator as o
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('poisoned operand')
        r = self.models.binop(op, a, b)
        if r is not NotImplemented:
            return r
        dn = self.OPS[type(op)]
        for x, y, nm in ((a, b, dn), (b, a, '__r' + dn[2:])):
            d = getattr(type(x), nm, None)
            if isinstance(d, types.FunctionType) and self.in_package(d):
                r = self.call(d, (x, y))
                if r is not NotImplemented:
                    return r
        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
             ast.Mod: o.mod, ast.Pow: o.pow, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.BitXor: o.xor,
             ast.LShift: o.lshift, ast.RShift: o.rshift, ast.MatMult: o.matmul}[type(op)]
        return self.native_op(f, a, b)

    def native_op(self, f, *vals):
        try:
            return f(*vals)
        except Exception as ex:
            r = raised(ex)
            if isinstance(r, Unsupported) and isinstance(ex, TypeError):
                # would values of these types do?
                st = [sym.STAND_IN.get(type(v), v) for v in vals]
                if not has_sym(st):
                    try:
                        f(*st)
                    except TypeError as ex2:
                        r = PyExc(ex2)
                    except Exception:       # noqa: BLE001
                        pass
            raise r

    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, fr)
            res = self.compare(op, left, right)
            if i < len(n.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def compare(self, op, a, b):
        import operator as o
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('poisoned operand')
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.models.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.models.contains(b, a)
            if isinstance(r, SymBool):
                import z3
                return mk_bool(z3.Not(r.t))
            return not r
        nm, f = {ast.Eq: ('__eq__', o.eq), ast.NotEq: ('__ne__', o.ne), ast.Lt: ('__lt__', o.lt),
                 ast.LtE: ('__le__', o.le), ast.Gt: ('__gt__', o.gt), ast.GtE: ('__ge__', o.ge)}[type(op)]
        r = self.models.compare(op, a, b)
        if r is not NotImplemented:
            return r
        d = getattr(type(a), nm, None)
        if isinstance(d, types.FunctionType) and self.in_package(d):
            return self.call(d, (a, b))
        if isinstance(op, ast.NotEq):
            d = getattr(type(a), '__eq__', None)
            if isinstance(d, types.FunctionType) and self.in_package(d):
                return not self.truth(self.call(d, (a, b)))
        return self.native_op(f, a, b)

    def is_(self, a, b):
        if is_sym(a) or is_sym(b):
            if a is None or b is None or a is b:
                return a is b
            if isinstance(a, SymBool) and isinstance(b, bool):
                return a == b
            if isinstance(b, SymBool) and isinstance(a, bool):
                return b == a
            if type(a) is not type(b) and not (is_sym(a) and is_sym(b)):
                if isinstance(a, (SymInt, SymFloat)) and isinstance(b, (int, float)) and not isinstance(b, bool):
                    raise Unsupported('identity of symbolic number')
                return False
            raise Unsupported('identity comparison of symbolic values')
        return a is b

    def ev_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.store(n.target.id, v, fr)
        return v

    def ev_Lambda(self, n, fr):
        return self.make_function(n, fr)

    def ev_slice(self, n, fr):
        if isinstance(n, ast.Slice):
            return slice(self.ev(n.lower, fr) if n.lower else None,
                         self.ev(n.upper, fr) if n.upper else None,
                         self.ev(n.step, fr) if n.step else None)
        if isinstance(n, ast.Tuple):
            return tuple(self.ev_slice(e, fr) for e in n.elts)
        return self.ev(n, fr)

    def ev_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.ev_slice(n.slice, fr))

    def getitem(self, o, i):
        if isinstance(o, Poison) or isinstance(i, Poison):
            raise Unsupported('poisoned subscript')
        r = self.models.getitem(o, i)
        if r is not NotImplemented:
            return r
        d = getattr(type(o), '__getitem__', None)
        if isinstance(d, types.FunctionType) and self.in_package(d):
            return self.call(d, (o, i))
        if has_sym([i]):
            raise Unsupported('symbolic subscript')
        try:
            return o[i]
        except Exception as ex:
            raise raised(ex)

    def setitem(self, o, i, v):
        if isinstance(o, Poison) or isinstance(i, Poison):
            raise Unsupported('poisoned subscript')
        d = getattr(type(o), '__setitem__', None)
        if isinstance(d, types.FunctionType) and self.in_package(d):
            return self.call(d, (o, i, v))
        if has_sym([i]) or isinstance(o, sym.SymArray) or (isinstance(o, list) and any(isinstance(x, Seg) for x in o)):
            r = self.models.setitem(o, i, v)
            if r is not NotImplemented:
                return
            raise Unsupported('symbolic subscript store')
        if id(o) in self.objdicts and type(i) is str:
            return self.raw_setattr(self.objdicts[id(o)][1], i, v)
        self.snapshot(o)
        if type(o).__module__ == 'numpy':
            old = o.copy()

            def undo():
                o[...] = old
            self.e.log('ndarray', o, None, undo)
            return self.models.np_setitem(o, i, v)
        try:
            o[i] = v
        except (Unsupported, PyExc):
            raise
        except Exception as ex:
            raise raised(ex)

    def ev_Call(self, n, fr):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and \
                'super' not in fr.globals:
            c = self.find_class_cell(fr)
            f = fr
            while f is not None and f.first is _UNSET:
                f = f.parent
            if isinstance(f.first, CStruct):
                return CSuper(c, f.first)
            try:
                return super(c, f.first)
            except Exception as ex:
                raise raised(ex)
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, fr))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if f is super and len(args) == 2:
            if isinstance(args[1], CStruct):
                return CSuper(args[0], args[1])
            try:
                return super(args[0], args[1])
            except Exception as ex:
                raise raised(ex)
        if f is builtins.locals or f is builtins.eval or f is builtins.exec:
            raise Unsupported('locals/eval/exec')
        return self.call(f, tuple(args), kw)

    def find_class_cell(self, fr):
        f = fr
        while f is not None:
            if '__class__' in f.cells:
                return f.cells['__class__'].cell_contents
            if '__class__' in f.locals:
                return f.locals['__class__']
            f = f.parent
        raise Unsupported('super() without __class__')

    # comprehensions --------------------------------------------------------
    def ev_ListComp(self, n, fr):
        out = self.e.born([])
        self.comp(n.generators, fr, lambda f2: self.call(self.getattr(out, 'append'), (self.ev(n.elt, f2),)))
        return out

    def ev_GeneratorExp(self, n, fr):
        first = self.ev(n.generators[0].iter, fr)
        return Gen(self, lambda emit: self.comp(n.generators, fr, lambda f2: emit(self.ev(n.elt, f2)), first))

    def ev_SetComp(self, n, fr):
        l = self.ev_ListComp(n, fr)
        if has_sym(l):
            raise Unsupported('symbolic set')
        return set(l)

    def ev_DictComp(self, n, fr):
        out = self.e.born({})
        self.comp(n.generators, fr,
                  lambda f2: self.setitem(out, self.ev(n.key, f2), self.ev(n.value, f2)))
        return out

    def comp(self, gens, fr, emit, *first):
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        f2 = Frame(fr.globals, names, fr, None, fr.label)
        f2.first = _UNSET

        def go(i, outer):
            if i == len(gens):
                emit(f2)
                return
            g = gens[i]
            it = first[0] if first and i == 0 else self.ev(g.iter, fr if i == 0 else f2)

            def body():
                for c in g.ifs:
                    if not self.truth(self.ev(c, f2)):
                        return None
                go(i + 1, f2)
                return None
            self.loops.iterate(it, g.target, f2, body)
        go(0, fr)

    # iteration helpers -----------------------------------------------------
    def raw_items(self, v):
        """items (possibly Seg) of an iterable"""
        return self.loops.parts(v)

    def concrete_items(self, v):
        it = self.loops.parts(v)
        if any(isinstance(x, Seg) for x in it):
            raise Unsupported('symbolic-length sequence where a fixed length is needed')
        return list(it)


class CSuper:
    """super() inside a ctypes structure class"""

    def __init__(self, cls, o):
        self.cls, self.o = cls, o


class BoundModel:
    """bound method of a modelled object"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


class SymSet:
    def __init__(self, items):
        self.items = items
