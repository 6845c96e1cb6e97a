"""G02: ecef2lla is the inverse of lla2ecef to a centimetre.

The fixed-point iteration of ecef2lla is verified as it stands in /repo, in exact
real arithmetic, for all latitudes, longitudes and altitudes of the domain:

  contract   each loop variable has a specified value (latitude, normal length,
             altitude, ...) - guessed from runs of the code, then proved:
  invariant  (symbolic) from the specified values every assignment of the loop
             yields the specified value again, on every path, and what is returned
             is the position asked for; derivatives that vanish there are proved 0;
  measure    (interval) the distance of the loop variables from the specified
             values is enclosed by the mean value theorem, iteration by iteration,
             over boxes of latitude and altitude covering the domain; on every box
             every path - every number of iterations the loop condition allows -
             returns a position within a centimetre.

The loops are instrumented (entry, assignments, head) when the module is loaded;
nothing else is changed."""
import ast
import builtins
import importlib
import math
import os
import random
import time
import traceback
import types
from fractions import Fraction
import numpy as np
from . import real
from .real import R, Ctx, Cond, Unsupported, Infeasible, equal, sincos, PI, explore
from .interval import IV, PI as IPI, ONE, ZERO
from . import f_num
from .f_num import NRun, wgs, rad, deg, REPO, RC


class Special:
    __hash__ = None
    __array_priority__ = 1000
    __array_ufunc__ = None


# ---------------------------------------------------------- instrumentation --
class Mode:
    """what the instrumentation does; this one: nothing"""
    cur = None

    def enter(self, loop, name, val):
        return val

    def set(self, loop, site, name, val):
        return val

    def head(self, loop):
        pass

    def iter(self, loop, it):
        return it

    def item(self, loop, name, val):
        return val


def hook(name):
    def g(*a):
        m = Mode.cur
        return getattr(m, name)(*a) if m is not None else a[-1] if a else None
    return g


def names_in(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for e in t.elts for n in names_in(e)]
    if isinstance(t, ast.Starred):
        return names_in(t.value)
    return []


def targets(s):
    if isinstance(s, ast.Assign):
        return [n for t in s.targets for n in names_in(t)]
    if isinstance(s, (ast.AugAssign, ast.AnnAssign)) and (s.value is not None):
        return names_in(s.target)
    return []


def call(f, *args):
    return ast.Call(ast.Name(f, ast.Load()), list(args), [])


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.fn, self.loop, self.n = '', None, 0

    def visit_FunctionDef(self, n):
        save = self.fn, self.loop
        self.fn, self.loop = n.name, None
        n.body = self.block(n.body)
        self.fn, self.loop = save
        return n

    def visit_Lambda(self, n):
        return n

    def block(self, body):
        out = []
        for s in body:
            r = self.stmt(s)
            out += r
        return out

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return [self.visit_FunctionDef(s)] if isinstance(s, ast.FunctionDef) else [s]
        if isinstance(s, ast.ClassDef):
            return [self.generic_visit(s)]
        if isinstance(s, (ast.For, ast.While)):
            if self.loop is None:
                self.n += 1
                self.loop = f'{self.fn}:loop{self.n}'
                carried = sorted({n for b in s.body for w in ast.walk(b) for n in targets(w)})
                pre = []
                for n in carried:
                    pre.append(ast.Try(
                        body=[ast.Assign([ast.Name(n, ast.Store())],
                                         call('__enter__', ast.Constant(self.loop), ast.Constant(n), ast.Name(n, ast.Load())))],
                        handlers=[ast.ExceptHandler(ast.Name('__nameerror__', ast.Load()), None, [ast.Pass()])],
                        orelse=[], finalbody=[]))
                head = [ast.Expr(call('__head__', ast.Constant(self.loop)))]
                if isinstance(s, ast.For):
                    s.iter = call('__iter__', ast.Constant(self.loop), s.iter)
                    for n in names_in(s.target):
                        head.append(ast.Assign([ast.Name(n, ast.Store())],
                                               call('__item__', ast.Constant(self.loop), ast.Constant(n), ast.Name(n, ast.Load()))))
                s.body = head + self.block(s.body)
                s.orelse = self.block(s.orelse)
                self.loop = None
                return pre + [s]
            s.body, s.orelse = self.block(s.body), self.block(s.orelse)
            return [s]
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(s, f, None), list):
                setattr(s, f, self.block(getattr(s, f)))
        for h in getattr(s, 'handlers', []):
            h.body = self.block(h.body)
        out = [s]
        if self.loop is not None:
            for j, n in enumerate(targets(s)):
                site = f'{self.fn}:{s.lineno}:{s.col_offset}:{j}:{n}'
                out.append(ast.Assign([ast.Name(n, ast.Store())],
                                      call('__set__', ast.Constant(self.loop), ast.Constant(site), ast.Constant(n),
                                           ast.Name(n, ast.Load()))))
        return out


HOOKS = {f'__{h}__': hook(h) for h in ('enter', 'set', 'head', 'iter', 'item')}


def instrument(tree):
    tree = Instrument().visit(tree)
    return ast.fix_missing_locations(tree)


class Instrumented:
    """mixin of loaders"""


def special(xs):
    for x in xs:
        if isinstance(x, Special):
            return x
    return None


def disp(name, f):
    def g(*a, **k):
        s = special(a)
        if s is None:
            return f(*a, **k)
        if len(a) == 1:
            return getattr(s, 'm_' + name)()
        return getattr(type(s), 'm_' + name)(*a)
    return g


class GMATH(real.MATH):
    def __init__(self):
        super().__init__()
        d = self.__dict__
        for n in ('sin', 'cos', 'tan', 'sqrt', 'atan', 'asin', 'acos', 'atan2'):
            d[n] = disp(n, getattr(real.MATH, n))
        d['fabs'] = lambda x: abs(x) if isinstance(x, Special) else real.absolute(x)
        d['pow'] = lambda x, n: x ** n if isinstance(x, Special) else R.of(x) ** n
        d['radians'] = lambda x: (x if isinstance(x, Special) else R.of(x)) * PI() / 180
        d['degrees'] = lambda x: (x if isinstance(x, Special) else R.of(x)) * 180 / PI()
        d['hypot'] = hypot
        for n in ('floor', 'ceil', 'trunc', 'isclose', 'copysign'):
            d[n] = noway(n, getattr(real.MATH, n))


def noway(n, f):
    def g(*a, **k):
        if special(a) is not None:
            raise Unsupported(f'{n} of a loop value')
        return f(*a, **k)
    return g


def hypot(*xs):
    if special(xs) is None:
        return real.MATH.hypot(*xs)
    t = None
    for x in xs:
        t = x * x if t is None else t + x * x
    return t.m_sqrt() if isinstance(t, Special) else real.sqrt(t)


class GNP(real.NP):
    def __init__(self):
        super().__init__()
        d = self.__dict__
        m = GMATH()
        for n, k in (('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('sqrt', 'sqrt'), ('arctan', 'atan'), ('arcsin', 'asin'),
                     ('arccos', 'acos'), ('arctan2', 'atan2'), ('hypot', 'hypot')):
            old = getattr(real.NP, n, None)
            if old is not None:
                d[n] = self.pick(m.__dict__[k], old)
        d['abs'] = d['absolute'] = d['fabs'] = lambda x: abs(x) if isinstance(x, (Special, R)) else np.abs(x)

    @staticmethod
    def pick(new, old):
        return lambda *a, **k: new(*a) if special(a) is not None else old(*a, **k)


class GFloat(real.FloatMeta):
    def __call__(cls, x=0):
        return x if isinstance(x, Special) else real.FLOAT(x)

    def __instancecheck__(cls, x):
        return isinstance(x, (float, R, Fraction, Special))


class GFLOAT(metaclass=GFloat):
    pass


class GLoader(real.Loader):
    def transform(self, tree):
        return instrument(tree)

    def load(self, name):
        new = name not in self.mods
        self.math = self.math or GMATH()
        self.np = self.np or GNP()
        if not new:
            return self.mods[name]
        # the hooks have to be there while the module is executed
        extra = {'__nameerror__': NameError, **HOOKS}
        save = dict(vars(builtins))
        keep = {k: save.get(k) for k in extra}
        try:
            for k, v in extra.items():
                setattr(builtins, k, v)
            old = real.FLOAT
            mod = super().load(name)
            mod.__dict__['__builtins__'] = {**mod.__dict__['__builtins__'], **extra, 'float': GFLOAT}
        finally:
            for k, v in keep.items():
                if v is None:
                    delattr(builtins, k)
                else:
                    setattr(builtins, k, v)
        return mod


class FloatLoader:
    """the module as it is, with the instrumentation only"""

    def __init__(self, repo):
        self.repo, self.mods = repo, {}

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.repo, *name.split('.'))
        path = path + '.py' if os.path.exists(path + '.py') else os.path.join(path, '__init__.py')
        with open(path) as f:
            tree = instrument(ast.parse(f.read(), path))
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = name.rpartition('.')[0]
        self.mods[name] = mod
        b = {**vars(builtins), '__nameerror__': NameError, **HOOKS}

        def imp(n, g=None, l=None, fromlist=(), level=0):
            if level:
                base = (g or {}).get('__package__') or 'opendis'
                n = f'{base}.{n}' if n else base
            if n.split('.')[0] == 'opendis':
                if fromlist:
                    subs = {f: self.load(f'{n}.{f}') for f in fromlist
                            if os.path.exists(os.path.join(self.repo, *n.split('.'), f + '.py'))}
                    return types.SimpleNamespace(**subs) if subs else self.load(n)
                return types.SimpleNamespace(**{n.split('.')[1]: self.load(n)})
            return importlib.__import__(n, g, l, fromlist, 0)
        b['__import__'] = imp
        mod.__dict__['__builtins__'] = b
        exec(compile(tree, path, 'exec'), mod.__dict__)
        return mod


# ------------------------------------------------- specified values (truths) --
def float_truths(a, e2, phi, h):
    s, c = math.sin(phi), math.cos(phi)
    w = math.sqrt(1 - e2 * s * s)
    N = a / w
    return {'lat': phi, 'lat deg': math.degrees(phi), 'sin lat': s, 'cos lat': c, 'tan lat': s / c, 'N': N, 'alt': h,
            'N + alt': N + h, 'N (1 - e^2) + alt': N * (1 - e2) + h, 'N (1 - e^2)': N * (1 - e2),
            'par': math.atan(math.sqrt(1 - e2) * s / c), 'sin par': math.sqrt(1 - e2) * s / w, 'cos par': c / w, 'tan par': math.sqrt(1 - e2) * s / c,
            'e^2 N sin lat': e2 * N * s, 'z + e^2 N sin lat': (N + h) * s}


class Record(Mode):
    def __init__(self):
        self.site, self.last, self.order = {}, {}, []

    def enter(self, loop, name, val):
        self.last[loop, name] = val
        return val

    def set(self, loop, site, name, val):
        self.site[site] = val
        self.last[loop, name] = val
        if len(self.order) < 10000:
            self.order.append(site)
        elif len(self.order) > 9999:
            raise Unsupported('the loop does not end on a concrete position')
        return val


def infer():
    """truth of each assignment and of each loop variable at the loop head"""
    M = FloatLoader(REPO).load(RC)
    rng = random.Random(5)
    sites, heads = {}, {}
    a, e2 = M.WGS84.a, 1 - (M.WGS84.b / M.WGS84.a) ** 2
    for j in range(10):
        phi, lam = rng.choice([-1, 1]) * rng.uniform(.2, 1.3), rng.uniform(-3, 3)
        h = rng.choice([rng.uniform(1e3, 1e6), rng.uniform(-9000, -1000), rng.uniform(1e6, 5e7)])
        t = float_truths(a, e2, phi, h)
        N = t['N']
        p = [(N + h) * math.cos(phi) * math.cos(lam), (N + h) * math.cos(phi) * math.sin(lam), (N * (1 - e2) + h) * math.sin(phi)]
        rec = Mode.cur = Record()
        try:
            M.GPS().ecef2lla(tuple(p))
        finally:
            Mode.cur = None

        def fits(v):
            if isinstance(v, bool) or not isinstance(v, (int, float, np.floating)):
                return set()
            out = {k for k, x in t.items() if abs(v - x) <= 1e-6 * abs(x)}
            return out or ({'0'} if abs(v) < 1e-7 else set())
        for store, seen in ((sites, rec.site), (heads, rec.last)):
            for k, v in seen.items():
                store.setdefault(k, []).append(fits(v))

    def most(seen):
        """what it is in most runs"""
        names = sorted({x for s in seen for x in s})
        best = max(names, key=lambda x: sum(x in s for s in seen), default=None)
        return best if best and sum(best in s for s in seen) > .55 * len(seen) else None
    return {k: most(v) for k, v in sites.items()}, {k: most(v) for k, v in heads.items()}


# ------------------------------------------------------------ symbolic values --
class ND:
    """a condition on loop values: either may happen"""

    def __init__(self, mode):
        self.mode = mode

    def __bool__(self):
        c = real.cx()
        self.mode.nd = True
        i = c.gen('choice', lambda env: 0.0)
        return bool(Cond(R.g(i), '<'))

    def __and__(self, o):
        return self if not isinstance(o, bool) else (self if o else False)

    def __or__(self, o):
        return self if not isinstance(o, bool) else (True if o else self)

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return self


class D(Special):
    """a value at the specified values of the loop variables, with its derivatives by them"""
    __slots__ = ('v', 'd')

    def __init__(self, v, d):
        self.v, self.d = v, d

    @staticmethod
    def of(x):
        if isinstance(x, D):
            return x
        r = R.of(x)
        return None if r is None else D(r, {})

    def _bin(f):
        def g(self, o):
            o = D.of(o)
            return NotImplemented if o is None else f(self, o)
        return g

    @staticmethod
    def lin(v, *terms):
        d = {}
        for k, x in terms:
            for n, y in (x.d or {}).items():
                t = y * k
                d[n] = d[n] + t if n in d else t
        return D(nice(v), {n: nice(y) for n, y in d.items()})

    @_bin
    def __add__(self, o):
        return D.lin(self.v + o.v, (1, self), (1, o))

    @_bin
    def __sub__(self, o):
        return D.lin(self.v - o.v, (1, self), (-1, o))

    @_bin
    def __rsub__(self, o):
        return o - self

    @_bin
    def __mul__(self, o):
        return D.lin(self.v * o.v, (o.v, self), (self.v, o))

    @_bin
    def __truediv__(self, o):
        q = nice(self.v / o.v)
        return D.lin(q, (1 / o.v, self), (-q / o.v, o))

    @_bin
    def __rtruediv__(self, o):
        return o / self

    __radd__, __rmul__ = __add__, __mul__

    def __neg__(self):
        return D(-self.v, {n: -y for n, y in self.d.items()})

    def __pos__(self):
        return self

    def __pow__(self, n):
        n = n.const() if isinstance(n, R) else n
        if n is None or (2 * n).__class__(int(2 * n)) != 2 * n:
            raise Unsupported('power of a loop value')
        n = Fraction(n)
        if n.denominator == 2:
            return self.m_sqrt() ** n.numerator
        n = int(n)
        if n < 0:
            return 1 / self ** -n
        if n == 0:
            return D(R.of(1), {})
        return D.lin(self.v ** n, (n * self.v ** (n - 1), self))

    def __abs__(self):
        if not self.v.num:
            return Kink(self.v)
        s = self.v.const()
        if s is not None:
            return self if s > 0 else -self
        c = Cond(self.v, '<')
        return -self if bool(c) else self

    def _cmp(self, o):
        return ND(Mode.cur) if D.of(o) is not None else NotImplemented

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _cmp

    def __bool__(self):
        return bool(ND(Mode.cur))

    def m_sqrt(self):
        r = nice(real.sqrt(self.v))
        return D.lin(r, (1 / (2 * r), self))

    def m_sin(self):
        s, c = sincos(self.v)
        return D.lin(s, (c, self))

    def m_cos(self):
        s, c = sincos(self.v)
        return D.lin(c, (-s, self))

    def m_tan(self):
        return self.m_sin() / self.m_cos()

    def m_atan(self):
        t = Mode.cur.T
        for n in ('lat', 'par'):                            # both are in (-pi/2, pi/2)
            if equal(self.v * t[f'cos {n}'], t[f'sin {n}']):
                return D.lin(t[n], (t[f'cos {n}'] ** 2, self))
        raise Unsupported('arc tangent of another value than tan(lat)')

    def m_asin(self):
        t = Mode.cur.T
        for n in ('lat', 'par'):
            if equal(self.v, t[f'sin {n}']):
                return D.lin(t[n], (1 / t[f'cos {n}'], self))
        raise Unsupported('arc sine of another value than sin(lat)')

    def m_acos(self):
        raise Unsupported('arc cosine of a loop value')

    @staticmethod
    def m_atan2(y, x):
        y, x = D.of(y), D.of(x)
        t = Mode.cur.T
        for n in ('lat', 'par'):
            k = nice(x.v / t[f'cos {n}'])                   # (y, x) = k (sin, cos), k > 0
            if equal(k * t[f'sin {n}'], y.v) and Mode.cur.positive(k):
                q = 1 / k
                return D.lin(t[n], (q * t[f'cos {n}'], y), (-q * t[f'sin {n}'], x))
        raise Unsupported('arc tangent of another direction than lat')

    def __repr__(self):
        return f'D({self.v!r})'


class Kink(Special):
    """|0|: good for conditions only"""

    def __init__(self, v):
        self.v = v

    def _cmp(self, o):
        return ND(Mode.cur)

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _cmp

    def _no(self, *a):
        raise Unsupported('absolute value of a difference that vanishes')

    __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = _no

    def __mul__(self, o):
        return self

    __rmul__ = __truediv__ = __mul__

    def __abs__(self):
        return self


def nice(r):
    """the simplest form among the specified values, when r is one of them"""
    m = Mode.cur
    if not isinstance(r, R) or r.den is None or m is None or not hasattr(m, 'env'):
        return r
    try:
        x = r.ev(m.env)
    except (ZeroDivisionError, ValueError, OverflowError, IndexError, KeyError):
        return r
    for k, (t, y) in m.good.items():
        if abs(x - y) <= 1e-9 * (abs(y) + 1e-12) and equal(r, t):
            return t
    return r


class Done(Exception):
    """the path is back at the loop head with the specified values"""


class Symbolic(Mode):
    def __init__(self, run, T, env, sites, heads, flags):
        self.run, self.T, self.env = run, T, env
        self.sites, self.heads, self.flags = sites, heads, flags
        self.state, self.heads_seen = {}, {}
        self.nd = False
        self.loops = {lp for (lp, _n), t in heads.items() if t}
        self.good = {k: (v, v.ev(env)) for k, v in T.items()}
        self.count = self.vars = 0

    def positive(self, r):
        return any(equal(r, self.T[k]) for k in ('N', 'N + alt', 'N (1 - e^2) + alt', 'N (1 - e^2)', '1')) \
            or real.cx().ask(Cond(r, '<=')) == 'unsat'

    def enter(self, loop, name, val):
        t = self.heads.get((loop, name))
        if not self.abstract(loop):
            return val
        if isinstance(val, bool):
            return bool(ND(self))
        if t is None:
            if isinstance(val, int):
                return R.g(real.cx().gen('any', lambda env: 1.0))
            if isinstance(val, R) or val is None:
                raise Unsupported(f'no contract for {name}')
            return val
        if val is None and bool(ND(self)):
            return None
        self.state[loop, name] = True
        return D(self.T[t], {self.fresh(): R.of(1)})

    def set(self, loop, site, name, val):
        if not self.abstract(loop):
            return val
        self.count += 1
        if self.count > 400:
            raise Unsupported('too many assignments on a path')
        t = self.sites.get(site)
        if t is None or isinstance(val, bool):
            if (loop, name) in self.state:
                self.state[loop, name] = False
            return val
        if isinstance(val, Kink) and t == '0':
            self.flags[site] = False
            if (loop, name) in self.state:
                self.state[loop, name] = self.heads.get((loop, name)) == '0'
            return val
        d = D.of(val)
        if d is None:
            raise Unsupported(f'{name} is a {type(val).__name__}')
        self.run.eq(d.v, self.T[t], f'{name} at {":".join(site.split(":")[:2])} keeps its value {t}')
        flat = all(not y.num or equal(y, 0) for y in d.d.values())
        self.flags[site] = self.flags.get(site, True) and flat
        if (loop, name) in self.state:
            self.state[loop, name] = t == self.heads.get((loop, name))
        return D(self.T[t], {self.fresh(): R.of(1)})

    def fresh(self):
        self.vars += 1
        return self.vars

    def check(self, loop):
        for (lp, n), ok in self.state.items():
            if lp == loop:
                self.run.check(ok, f'{n} has its value at the loop head', 'not established')

    def head(self, loop):
        if not self.abstract(loop):
            return
        k = self.heads_seen[loop] = self.heads_seen.get(loop, 0) + 1
        if k > 1:
            self.check(loop)
            raise Done()

    def iter(self, loop, it):
        if not self.abstract(loop):
            return it

        def g():
            for x in it:
                yield x
                break
            self.heads_seen[loop] = 0
            self.check(loop)
        return g()

    def abstract(self, loop):
        return loop in self.loops

    def item(self, loop, name, val):
        if isinstance(val, int) and self.abstract(loop):
            return R.g(real.cx().gen('any', lambda env: 1.0))
        return val


def snapshot(M, g):
    """the state a call may leave behind"""
    return f_num.state(M), f_num.state(g)


def g_symbolic(form, budget):
    """from the specified values each iteration gives them again and the result is the position"""
    run = NRun('GPS.ecef2lla', f'the specified values are a fixed point of every path, on a {form}', budget)
    sites, heads = infer()
    flags = {}
    if not any(heads.values()):
        run.reason = 'no loop variable has a specified value'
        run.secs = 0
        return run.result(), sites, heads, flags

    def fn(run, _):
        c = run.c
        L = GLoader(REPO)
        M = L.load(RC)
        a, e2 = wgs(M)
        lat, lon = run.inp('lat', 'lat'), run.inp('lon', 'lon')
        q = R.g(c.gen('q', lambda env: env['in']['q'], True))
        run.kinds['q'] = 'axis'
        phi, lam = rad(lat), rad(lon)
        (s, co), (sl, cl) = sincos(phi), sincos(lam)
        c.facts.append(lambda: c.zpoly(co.num) > 0)
        c.facts.append(lambda: c.zpoly(q.num) > 0)
        for i, _e in real.exps(next(iter(co.num))):
            c.nonneg.add(i)
        w = real.sqrt(1 - e2 * s * s)
        N = a / w
        h = q / co - N
        z = (q / co - e2 * N) * s
        T = {'lat': phi, 'lat deg': lat, 'sin lat': s, 'cos lat': co, 'tan lat': s / co, 'N': N, 'alt': h, 'N + alt': q / co,
             'N (1 - e^2) + alt': q / co - e2 * N, 'N (1 - e^2)': N * (1 - e2), '0': R.of(0), '1': R.of(1), 'p': q, 'z': z,
             'sin par': real.sqrt(R.of(1 - e2)) * s / w, 'cos par': co / w, 'tan par': real.sqrt(R.of(1 - e2)) * s / co,
             'e^2 N sin lat': e2 * N * s, 'z + e^2 N sin lat': q / co * s, 'w': w}
        par = R.g(c.gen('par', lambda env: math.atan2(T['sin par'].ev(env), T['cos par'].ev(env))))
        c.angles[(next(iter(par.num)), Fraction(1))] = (T['sin par'], T['cos par'])
        T['par'] = par
        env = Lazy(c, {'lat': 33.25, 'lon': 71.5, 'q': 5432100.0})
        mode = Mode.cur = Symbolic(run, T, env, sites, heads, flags)
        g = M.GPS()
        before = snapshot(M, g)
        try:
            try:
                x = f_num.form_of([q * cl, q * sl, z], form)
                got = g.ecef2lla(x)
            except Done:
                return
            except (Infeasible, Unsupported):
                raise
            except Exception as ex:     # noqa: BLE001
                if mode.nd:
                    return              # whether a branch that raises is taken is for the interval run to say
                raise
            finally:
                Mode.cur = None
            run.check(snapshot(M, g) == before, 'no state is left behind')
            f_num.unchanged(run, [x], [f_num.form_of([q * cl, q * sl, z], form)], 'ecef2lla')
            r = list(got) if isinstance(got, (tuple, list, np.ndarray)) else []
            if len(r) != 3:
                return run.fail('latitude, longitude and altitude', repr(got)[:200])
            for k, y in enumerate(r):
                flat = isinstance(y, D) and all(not d.num or equal(d, 0) for d in y.d.values())
                flags['return', k] = flags.get(('return', k), True) and flat
            r = [x.v if isinstance(x, D) else x for x in r]
            run.eq(r[0], lat, 'latitude')
            run.eq(r[2], h, 'altitude')
            lo = R.of(r[1])
            if lo is None:
                return run.fail('longitude', repr(r[1])[:100])
            so = sincos(rad(lo))
            run.eq(so[0], sl, 'sine of the longitude')
            run.eq(so[1], cl, 'cosine of the longitude')
            run.holds(lo >= -180, 'longitude at least -180')
            run.holds(lo <= 180, 'longitude at most 180')
        finally:
            Mode.cur = None
    run.defined = lambda: None      # divisors and roots are a matter of the interval run
    run.explore(fn)
    for c in run.cex:
        i = c['inputs']
        phi = math.radians(i['lat'])
        i['alt'] = i.pop('q') / math.cos(phi) - 6378137.0 / math.sqrt(1 - .0066943799901413165 * math.sin(phi) ** 2)
    return run.result(), sites, heads, flags


class Lazy(dict):
    """values of the generators on demand"""

    def __init__(self, c, inputs):
        super().__init__()
        self.c = c
        self['in'] = inputs

    def __missing__(self, i):
        v = self.c.val[i](self)
        self[i] = v
        return v


def g_pole(sign, budget):
    run = NRun('GPS.ecef2lla', f'{"north" if sign > 0 else "south"} pole', budget)

    def fn(run, _):
        L = GLoader(REPO)
        M = L.load(RC)
        a, e2 = wgs(M)
        b = real.sqrt(R.of(a * a * (1 - e2)))
        h = run.inp('alt', 'alt')
        run.given(h >= -10000)
        run.given(h <= 50000000)
        g = M.GPS()
        before = snapshot(M, g)
        got = g.ecef2lla((R.of(0), R.of(0), sign * (b + h)))
        run.check(snapshot(M, g) == before, 'no state is left behind')
        r = list(got) if isinstance(got, (tuple, list, np.ndarray)) else []
        if len(r) != 3:
            return run.fail('latitude, longitude and altitude', repr(got)[:200])
        run.eq(r[0], sign * 90, 'latitude')
        for c in (R.of(r[2]) - h <= Fraction(1, 100), R.of(r[2]) - h >= -Fraction(1, 100)):
            run.holds(c, 'altitude within a centimetre')
        lo = R.of(r[1])
        run.check(lo is not None, 'a longitude')
        if lo is not None:
            run.holds(lo >= -180, 'longitude at least -180')
            run.holds(lo <= 180, 'longitude at most 180')
    run.explore(fn)
    return run.result()


# ------------------------------------------------------------ interval values --
NODES = (0, .5, .75, .875, .9375, .97, .985, 1)
T0, T1 = np.array(NODES[:-1]), np.array(NODES[1:])
W1 = T1 - T0
W2 = ((1 - T0) ** 2 - (1 - T1) ** 2) / 2
TIV = IV(T0, T1)
P = len(W1)
ALL = IV(-np.inf, np.inf)


def i_add(a, b):
    return b if a is None else a if b is None else a + b


def i_sub(a, b):
    return a if b is None else -b if a is None else a - b


def i_mul(a, b):
    return None if a is None or b is None else a * b


TWO = IV(2.0, 2.0)


class J(Special):
    """a value along the way from the specified state (t = 0) to the actual one (t = 1):
    enclosures of value and two derivatives by t on pieces of [0, 1], and of the actual value"""
    __slots__ = ('v', 'v1', 'v2', 'act', 'base', 'dev', 'quot')

    def __init__(self, v, v1, v2, act, base=None, dev=None, quot=None):
        self.v, self.v1, self.v2, self.act, self.base, self.dev, self.quot = v, v1, v2, act, base, dev, quot

    @staticmethod
    def of(x):
        if isinstance(x, J):
            return x
        if isinstance(x, Sq):
            return x.j
        if isinstance(x, Special):
            return None
        if isinstance(x, float) and math.isinf(x):
            i = IV(x, x)
            return J(i, None, None, i)
        x = R.of(x)
        if x is None:
            return None
        i = riv(x)
        return J(i, None, None, i)

    def _bin(f):
        def g(self, o):
            o = J.of(o)
            return NotImplemented if o is None else f(self, o)
        return g

    @_bin
    def __add__(self, o):
        return J(self.v + o.v, i_add(self.v1, o.v1), i_add(self.v2, o.v2), self.act + o.act)

    def minus(self, o):
        v, v1, v2, act = self.v - o.v, i_sub(self.v1, o.v1), i_sub(self.v2, o.v2), self.act - o.act
        if self.base is not None and self.base == o.base:
            d = self.dev - o.dev
            return J(TIV * d, d + ZERO_P, ZERO_P, act.meet(d), '0', d)
        return J(v, v1, v2, act)

    @_bin
    def __sub__(self, o):
        return self.minus(o)

    @_bin
    def __rsub__(self, o):
        return o.minus(self)

    @_bin
    def __mul__(self, o):
        if o is self:
            return self ** 2
        x = i_mul(self.v1, o.v1)
        return J(self.v * o.v, i_add(i_mul(self.v1, o.v), i_mul(self.v, o.v1)),
                 i_add(i_add(i_mul(self.v2, o.v), i_mul(self.v, o.v2)), i_mul(TWO, x)), self.act * o.act)

    def over(self, o):
        Mode.cur.undefined((o.v.lo <= 0) & (o.v.hi >= 0), (o.act.lo <= 0) & (o.act.hi >= 0))
        q = self.v / o.v
        q1 = i_sub(self.v1, i_mul(q, o.v1))
        q1 = None if q1 is None else q1 / o.v
        q2 = i_sub(i_sub(self.v2, i_mul(TWO, i_mul(q1, o.v1))), i_mul(q, o.v2))
        q2 = None if q2 is None else q2 / o.v
        return J(q, q1, q2, self.act / o.act, quot=(self, o))

    @_bin
    def __truediv__(self, o):
        return self.over(o)

    @_bin
    def __rtruediv__(self, o):
        return o.over(self)

    __radd__, __rmul__ = __add__, __mul__

    def __neg__(self):
        n = lambda x: None if x is None else -x        # noqa: E731
        return J(-self.v, n(self.v1), n(self.v2), -self.act,
                 '0' if self.base == '0' else None, -self.dev if self.base == '0' else None,
                 (-self.quot[0], self.quot[1]) if self.quot else None)

    def __pos__(self):
        return self

    def __pow__(self, n):
        n = n.const() if isinstance(n, R) else n
        n = Fraction(n) if isinstance(n, (int, float, Fraction)) else None
        if n is None or n.denominator > 2 or abs(n) > 12:
            raise Unsupported('power of a loop value')
        if n < 0:
            return J.of(1) / self ** -n
        if n.denominator == 2:
            r = self.m_sqrt()
            return r if n == Fraction(1, 2) else r * self ** int(n - Fraction(1, 2))
        n = int(n)
        if n == 0:
            return J.of(1)
        if n == 1:
            return self
        if n == 2:
            v1 = i_mul(TWO, i_mul(self.v, self.v1))
            x = None if self.v1 is None else TWO * (self.v1.sq() + self.v * self.v2)
            return J(self.v.sq(), v1, x, self.act.sq())
        h = self ** (n // 2)
        h = h ** 2
        return h * self if n % 2 else h

    def __abs__(self):
        if bool((self.v.lo >= 0).all()):
            return self
        if bool((self.v.hi <= 0).all()):
            return -self
        pos, neg = self.v.lo >= 0, self.v.hi <= 0
        if self.v1 is None:
            return J(self.v.abs(), None, None, self.act.abs())
        m = self.v1.mag()
        one = IV(np.where(pos, self.v1.lo, np.where(neg, -self.v1.hi, -m)), np.where(pos, self.v1.hi, np.where(neg, -self.v1.lo, m)))
        return J(self.v.abs(), one, ALL + ZERO_P, self.act.abs())

    def _cmp(self, o):
        """bounds of self - o"""
        o = J.of(o)
        return None if o is None else self.minus(o).act

    def __lt__(self, o):
        d = self._cmp(o)
        return NotImplemented if d is None else Tri(d.lo < 0, d.hi >= 0)

    def __le__(self, o):
        d = self._cmp(o)
        return NotImplemented if d is None else Tri(d.lo <= 0, d.hi > 0)

    def __gt__(self, o):
        d = self._cmp(o)
        return NotImplemented if d is None else Tri(d.hi > 0, d.lo <= 0)

    def __ge__(self, o):
        d = self._cmp(o)
        return NotImplemented if d is None else Tri(d.hi >= 0, d.lo < 0)

    def __eq__(self, o):
        d = self._cmp(o)
        return NotImplemented if d is None else Tri((d.lo <= 0) & (d.hi >= 0), (d.lo != 0) | (d.hi != 0))

    def __ne__(self, o):
        d = self._cmp(o)
        return NotImplemented if d is None else Tri((d.lo != 0) | (d.hi != 0), (d.lo <= 0) & (d.hi >= 0))

    def __bool__(self):
        return bool(self != 0)

    def m_sqrt(self):
        Mode.cur.undefined(self.v.lo < 0, self.act.lo < 0)
        r = self.v.nonneg().sqrt()
        k = TWO * r
        r1 = None if self.v1 is None else self.v1 / k
        r2 = None if self.v1 is None else (self.v2 - TWO * r1.sq()) / k
        return J(r, r1, r2, self.act.nonneg().sqrt())

    def m_sin(self):
        return self.trig(self.v.sin(), self.v.cos(), self.act.sin())

    def m_cos(self):
        return self.trig(self.v.cos(), -self.v.sin(), self.act.cos())

    def trig(self, f, g, act):
        if self.v1 is None:
            return J(f, None, None, act)
        return J(f, g * self.v1, g * self.v2 - f * self.v1.sq(), act)

    def m_tan(self):
        return self.m_sin() / self.m_cos()

    def m_atan(self):
        if self.quot is not None and bool((self.quot[1].v.lo > 0).all() and (self.quot[1].act.lo > 0).all()):
            return J.m_atan2(*self.quot)
        q = ONE + self.v.sq()
        v1 = None if self.v1 is None else self.v1 / q
        v2 = None if self.v1 is None else (self.v2 - TWO * self.v * self.v1 * v1) / q
        return J(self.v.atan(), v1, v2, self.act.atan())

    @staticmethod
    def m_atan2(u, d):
        """of a point of the half plane d >= 0 apart from the origin"""
        u, d = J.of(u), J.of(d)
        if u is None or d is None:
            raise Unsupported('direction of these values')
        f = lambda a, b: ((a.lo <= 0) & (a.hi >= 0) & (b.lo <= 0)) | (b.lo < 0)        # noqa: E731
        Mode.cur.undefined(f(u.v, d.v), f(u.act, d.act))
        w = i_sub(i_mul(u.v1, d.v), i_mul(u.v, d.v1))
        v1 = v2 = None
        if w is not None:
            q = u.v.sq() + d.v.sq()
            v1 = w / q
            w1 = i_sub(i_mul(u.v2, d.v), i_mul(u.v, d.v2))
            q1 = TWO * i_add(i_mul(u.v, u.v1), i_mul(d.v, d.v1))
            v2 = (i_add(w1, None) - v1 * q1) / q
        return J(IV.atan2(u.v, d.v), v1, v2, IV.atan2(u.act, d.act))

    def m_asin(self):
        Mode.cur.undefined((self.v.lo < -1) | (self.v.hi > 1), (self.act.lo < -1) | (self.act.hi > 1))
        c = (ONE - self.v.sq()).nonneg().sqrt()
        k = (ONE - self.act.sq()).nonneg().sqrt()
        v1 = None if self.v1 is None else self.v1 / c
        v2 = None if self.v1 is None else (self.v2 + self.v * v1.sq()) / c
        return J(IV.atan2(self.v, c), v1, v2, IV.atan2(self.act, k))

    def m_acos(self):
        return J(HALFPI, None, None, HALFPI) - self.m_asin()

    def __repr__(self):
        return f'J({self.act!r})'


HALFPI = IV(np.nextafter(math.pi / 2, 0), np.nextafter(math.pi / 2, 2))
ZERO_P = IV(np.zeros((1, P)), np.zeros((1, P)))


def riv(x):
    """an enclosure of a real without free inputs"""
    c = real.cx()

    def poly(p):
        t = ZERO
        for m, k in p.items():
            y = IV.of(Fraction(k))
            for i, e in real.exps(m):
                y = y * gen(i).pow(e)
            t = t + y
        return t

    def gen(i):
        if i == c.pi:
            return IPI
        for g, p in c.roots:
            if g == i:
                return poly(p).nonneg().sqrt()
        raise Unsupported(f'{c.names[i]} in the interval run')
    n = poly(x.num)
    return n if x.den is None else n / poly(x.den)


class Tri:
    """a condition: where it can be true and where it can be false"""

    def __init__(self, t, f):
        self.t, self.f = np.asarray(t), np.asarray(f)

    def __bool__(self):
        return Mode.cur.decide(self.t, self.f)

    def __and__(self, o):
        return Tri(self.t & o.t, self.f | o.f) if isinstance(o, Tri) else (self if o else False)

    def __or__(self, o):
        return Tri(self.t | o.t, self.f & o.f) if isinstance(o, Tri) else (True if o else self)

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return Tri(self.f, self.t)


class Tag(Special):
    """the first or second coordinate: p cos(lon), p sin(lon) for any lon, up to a sign"""

    def __init__(self, n):
        self.n = n

    def __neg__(self):
        return Tag(self.n)

    def __pos__(self):
        return self

    __abs__ = __pos__

    def __pow__(self, k):
        k = k.const() if isinstance(k, R) else k
        if k != 2:
            raise Unsupported('power of a coordinate')
        return Sq(self.n)

    def __mul__(self, o):
        if isinstance(o, Tag) and o.n == self.n:
            return Sq(self.n)
        return NotImplemented

    def nonzero(self):
        m = Mode.cur
        if self.n in m.zero:
            return m.zero[self.n]
        if any(not v for v in m.zero.values()):
            return True                 # not both
        return None

    def known(self, b):
        Mode.cur.zero[self.n] = b
        return b

    def __ne__(self, o):
        o = R.of(o) if not isinstance(o, Special) else None
        if o is None or o.const() != 0:
            return Tri(True, True)
        k = self.nonzero()
        return k if k is not None else self.known(bool(Tri(True, True)))

    def __eq__(self, o):
        r = self != o
        return not r if isinstance(r, bool) else ~r

    def _any(self, o):
        return Tri(True, True)

    __lt__ = __le__ = __gt__ = __ge__ = _any

    def __bool__(self):
        return bool(self != 0)

    @staticmethod
    def m_atan2(y, x):
        if isinstance(y, Tag) and isinstance(x, Tag) and y.n != x.n:
            return Opaque()
        raise Unsupported('direction of the coordinates')


class Sq(Special):
    """the square of a coordinate"""

    def __init__(self, n):
        self.n = n

    @property
    def j(self):
        m = Mode.cur
        p2 = m.p.act.sq()
        i = IV(np.zeros_like(p2.hi), p2.hi)
        return J(i, None, None, i)

    def __add__(self, o):
        if isinstance(o, Sq) and o.n != self.n:
            return PSq()
        if not isinstance(o, Special) and R.of(o) is not None and R.of(o).const() == 0:
            return self
        return NotImplemented

    __radd__ = __add__

    def _any(self, o):
        return Tri(True, True)

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _any


class PSq(J):
    """the square of the distance from the axis"""

    def __init__(self):
        p = Mode.cur.p
        q = p.v.sq()
        super().__init__(q, None, None, q)

    def m_sqrt(self):
        return Mode.cur.p


class Opaque(Special):
    """a longitude"""

    def _same(self, o):
        return Opaque()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __mod__ = _same

    def __neg__(self):
        return Opaque()

    __abs__ = __pos__ = __neg__

    def _any(self, o):
        return Tri(True, True)

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _any

    def m_sin(self):
        return Opaque()

    m_cos = m_tan = m_atan = m_asin = m_acos = m_sqrt = m_sin

    @staticmethod
    def m_atan2(y, x):
        return Opaque()


class TooMany(Exception):
    pass


class Nothing(Exception):
    """no box is left on this path"""


class Lanes(Mode):
    """one path of the code over all boxes"""

    def __init__(self, box, prefix, sites, heads, flags):
        self.T, self.p, self.z = box
        self.n = self.p.act.lo.shape[0]
        self.prefix, self.trail, self.todo = prefix, [], []
        self.active = np.ones((self.n, 1), bool)
        self.bad = np.zeros((self.n, 1), bool)
        self.zero = {}
        self.sites, self.heads, self.flags = sites, heads, flags
        self.entered = set()

    def undefined(self, v, act):
        """an operation is not defined there"""
        for x in (v, act):
            x = np.asarray(x)
            if x.any():
                if x.ndim == 2:
                    x = x.any(axis=1, keepdims=True)
                self.bad = self.bad | (self.active & x)

    def decide(self, t, f):
        t, f = np.broadcast_to(t, (self.n, 1)), np.broadcast_to(f, (self.n, 1))
        ct, cf = bool((self.active & t).any()), bool((self.active & f).any())
        if ct and cf:
            k = len(self.trail)
            if k < len(self.prefix):
                b = self.prefix[k]
            else:
                if k > 24:
                    raise TooMany()
                b = True
                self.todo.append(self.trail + [False])
            self.trail.append(b)
        else:
            b = ct
        self.active = self.active & (t if b else f) & ~self.bad
        if not self.active.any():
            raise Nothing()
        return b

    def rebase(self, base, dev):
        T = self.T[base]
        return J(T.v + TIV * dev, dev + ZERO_P, ZERO_P, T.act + dev, base, dev)

    def enter(self, loop, name, val):
        t = self.heads.get((loop, name))
        if t is None or isinstance(val, bool) or val is None:
            return val
        j = J.of(val)
        if j is None:
            return val
        self.entered.add((loop, name))
        if j.base == t:
            return j
        return self.rebase(t, (j.act - self.T[t].act))

    def set(self, loop, site, name, val):
        t = self.sites.get(site)
        if t is None or isinstance(val, bool) or (loop, name) not in self.entered:
            return val
        if isinstance(val, J) and val.base == t:
            return val
        j = J.of(val)
        if j is None:
            return val
        return self.rebase(t, self.deviation(j, self.T[t], self.flags.get(site, False)))

    def deviation(self, j, T, flat):
        """actual value less the specified one; at t = 0 they are the same"""
        d = j.act - T.act
        if j.v1 is None:
            return d
        full = lambda x: IV(np.broadcast_to(x.lo, (self.n, P)), np.broadcast_to(x.hi, (self.n, P)))      # noqa: E731
        d = d.meet(full(j.v1).total(W1))
        if flat:
            d = d.meet(full(j.v2).total(W2))
        return d


def truths(sign, pole, u, h, M):
    """the specified values over boxes; u: latitude or its distance from the pole"""
    a, e2 = riv(R.of(M.WGS84.a)), riv(R.of(wgs(M)[1]))
    if pole:
        c, s, phi = u.sin(), u.cos(), HALFPI - u
    else:
        s, c, phi = u.sin(), u.cos(), u
    # the sine of a small positive angle is positive
    tiny = (u.hi < 1e-3)
    lo, hi = u.lo * (1 - 1e-6), u.hi
    if pole:
        c = IV(np.where(tiny, np.maximum(c.lo, lo), c.lo), np.where(tiny, np.minimum(c.hi, hi), c.hi))
    else:
        s = IV(np.where(tiny, np.maximum(s.lo, lo), s.lo), np.where(tiny, np.minimum(s.hi, hi), s.hi))
    neg = sign < 0
    flip = lambda x: IV(np.where(neg, -x.hi, x.lo), np.where(neg, -x.lo, x.hi))      # noqa: E731
    w = (ONE - e2 * s.sq()).sqrt()
    N = a / w
    b1 = ONE - e2
    s, phi = flip(s), flip(phi)
    ih, p, m = h, (N + h) * c, N * b1 + h
    z = m * s
    r = b1.sqrt()
    T = {'lat': phi, 'lat deg': phi * IV.of(180) / IPI, 'sin lat': s, 'cos lat': c, 'tan lat': s / c, 'N': N, 'alt': ih,
         'N + alt': N + h, 'N (1 - e^2) + alt': m, 'N (1 - e^2)': N * b1, '0': ZERO + ZERO * s, '1': ONE + ZERO * s,
         'par': IV.atan2(r * s, c), 'sin par': r * s / w, 'cos par': c / w, 'tan par': r * s / c, 'e^2 N sin lat': e2 * N * s,
         'z + e^2 N sin lat': (N + h) * s, 'w': w}
    k = lambda x: J(x, None, None, x)        # noqa: E731
    return {n: k(x) for n, x in T.items()}, k(p), k(z)


def boxes(lo, hi, M):
    """lo, hi: arrays (n, 4): sign, pole, u, h"""
    out = []
    sign = lo[:, 0:1]
    for pole in (0, 1):
        u, h = IV(lo[:, 2:3], hi[:, 2:3]), IV(lo[:, 3:4], hi[:, 3:4])
        out.append(truths(sign, pole, u, h, M))
    sel = lo[:, 1:2] == 1

    def pick(x, y):
        i = IV(np.where(sel, y.v.lo, x.v.lo), np.where(sel, y.v.hi, x.v.hi))
        return J(i, None, None, i)
    (T, p, z), (T2, p2, z2) = out
    return {k: pick(T[k], T2[k]) for k in T}, pick(p, p2), pick(z, z2)


UB = [1e-300, 1e-14, 1e-11, 1e-9, 1e-7] + [10 ** (-6 + k / 2) for k in range(10)] + [.1, .2, .3, .4, .5, .6, .7]
UPI4 = .7853981633974484
HB = [-1e4, -2500, -600, -150, -40, -10, -1, 1, 10, 40, 150, 600, 2500, 1e4, 4e4, 1.6e5, 6.4e5, 1.6e6, 3.2e6, 6.4e6, 1.2e7, 2.5e7, 5e7]


def grid():
    lo, hi = [], []
    for pole in (0, 1):
        us = ([0.0] if not pole else []) + UB + [UPI4]
        for u0, u1 in zip(us, us[1:]):
            for h0, h1 in zip(HB, HB[1:]):
                for sign in (1, -1):
                    lo.append((sign, pole, u0, h0))
                    hi.append((sign, pole, u1, h1))
    return np.array(lo, float), np.array(hi, float)


def mid(a, b):
    with np.errstate(all='ignore'):
        g = np.sign(a) * np.sqrt(np.abs(a) * np.abs(b))
        m = (a + b) / 2
        ok = (a * b > 0) & ((b / a > 2) | (b / a < .5))
        return np.where(ok, g, m)


def split(lo, hi, axis):
    m = mid(lo[:, axis], hi[:, axis])
    l2, h1 = lo.copy(), hi.copy()
    l2[:, axis], h1[:, axis] = m, m
    return np.concatenate([lo, l2]), np.concatenate([h1, hi])


def run_boxes(lo, hi, sites, heads, flags, stat, deadline):
    """boxes on which every path returns a position within a centimetre"""
    n = len(lo)
    good = np.ones((n, 1), bool)
    why = {}
    todo = [[]]
    while todo:
        if time.time() > deadline:
            return np.zeros((n, 1), bool), {'time budget'}
        prefix = todo.pop()
        c = Ctx()
        c.hints = [R.of(1)]
        L = GLoader(REPO)
        M = L.load(RC)
        box = boxes(lo, hi, M)
        mode = Lanes(box, prefix, sites, heads, flags)
        mode.active &= good             # the others are split anyway
        stat['paths'] += 1
        note = None
        Mode.cur = mode
        try:
            got = M.GPS().ecef2lla((Tag('x'), Tag('y'), mode.z))
            r = list(got) if isinstance(got, (tuple, list, np.ndarray)) else []
            la, lo_, al = (J.of(r[0]), r[1], J.of(r[2])) if len(r) == 3 else (None, None, None)
            if la is None or al is None:
                note = 'no latitude or altitude'
                good &= ~mode.active
            else:
                T = mode.T
                dl = mode.deviation(la, T['lat deg'], False) * IPI / IV.of(180)
                da = mode.deviation(al, T['alt'], flags.get(('return', 2), False))
                e = (T['N + alt'].act * dl).sq() + da.sq()
                ok = e.hi <= 1e-4
                if not isinstance(lo_, Opaque):
                    ok &= mode.p.act.hi * 7 <= 1e-3
                bad = mode.active & (~ok | mode.bad)
                stat['boxes'] += int(mode.active.sum())
                if bad.any():
                    why.setdefault('error', 0)
                good &= ~bad
        except (Unsupported, TooMany, Nothing) as ex:
            note = f'{type(ex).__name__} {ex}'.strip()
            good &= ~mode.active
        except Exception as ex:     # noqa: BLE001
            note = f'{ex!r}'[:200]
            good &= ~mode.active
        finally:
            Mode.cur = None
        good &= ~mode.bad
        if note and note != 'Nothing':
            why[note] = 1
        todo += mode.todo
    return good, set(why)


def g_lanes(part, parts, budget):
    t0 = time.time()
    out = {'class': 'GPS.ecef2lla', 'run': f'every path from every box is within a centimetre, boxes {part + 1} of {parts}',
           'status': 'undecided', 'reason': None, 'n': 0, 'discharged': 0, 'backends': {}, 'failed': [], 'cex': [], 'paths': 0,
           'solver_s': 0.0, 'secs': 0.0, 'queries': 0, 'functions': [], 'contracts': [], 'flags': []}
    sym, sites, heads, flags = g_symbolic('tuple', budget)
    out['functions'] = sym['functions']
    if sym['status'] != 'proved':
        out.update(reason='the specified values are not proved to be a fixed point', n=1, secs=time.time() - t0)
        return out
    lo, hi = grid()
    lo, hi = lo[part::parts], hi[part::parts]
    stat = {'paths': 0, 'boxes': 0}
    done, why = 0, set()
    for k in range(14):
        good, why = run_boxes(lo, hi, sites, heads, flags, stat, t0 + budget)
        g = good[:, 0]
        done += int(g.sum())
        lo, hi = lo[~g], hi[~g]
        if os.environ.get('GEO_TRACE'):
            print(k, 'good', int(g.sum()), 'left', len(lo), why, round(time.time() - t0, 1), lo[:2].tolist(), hi[:2].tolist())
        if not len(lo) or time.time() - t0 > budget or len(lo) > 200000 or (k and not done):
            break
        out['cex'] = worst(lo, hi, part)
        if out['cex'] and out['cex'][0]['error'] > .011:
            break
        lo, hi = split(lo, hi, 2)
        lo, hi = split(lo, hi, 3)
    out.update(n=done + len(lo), discharged=done, backends={'interval': done}, paths=stat['paths'], secs=round(time.time() - t0, 3),
               queries=stat['boxes'])
    if not len(lo):
        out['status'] = 'proved'
        return out
    out['reason'] = f'{len(lo)} boxes are undecided: ' + (', '.join(sorted(why)) or 'error bound')
    out['cex'] = worst(lo, hi, part)
    return out


def worst(lo, hi, seed):
    """points of undecided boxes, those with the largest error of the running code first"""
    rng = random.Random(seed)
    g = FloatLoader(REPO).load(RC).GPS()
    a, e2 = g.wgs84.a, 1 - (g.wgs84.b / g.wgs84.a) ** 2
    out = []
    for j in rng.sample(range(len(lo)), min(400, len(lo))):
        s, pole, u0, h0 = (float(x) for x in lo[j])
        k = rng.choice((.5, .5, rng.random()))
        u, h = u0 + (float(hi[j][2]) - u0) * k, h0 + (float(hi[j][3]) - h0) * k
        phi = s * (math.pi / 2 - u if pole else u)
        lon = rng.uniform(-180, 180)
        lat = math.degrees(phi)
        N = a / math.sqrt(1 - e2 * math.sin(phi) ** 2)
        p = (N + h) * math.cos(phi)
        try:
            r = g.ecef2lla((p * math.cos(math.radians(lon)), p * math.sin(math.radians(lon)), (N * (1 - e2) + h) * math.sin(phi)))
            e = math.hypot(math.radians(r[0] - lat) * (N + h), r[2] - h)
        except Exception:       # noqa: BLE001
            e = math.inf
        out.append({'label': 'box', 'inputs': {'lat': lat, 'lon': lon, 'alt': h}, 'error': e})
    out.sort(key=lambda x: -x['error'] if x['error'] == x['error'] else -math.inf)
    return out[:20]


def sym_unit(form, budget):
    return g_symbolic(form, budget)[0]


PARTS = 8
KINDS = {'symbolic': sym_unit, 'pole': g_pole, 'lanes': g_lanes, 'lla2ecef': f_num.g_lla2ecef}


def units(prop):
    return [('lanes', (j, PARTS)) for j in range(PARTS)] + [('symbolic', (f,)) for f in f_num.FORMS] \
        + [('pole', (s,)) for s in (1, -1)] + [('lla2ecef', (f,)) for f in f_num.FORMS]


def concrete_unit(kind, args):
    return ('pole', []) if kind == 'pole' else ('inverse', [])


def run(kind, args, budget):
    return KINDS[kind](*args, budget)
