"""Exact real arithmetic for the numeric modules.

The source of a numeric module is loaded from /repo with every float literal
read as the decimal it is, `/` as exact division, and math and numpy replaced by
proxies that accept symbolic reals; the functions themselves are the ones of the
package.  A symbolic real is a quotient of polynomials over generators (inputs,
pi, sines and cosines of angles, square roots) kept in normal form modulo
    sin^2 = 1 - cos^2,   sqrt(p)^2 = p
which is a Groebner basis, so two values are equal in every model of these rules
iff the difference of their cross products has normal form 0.  Branches on
symbolic conditions fork the execution; z3 prunes paths that cannot happen.

What this drops: rounding.  Floating point is treated as exact."""
import ast
import builtins
import importlib
import importlib.util
import math
import os
import sys
import time
import types
from fractions import Fraction
import numpy as _np
import z3

W = 8                       # bits per exponent
TOP = (1 << W) - 1


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------- polynomials --
class Ctx:
    """generators, rules and the path being executed"""
    cur = None

    def __init__(self, deadline=None):
        self.names, self.val, self.z, self.facts = [], [], [], []
        self.rule = {}          # generator -> polynomial of its square
        self.redmask = 0
        self.nonneg = set()
        self.angles = {}        # (monomial, coefficient) -> (sin, cos) as R
        self.bases = {}         # monomial -> base coefficients seen
        self.roots = []         # (generator, polynomial)
        self.abss = []
        self.opaque = []
        self.hints = []
        self.floors = {}
        self.nonzero = []
        self.prefix, self.pos, self.trail = [], 0, []
        self.pc = []
        self.todo = []
        self.solver_time = 0.0
        self.queries = 0
        self.deadline = deadline
        self.sol = z3.Solver()
        self.sol.set('timeout', 3000)
        self.nfacts = 0
        self.lin, self.nlin = None, 0
        self.powers = {}
        Ctx.cur = self
        self.pi = self.gen('pi', lambda env: math.pi)
        self.nonneg.add(self.pi)
        self.facts.append(lambda: z3.And(self.z[0] > z3.RealVal('3.14159265358979'),
                                         self.z[0] < z3.RealVal('3.14159265358980')))

    # generators
    def gen(self, name, val, nonneg=False):
        i = len(self.names)
        self.names.append(name)
        self.val.append(val)
        self.z.append(z3.Real(f'{name}!{i}'))
        if nonneg:
            self.nonneg.add(i)
            self.facts.append(lambda: self.z[i] >= 0)
        return i

    def setrule(self, i, poly):
        self.rule[i] = poly
        self.redmask |= (TOP & ~1) << (W * i)
        self.facts.append(lambda: self.z[i] * self.z[i] == self.zpoly(poly))

    def assume(self, c):
        """c: Cond"""
        self.pc.append(c)

    # z3
    def zmono(self, m):
        t = None
        i = 0
        while m:
            e = m & TOP
            for _ in range(e):
                t = self.z[i] if t is None else t * self.z[i]
            m >>= W
            i += 1
        return t

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            k = z3.RealVal(str(Fraction(c)))
            t = self.zmono(m)
            ts.append(k if t is None else (t if c == 1 else k * t))
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def sync(self):
        while self.nfacts < len(self.facts):
            f = self.facts[self.nfacts]
            self.nfacts += 1
            self.sol.add(f())

    def ask(self, *conds):
        """is the path condition with these satisfiable? (sat, unsat, unknown)"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget')
        t0 = time.time()
        self.sync()
        self.sol.push()
        try:
            for c in list(self.pc) + list(conds):
                if c.size() <= 80:
                    self.sol.add(c.z3())
            r = self.sol.check()
        finally:
            self.sol.pop()
            self.solver_time += time.time() - t0
            self.queries += 1
        return str(r)

    def linear(self, c):
        return c.r.den is None and all(m == 0 or (not m & (m - 1) and self.plain(m)) for m in c.r.num)

    def plain(self, m):
        """a single generator without a rule, to the first power"""
        i = (m.bit_length() - 1) // W
        return m == 1 << (W * i) and i not in self.rule

    def ask_linear(self, *conds):
        """as ask, with the linear conditions only: unsat is unsat"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget')
        t0 = time.time()
        if self.lin is None:
            self.lin = z3.SolverFor('QF_LRA')
            self.nlin = 0
        while self.nlin < len(self.pc):
            c = self.pc[self.nlin]
            self.nlin += 1
            if self.linear(c):
                self.lin.add(c.z3())
        self.lin.push()
        for c in conds:
            self.lin.add(c.z3())
        r = self.lin.check()
        self.lin.pop()
        self.solver_time += time.time() - t0
        self.queries += 1
        return str(r)

    def decide(self, c):
        """truth of a condition on this path; forks when both are possible"""
        k = c.known()
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
        else:
            ask = self.ask_linear if self.linear(c) else self.ask
            t = ask(c)
            f = ask(c.neg())
            if t == 'unsat' and f == 'unsat':
                raise Infeasible()
            if f == 'unsat':
                b = True
            elif t == 'unsat':
                b = False
            else:
                b = True
                self.todo.append(self.trail + [False])
            if len(self.trail) > 400:
                raise Unsupported('too many branches')
        self.pos += 1
        self.trail.append(b)
        self.pc.append(c if b else c.neg())
        return b

    def evaluate(self, inputs):
        """values of all generators for concrete inputs"""
        env = {'in': inputs}
        for i, f in enumerate(self.val):
            env[i] = f(env)
        return env

    def on_path(self, env):
        return all(c.ev(env) for c in self.pc)


def cx():
    return Ctx.cur


def norm(p):
    """reduce squares of ruled generators"""
    c = cx()
    mask = c.redmask
    if not any(m & mask for m in p):
        return p
    out = {}
    todo = list(p.items())
    while todo:
        m, k = todo.pop()
        h = m & mask
        if not h:
            v = out.get(m, 0) + k
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        i = (h.bit_length() - 1) // W
        rest = m - (2 << (W * i))
        for m2, k2 in c.rule[i].items():
            todo.append((rest + m2, k * k2))
    return out


def padd(a, b, s=1):
    out = dict(a)
    for m, k in b.items():
        v = out.get(m, 0) + s * k
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if not a:
        return {}
    if len(a) == 1 and 0 in a:
        k = a[0]
        return b if k == 1 else {m: k * c for m, c in b.items()}
    d = cx().deadline
    if d and len(a) * len(b) > 20000 and time.time() > d:
        raise Unsupported('time budget')
    if len(a) * len(b) > 40_000_000:
        raise Unsupported('expression too large')
    out = {}
    get = out.get
    for m, k in a.items():
        for m2, k2 in b.items():
            x = m + m2
            v = get(x, 0) + k * k2
            out[x] = v
    return norm({m: k for m, k in out.items() if k})


def exps(m):
    i = 0
    while m:
        e = m & TOP
        if e:
            yield i, e
        m >>= W
        i += 1


def content(p):
    """greatest monomial dividing p"""
    g = None
    for m in p:
        if g is None:
            g = m
            continue
        if not g:
            break
        r = 0
        for i, e in exps(g):
            r |= min(e, m >> (W * i) & TOP) << (W * i)
        g = r
    return g or 0


def coef(c):
    if isinstance(c, bool):
        return int(c)
    if isinstance(c, int):
        return c
    if isinstance(c, _np.integer):
        return int(c)
    if isinstance(c, Fraction):
        return c.numerator if c.denominator == 1 else c
    if isinstance(c, (float, _np.floating)):
        if not math.isfinite(c):
            raise Unsupported('not a finite number')
        return coef(Fraction(float(c)))
    return None


NUM = (int, float, Fraction, _np.integer, _np.floating)


class R:
    """a symbolic real: num / den"""
    __slots__ = ('num', 'den')
    __hash__ = None

    def __init__(self, num, den=None):
        if den is not None and len(den) == 1:
            (m, k), = den.items()
            if m == 0:
                if k != 1:
                    num = {a: coef(Fraction(b) / k) for a, b in num.items()}
                den = None
        if den is not None:
            if not num:
                den = None
            else:
                g = content({**num, **den} if len(num) + len(den) < 50000 else num)
                if g:
                    g = min_mono(content(num), content(den))
                if g:
                    num = {m - g: k for m, k in num.items()}
                    den = {m - g: k for m, k in den.items()}
                    if len(den) == 1 and 0 in den:
                        k = den[0]
                        num = {a: coef(Fraction(b) / k) for a, b in num.items()}
                        den = None
        self.num, self.den = num, den

    @staticmethod
    def of(x):
        if isinstance(x, R):
            return x
        if isinstance(x, _np.ndarray) and x.ndim == 0:
            return R.of(x.item())
        c = coef(x)
        if c is None:
            return None
        return R({0: c} if c else {})

    @staticmethod
    def g(i):
        return R({1 << (W * i): 1})

    def const(self):
        """the rational it is, or None"""
        if self.den is not None:
            return None
        if not self.num:
            return Fraction(0)
        if len(self.num) == 1 and 0 in self.num:
            return Fraction(self.num[0])
        return None

    def d(self):
        return self.den if self.den is not None else {0: 1}

    # arithmetic
    def _bin(f):
        def g(self, o):
            if isinstance(o, _np.ndarray) and o.ndim:
                return NotImplemented
            o = R.of(o)
            return NotImplemented if o is None else f(self, o)
        return g

    @_bin
    def __add__(self, o):
        return add(self, o)

    @_bin
    def __radd__(self, o):
        return add(o, self)

    @_bin
    def __sub__(self, o):
        return add(self, -o)

    @_bin
    def __rsub__(self, o):
        return add(o, -self)

    @_bin
    def __mul__(self, o):
        return mul(self, o)

    @_bin
    def __rmul__(self, o):
        return mul(o, self)

    @_bin
    def __truediv__(self, o):
        return mul(self, inv(o))

    @_bin
    def __rtruediv__(self, o):
        return mul(o, inv(self))

    @_bin
    def __floordiv__(self, o):
        return R.of(floor(mul(self, inv(o))))

    @_bin
    def __rfloordiv__(self, o):
        return R.of(floor(mul(o, inv(self))))

    @_bin
    def __mod__(self, o):
        return self - o * floor(mul(self, inv(o)))

    @_bin
    def __rmod__(self, o):
        return o - self * floor(mul(o, inv(self)))

    def __neg__(self):
        return R({m: -k for m, k in self.num.items()}, self.den)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __pow__(self, n):
        n = R.of(n)
        if n is None:
            return NotImplemented
        k = n.const()
        if k is None:
            raise Unsupported('symbolic exponent')
        if k.denominator == 2:
            r = sqrt(self) ** k.numerator
            return r
        if k.denominator != 1:
            raise Unsupported('fractional exponent')
        k = int(k)
        b = self if k >= 0 else inv(self)
        out = R({0: 1})
        for _ in range(abs(k)):
            out = mul(out, b)
        return out

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    # comparison
    def __lt__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o > 0
        return Cond.make(self, o, '<')

    def __le__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o > 0
        return Cond.make(self, o, '<=')

    def __gt__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o < 0
        return Cond.make(o, self, '<')

    def __ge__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o < 0
        return Cond.make(o, self, '<=')

    def __eq__(self, o):
        if o is None or isinstance(o, str) or isinstance(o, float) and math.isinf(o):
            return False
        return Cond.make(self, o, '==')

    def __ne__(self, o):
        if o is None or isinstance(o, str) or isinstance(o, float) and math.isinf(o):
            return True
        c = Cond.make(self, o, '==')
        return c.neg() if isinstance(c, Cond) else not c

    def __bool__(self):
        return not bool(self == 0)

    def __float__(self):
        c = self.const()
        if c is None:
            raise Unsupported('a symbolic real is needed as a float')
        return float(c)

    def __int__(self):
        return trunc(self)

    __trunc__ = __int__

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __round__(self, n=None):
        if n is None:
            return floor(self + Fraction(1, 2))
        return rounded(self, n)

    def __index__(self):
        raise TypeError('a real is not an index')

    def is_integer(self):
        raise Unsupported('is_integer')

    # numpy object ufuncs call these
    def sin(self):
        return sincos(self)[0]

    def cos(self):
        return sincos(self)[1]

    def tan(self):
        """no division takes place; a value that needs it nonzero says so when it is used"""
        s, c = sincos(self)
        if not c.num:
            raise Unsupported('tangent of a right angle')
        return mul(s, R(c.d(), c.num))

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    def arctan2(self, o):
        return atan2(self, o)

    def hypot(self, o):
        return sqrt(self * self + o * o)

    def radians(self):
        return self * PI() / 180

    deg2rad = radians

    def degrees(self):
        return self * 180 / PI()

    rad2deg = degrees

    def square(self):
        return self * self

    def __repr__(self):
        def s(p):
            if len(p) > 6:
                return f'<{len(p)} terms>'
            return ' + '.join('*'.join([str(k)] * (k != 1 or not m) + [f'{cx().names[i]}' + (f'^{e}' if e > 1 else '')
                                                                  for i, e in exps(m)]) for m, k in p.items()) or '0'
        return s(self.num) if self.den is None else f'({s(self.num)})/({s(self.den)})'

    def ev(self, env):
        n, d = peval(self.num, env), peval(self.d(), env)
        return n / d


def min_mono(a, b):
    r = 0
    for i, e in exps(a):
        r |= min(e, b >> (W * i) & TOP) << (W * i)
    return r


def peval(p, env):
    return math.fsum(float(k) * math.prod([env[i] ** e for i, e in exps(m)]) for m, k in p.items())


def same_poly(a, b):
    return a is b or a == b


def add(a, b):
    if a.den is None and b.den is None:
        return R(padd(a.num, b.num))
    if a.den is not None and b.den is not None and same_poly(a.den, b.den):
        return R(padd(a.num, b.num), a.den)
    if a.den is None:
        return R(padd(pmul(a.num, b.den), b.num), b.den)
    if b.den is None:
        return R(padd(a.num, pmul(b.num, a.den)), a.den)
    q = poly_quotient(a.den, b.den)
    if q is not None:
        return R(padd(a.num, pmul(b.num, q)), a.den)
    q = poly_quotient(b.den, a.den)
    if q is not None:
        return R(padd(pmul(a.num, q), b.num), b.den)
    ka, kb = root_power(a.den), root_power(b.den)
    if ka and kb and ka[0] == kb[0]:
        i, j = ka[1], kb[1]
        if i > j:
            a, b, i, j = b, a, j, i
        return R(padd(pmul(a.num, cx().powers[ka[0]][j - i]), b.num), b.den)
    return R(padd(pmul(a.num, b.den), pmul(b.num, a.den)), pmul(a.den, b.den))


def root_power(p):
    """(root, k) when p is the k-th power of what is under a square root"""
    c = cx()
    if len(p) < 4:
        return None
    for i, q in c.roots:
        if i not in c.powers:
            if len(q) < 4:
                continue
            l = c.powers[i] = [{0: 1}]
            for _ in range(6):
                l.append(pmul(l[-1], q))
        for k, x in enumerate(c.powers[i]):
            if k and len(x) == len(p) and x == p:
                return i, k
    return None


def poly_quotient(a, b):
    """a / b when both are single terms and b divides a"""
    if len(a) == 1 and len(b) == 1:
        (m, k), = a.items()
        (m2, k2), = b.items()
        if min_mono(m, m2) == m2:
            return {m - m2: coef(Fraction(k) / k2)}
    return None


def mul(a, b):
    if a.den is None and b.den is None:
        return R(pmul(a.num, b.num))
    if a.den is not None and same_poly(a.den, b.num):
        return R(a.num, b.den)
    if b.den is not None and same_poly(b.den, a.num):
        return R(b.num, a.den)
    return R(pmul(a.num, b.num), pmul(a.d(), b.d()))


def inv(a):
    if not a.num:
        raise ZeroDivisionError('float division by zero')
    if a.const() is None:
        cx().nonzero.append(a)
    return R(a.d(), a.num)


def PI():
    return R.g(cx().pi)


def equal(a, b):
    """the same function of the generators, by normal form"""
    a, b = R.of(a), R.of(b)
    if a.den is not None and b.den is not None and same_poly(a.den, b.den):
        return a.num == b.num
    return not padd(pmul(a.num, b.d()), pmul(b.num, a.d()), -1)


# -------------------------------------------------------------- conditions --
class Cond:
    """r op 0 with op one of < <= == != ; r = num/den"""
    __slots__ = ('r', 'op')

    def __init__(self, r, op):
        self.r, self.op = r, op

    @staticmethod
    def make(a, b, op):
        a, b = R.of(a), R.of(b)
        if a is None or b is None:
            return NotImplemented
        c = Cond(a - b, op)
        if c.r.den is not None:
            cx().nonzero.append(R(c.r.den))
        k = c.known()
        return c if k is None else k

    def known(self):
        k = self.r.const()
        if k is None:
            if not self.r.num:
                k = 0
            elif self.op in ('<', '<=') and self.r.den is None and all(positive_term(m) for m in self.r.num):
                if all(v > 0 for v in self.r.num.values()) and self.op == '<' :
                    return False
                if all(v < 0 for v in self.r.num.values()) and self.op == '<=':
                    return True
                return None
            else:
                return None
        return {'<': k < 0, '<=': k <= 0, '==': k == 0, '!=': k != 0}[self.op]

    def neg(self):
        if self.op == '==':
            return Cond(self.r, '!=')
        if self.op == '!=':
            return Cond(self.r, '==')
        return Cond(-self.r, '<=' if self.op == '<' else '<')

    def size(self):
        return len(self.r.num) + len(self.r.d())

    def z3(self):
        c = cx()
        n = c.zpoly(self.r.num)
        if self.r.den is not None:
            d = c.zpoly(self.r.den)
            if self.op in ('==', '!='):
                return n == 0 if self.op == '==' else n != 0
            n = n * d           # same sign as n / d
        z = z3.RealVal(0)
        return {'<': n < z, '<=': n <= z, '==': n == z, '!=': n != z}[self.op]

    def __bool__(self):
        return cx().decide(self)

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)

    def __invert__(self):
        return self.neg()

    def ev(self, env):
        v = self.r.ev(env)
        return {'<': v < 0, '<=': v <= 0, '==': abs(v) < 1e-12, '!=': v != 0}[self.op]

    def __repr__(self):
        return f'{self.r!r} {self.op} 0'


def positive_term(m):
    c = cx()
    return all(i in c.nonneg or e % 2 == 0 for i, e in exps(m))


# --------------------------------------------------------------- functions --
def absolute(x):
    x = R.of(x)
    k = x.const()
    if k is not None:
        return R.of(abs(k))
    c = cx()
    if x.den is None and len(x.num) == 1:
        (m, k), = x.num.items()
        if positive_term(m):
            return R({m: abs(k)})
    for g, y in c.abss:
        if equal(y, x) or equal(y, -x):
            return R.g(g)
    g = c.gen(f'abs{len(c.abss)}', lambda env: abs(x.ev(env)), True)
    c.abss.append((g, x))
    if x.den is None:
        c.setrule(g, pmul(x.num, x.num))
        c.facts.append(lambda: c.z[g] == z3.If(c.zpoly(x.num) >= 0, c.zpoly(x.num), -c.zpoly(x.num)))
        # reduce what is already there on sight
    return R.g(g)


def ratsqrt(k):
    """exact square root of a rational, or None"""
    a, b = math.isqrt(k.numerator), math.isqrt(k.denominator)
    return Fraction(a, b) if a * a == k.numerator and b * b == k.denominator else None


def sqrt(x):
    x = R.of(x)
    c = cx()
    k = x.const()
    if k is not None:
        if k < 0:
            raise ValueError('math domain error')
        q = ratsqrt(k)
        if q is not None:
            return R.of(q)
    for h in c.hints:
        if equal(h * h, x):
            return h
    if x.den is not None:
        return sqrt(R(pmul(x.num, x.den))) / absolute(R(x.den))
    p = x.num
    # square factors
    g = content(p)
    out = R({0: 1})
    sq = 0
    for i, e in exps(g):
        if e >= 2:
            sq |= (e // 2 * 2) << (W * i)
            out = out * (absolute(R.g(i)) ** (e // 2))
    p = {m - sq: v for m, v in p.items()}
    if len(p) == 1 and 0 in p and p[0] > 0:
        k = ratsqrt(Fraction(p[0]))
        if k is not None:
            return out * k
    for gi, p2 in c.roots:
        if len(p2) == len(p):
            m = next(iter(p))
            if m in p2:
                q = Fraction(p[m]) / Fraction(p2[m])
                r = ratsqrt(q) if q > 0 else None
                if r is not None and all(m2 in p2 and p[m2] == p2[m2] * q for m2 in p):
                    return out * R.g(gi) * r
    if any(v < 0 for v in p.values()) and c.ask(Cond(R(p), '<')) != 'unsat':
        pass                    # real code raises for negative values; the contract's domain excludes them
    i = c.gen(f'sqrt{len(c.roots)}', lambda env: math.sqrt(max(0.0, peval(p, env))), True)
    c.roots.append((i, p))
    c.setrule(i, p)
    return out * R.g(i)


def angle(name, val=None, lo=None, hi=None):
    """an input angle: a generator with its sine and cosine"""
    c = cx()
    i = c.gen(name, val or (lambda env: env['in'][name]))
    return R.g(i)


def atom_sincos(mono, q, label):
    """sine and cosine generators of q * monomial"""
    c = cx()
    for (m2, q2), v in c.angles.items():
        if m2 == mono:
            k = q / q2
            if k.denominator == 1 and abs(k) <= 64:
                return multiple(v, int(k))
    x = R({mono: coef(q)})
    s = c.gen(f'sin({label})', lambda env: math.sin(x.ev(env)))
    co = c.gen(f'cos({label})', lambda env: math.cos(x.ev(env)))
    c.setrule(s, {0: 1, 2 << (W * co): -1})
    c.facts.append(lambda: z3.And(c.z[s] >= -1, c.z[s] <= 1, c.z[co] >= -1, c.z[co] <= 1))
    v = (R.g(s), R.g(co))
    c.angles[(mono, q)] = v
    return v


def multiple(v, k):
    if k < 0:
        s, co = multiple(v, -k)
        return -s, co
    s, co = R({}), R({0: 1})
    for _ in range(k):
        s, co = s * v[1] + co * v[0], co * v[1] - s * v[0]
    return s, co


def sincos(x):
    x = R.of(x)
    c = cx()
    if x.den is not None:
        for y, v in c.opaque:
            if equal(x, y):
                return v
            if equal(x, -y):
                return -v[0], v[1]
        s = c.gen('sin(?)', lambda env: math.sin(x.ev(env)))
        co = c.gen('cos(?)', lambda env: math.cos(x.ev(env)))
        c.setrule(s, {0: 1, 2 << (W * co): -1})
        v = (R.g(s), R.g(co))
        c.opaque.append((x, v))
        return v
    S, C = R({}), R({0: 1})
    for m, q in sorted(x.num.items()):
        q = Fraction(q)
        if m == 1 << (W * c.pi) and (q * 2).denominator == 1:
            k = int(q * 2) % 4
            s, co = [(0, 1), (1, 0), (0, -1), (-1, 0)][k]
            s, co = R.of(s), R.of(co)
        elif m in INV and (INV[m][2] is c) and q.denominator == 1:
            s, co = multiple(INV[m][:2], int(q))
        else:
            s, co = atom_sincos(m, q, repr(R({m: coef(q)})))
        S, C = S * co + C * s, C * co - S * s
    return S, C


INV = {}        # monomial of an inverse-function generator -> (sin, cos, context)


def inverse(name, s, co, val, facts=()):
    c = cx()
    i = c.gen(name, val)
    INV[1 << (W * i)] = (s, co, c)
    for f in facts:
        c.facts.append(lambda f=f: f(c.z[i], c.z[c.pi]))
    return R.g(i)


def atan2(y, x):
    y, x = R.of(y), R.of(x)
    c = cx()
    ky, kx = y.const(), x.const()
    if ky == 0 and kx is not None and kx > 0:
        return R({})
    key = [(yy, xx, g) for yy, xx, g in getattr(c, 'atans', []) if equal(yy, y) and equal(xx, x)]
    if key:
        return key[0][2]
    r = sqrt(x * x + y * y)
    if r.const() == 0:
        return R({})            # what C and Python give
    g = inverse('atan2', y / r, x / r, lambda env: math.atan2(y.ev(env), x.ev(env)),
                [lambda v, pi: z3.And(v >= -pi, v <= pi)])
    c.__dict__.setdefault('atans', []).append((y, x, g))
    return g


def atan(t):
    t = R.of(t)
    if t.const() == 0:
        return R({})
    if t.den is not None:
        # atan(n/d): the angle in (-pi/2, pi/2) with this tangent
        n, d = R(t.num), R(t.den)
        ad = absolute(d)
        sg = d / ad
        r = sqrt(n * n + d * d)
        s, co = n * sg / r, ad / r
    else:
        r = sqrt(1 + t * t)
        s, co = t / r, 1 / r
    return inverse('atan', s, co, lambda env: math.atan(t.ev(env)), [lambda v, pi: z3.And(2 * v >= -pi, 2 * v <= pi)])


def asin(t):
    t = R.of(t)
    return inverse('asin', t, sqrt(1 - t * t), lambda env: math.asin(max(-1, min(1, t.ev(env)))),
                   [lambda v, pi: z3.And(2 * v >= -pi, 2 * v <= pi)])


def acos(t):
    t = R.of(t)
    return inverse('acos', sqrt(1 - t * t), t, lambda env: math.acos(max(-1, min(1, t.ev(env)))),
                   [lambda v, pi: z3.And(v >= 0, v <= pi)])


FLOOR_LIMIT = 1024


def floor(x):
    """the integer part; forks over the possible ones by bisection"""
    x = R.of(x)
    k = x.const()
    if k is not None:
        return math.floor(k)
    lo, hi = -FLOOR_LIMIT, FLOOR_LIMIT      # lo <= floor(x) < hi
    c = cx()
    ask = c.ask_linear if c.linear(Cond(x, '<')) else c.ask
    if c.pos >= len(c.prefix) and (ask(Cond(x - lo, '<')) != 'unsat' or ask(Cond(hi - x, '<=')) != 'unsat'):
        raise Unsupported('integer part of an unbounded value')
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if bool(x < mid):
            hi = mid
        else:
            lo = mid
    return lo


def trunc(x):
    x = R.of(x)
    k = x.const()
    if k is not None:
        return int(k)
    if bool(x >= 0):
        return floor(x)
    return -floor(-x)


def rounded(x, n):
    """x to n decimals: some value within half a unit"""
    x = R.of(x)
    k = x.const()
    if k is not None:
        return R.of(round(k, n))
    c = cx()
    h = Fraction(1, 2 * 10 ** n)
    i = c.gen('round', lambda env: round(x.ev(env), n))
    if x.den is None:
        c.facts.append(lambda: z3.And(c.z[i] - c.zpoly(x.num) <= z3.RealVal(str(h)),
                                      c.zpoly(x.num) - c.z[i] <= z3.RealVal(str(h))))
    return R.g(i)


# ------------------------------------------------------------------ proxies --
def num(x):
    return R.of(x)


def pairwise(f):
    def g(a, b, *k):
        if isinstance(a, (list, tuple, _np.ndarray)) or isinstance(b, (list, tuple, _np.ndarray)):
            a, b = _np.broadcast_arrays(to_obj(a), to_obj(b))
            r = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(*a.shape):
                r[i] = f(a[i], b[i], *k)
            return r
        return f(a, b, *k)
    return g


def elementwise(f):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple, _np.ndarray)) and not (isinstance(x, _np.ndarray) and x.ndim == 0):
            return obj(_np.array([g(y, *a) for y in x], dtype=object))
        return f(x, *a)
    return g


class MATH(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.inf, self.nan = math.inf, math.nan

    @property
    def pi(self):
        return PI()

    @property
    def tau(self):
        return 2 * PI()

    sin = staticmethod(lambda x: sincos(x)[0])
    cos = staticmethod(lambda x: sincos(x)[1])
    tan = staticmethod(lambda x: R.of(x).tan())
    sqrt = staticmethod(sqrt)
    atan2 = staticmethod(atan2)
    atan = staticmethod(atan)
    asin = staticmethod(asin)
    acos = staticmethod(acos)
    fabs = staticmethod(absolute)
    floor = staticmethod(floor)
    ceil = staticmethod(lambda x: -floor(-R.of(x)))
    trunc = staticmethod(lambda x: trunc(R.of(x)))
    radians = staticmethod(lambda x: R.of(x) * PI() / 180)
    degrees = staticmethod(lambda x: R.of(x) * 180 / PI())
    pow = staticmethod(lambda x, n: R.of(x) ** n)
    isclose = staticmethod(lambda a, b, **k: isclose(a, b, **k))
    copysign = staticmethod(lambda a, b: copysign(a, b))
    isfinite = staticmethod(lambda x: True)
    isnan = staticmethod(lambda x: False)
    isinf = staticmethod(lambda x: False)

    @staticmethod
    def hypot(*xs):
        return sqrt(sum([R.of(x) * R.of(x) for x in xs], R({})))

    @staticmethod
    def dist(p, q):
        return MATH.hypot(*[R.of(a) - R.of(b) for a, b in zip(p, q)])

    @staticmethod
    def fsum(xs):
        return sum(xs, R({}))

    @staticmethod
    def prod(xs, start=1):
        for x in xs:
            start = start * x
        return start

    @staticmethod
    def sumprod(p, q):
        return sum([a * b for a, b in zip(p, q)], R({}))

    def __getattr__(self, n):
        raise Unsupported(f'math.{n}')


def isclose(a, b, rel_tol=Fraction(1, 10**9), abs_tol=0):
    a, b = R.of(a), R.of(b)
    d = absolute(a - b)
    return bool(d <= R.of(abs_tol)) or bool(d <= R.of(rel_tol) * absolute(a)) or bool(d <= R.of(rel_tol) * absolute(b))


def copysign(a, b):
    a = absolute(R.of(a))
    return a if bool(R.of(b) >= 0) else -a


def obj(a):
    return a


FLOATS = ('f', 'float', 'float64', 'double', 'd', float, _np.float64, _np.floating, object, None)


class IntArr(_np.ndarray):
    """an array that numpy would give an integer type: it cannot hold anything else"""

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if out is not None:
            raise Unsupported('integer array updated in place')
        ints = all(isinstance(x, (IntArr, int)) for x in inputs)
        r = getattr(ufunc, method)(*[x.view(_np.ndarray) if isinstance(x, IntArr) else x for x in inputs], **kw)
        return int_array(r) if ints and isinstance(r, _np.ndarray) else r

    def __setitem__(self, k, v):
        if not all_int(_np.array(v, dtype=object)):
            raise Unsupported('integer array given another value')
        super().__setitem__(k, v)

    def astype(self, dtype, **k):
        if not dtype_ok(dtype):
            raise Unsupported('numpy dtype')
        return to_obj(self)

    def fill(self, v):
        self[...] = v


def all_int(a):
    return all(type(x) in (int, bool) or isinstance(x, _np.integer) for x in a.ravel())


def int_array(a):
    return a.view(IntArr) if a.dtype == object and a.size and all_int(a) else a


def to_obj(x):
    """what numpy would build, with exact elements; copies"""
    a = _np.array(x, dtype=object)
    return exact(a)


def exact(a):
    flat = a.reshape(-1)
    for j in range(flat.shape[0]):
        v = flat[j]
        if isinstance(v, (float, _np.floating)):
            flat[j] = R.of(v)
    return a


def dtype_ok(d):
    if isinstance(d, type) and issubclass(d, R):
        return False            # the type of an argument: int for some callers
    if d is FLOAT or d is None or d is object:
        return True
    try:
        return _np.dtype(d).kind in 'fO'
    except TypeError:
        return False


class NP(types.ModuleType):
    """numpy with exact elements"""

    def __init__(self):
        super().__init__('numpy')
        self.ndarray = _np.ndarray
        self.float64 = FLOAT
        self.double = FLOAT
        self.float_ = FLOAT
        self.inf, self.nan = math.inf, math.nan
        self.newaxis = None
        self.linalg = LINALG()
        self.typing = _np.typing if hasattr(_np, 'typing') else None

    @property
    def pi(self):
        return PI()

    @staticmethod
    def array(x, dtype=None, copy=True, **k):
        if not dtype_ok(dtype):
            raise Unsupported('numpy dtype')
        if copy is not True and isinstance(x, _np.ndarray) and x.dtype == object:
            return x
        return to_obj(x) if dtype is not None else int_array(to_obj(x))

    @staticmethod
    def asarray(x, dtype=None, **k):
        if not dtype_ok(dtype):
            raise Unsupported('numpy dtype')
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return x                    # as numpy does for a float array
        return to_obj(x) if dtype is not None else int_array(to_obj(x))

    asanyarray = ascontiguousarray = asfarray = asarray

    @staticmethod
    def copy(x, **k):
        return int_array(to_obj(x))

    @staticmethod
    def _full(shape, v, dtype=None):
        if not dtype_ok(dtype):
            raise Unsupported('numpy dtype')
        a = _np.empty(shape, dtype=object)
        a[...] = v
        return a

    @staticmethod
    def _like(a, v, dtype):
        r = NP._full(_np.shape(a), v, dtype)
        return r if dtype is not None else r.view(IntArr) if isinstance(int_array(to_obj(a)), IntArr) else r

    @staticmethod
    def zeros(shape, dtype=None):
        return NP._full(shape, 0, dtype)

    @staticmethod
    def ones(shape, dtype=None):
        return NP._full(shape, 1, dtype)

    @staticmethod
    def full(shape, v, dtype=None):
        r = NP._full(shape, v, dtype)
        return r if dtype is not None else int_array(r)

    empty = zeros

    @staticmethod
    def zeros_like(a, dtype=None):
        return NP._like(a, 0, dtype)

    @staticmethod
    def empty_like(a, dtype=None):
        return NP._like(a, 0, dtype)

    @staticmethod
    def identity(n, dtype=None):
        if not dtype_ok(dtype):
            raise Unsupported('numpy dtype')
        a = NP._full((n, n), 0)
        for j in range(n):
            a[j, j] = 1
        return a

    eye = identity

    sin = staticmethod(elementwise(lambda x: sincos(x)[0]))
    cos = staticmethod(elementwise(lambda x: sincos(x)[1]))
    tan = staticmethod(elementwise(lambda x: R.of(x).tan()))
    sqrt = staticmethod(elementwise(sqrt))
    abs = absolute = fabs = staticmethod(elementwise(absolute))
    radians = deg2rad = staticmethod(elementwise(lambda x: R.of(x) * PI() / 180))
    degrees = rad2deg = staticmethod(elementwise(lambda x: R.of(x) * 180 / PI()))
    arctan2 = staticmethod(pairwise(atan2))
    arctan = staticmethod(atan)
    arcsin = staticmethod(asin)
    arccos = staticmethod(acos)
    hypot = staticmethod(pairwise(lambda a, b: MATH.hypot(a, b)))
    sign = staticmethod(elementwise(lambda x: 0 if bool(R.of(x) == 0) else 1 if bool(R.of(x) > 0) else -1))
    trunc = fix = staticmethod(elementwise(lambda x: R.of(trunc(x))))
    copysign = staticmethod(pairwise(lambda a, b: copysign(a, b)))
    isscalar = staticmethod(lambda x: isinstance(x, NUM) or isinstance(x, (str, bytes)))
    isnan = isinf = staticmethod(elementwise(lambda x: False))
    isfinite = staticmethod(elementwise(lambda x: True))
    floor = staticmethod(elementwise(lambda x: R.of(floor(x))))
    isclose = staticmethod(lambda a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8): bool(
        absolute(R.of(a) - R.of(b)) <= R.of(atol) + R.of(rtol) * absolute(R.of(b))))
    square = staticmethod(elementwise(lambda x: R.of(x) * R.of(x)))
    power = staticmethod(lambda x, n: x ** n)

    @staticmethod
    def dot(a, b):
        return _np.dot(to_obj(a), to_obj(b))

    @staticmethod
    def matmul(a, b):
        return _np.matmul(to_obj(a), to_obj(b))

    @staticmethod
    def outer(a, b):
        return _np.outer(to_obj(a), to_obj(b))

    @staticmethod
    def inner(a, b):
        return _np.inner(to_obj(a), to_obj(b))

    @staticmethod
    def vdot(a, b):
        return _np.dot(to_obj(a).ravel(), to_obj(b).ravel())

    @staticmethod
    def cross(a, b):
        a, b = to_obj(a), to_obj(b)
        return _np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)

    @staticmethod
    def full_like(a, v, dtype=None):
        return NP._like(a, v, dtype)

    @staticmethod
    def ones_like(a, dtype=None):
        return NP._like(a, 1, dtype)

    @staticmethod
    def transpose(a):
        return _np.transpose(to_obj(a))

    @staticmethod
    def allclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8)):
        a, b = _np.broadcast_arrays(to_obj(a), to_obj(b))
        return all(NP.isclose(x, y, rtol, atol) for x, y in zip(a.ravel(), b.ravel()))

    @staticmethod
    def array_equal(a, b):
        a, b = to_obj(a), to_obj(b)
        return a.shape == b.shape and all(bool(R.of(x) == R.of(y)) for x, y in zip(a.ravel(), b.ravel()))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = getattr(_np, n)
        if n in ('sum', 'column_stack', 'vstack', 'hstack', 'stack', 'concatenate', 'diag', 'trace', 'ravel', 'reshape',
                 'add', 'subtract', 'multiply', 'negative', 'ndim', 'shape', 'append', 'atleast_1d', 'any', 'all',
                 'divide', 'true_divide', 'where', 'einsum', 'tensordot', 'errstate', 'squeeze', 'mean', 'integer',
                 'floating', 'number', 'float32', 'int64', 'may_share_memory', 'shares_memory', 'copyto', 'prod', 'size',
                 'roll', 'flip', 'swapaxes', 'moveaxis', 'atleast_2d', 'expand_dims', 'broadcast_to', 'broadcast_arrays',
                 'kron', 'triu', 'tril', 'fill_diagonal', 'diagonal', 'split', 'repeat', 'tile', 'cumsum', 'maximum',
                 'minimum', 'max', 'min', 'amax', 'amin', 'clip', 'mod', 'remainder', 'floor_divide', 'ndindex',
                 'ndenumerate', 'seterr', 'positive', 'logical_and', 'logical_or', 'logical_not', 'take', 'put',
                 'searchsorted', 'ix_', 'flatnonzero', 'argmax', 'argmin', 'row_stack', 'dstack', 'r_', 'c_'):
            return f
        raise Unsupported(f'numpy.{n}')


class LINALG(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')

    @staticmethod
    def norm(x, *a):
        x = to_obj(x).ravel()
        return sqrt(sum([y * y for y in x], R({})))

    @staticmethod
    def det(m):
        m = to_obj(m)
        if m.shape != (3, 3):
            raise Unsupported('det')
        return det3(m)

    @staticmethod
    def multi_dot(ms):
        r = to_obj(ms[0])
        for m in ms[1:]:
            r = _np.dot(r, to_obj(m))
        return r

    @staticmethod
    def matrix_power(m, n):
        if n < 0:
            raise Unsupported('matrix_power')
        r = NP.identity(len(m))
        for _ in range(n):
            r = _np.dot(r, to_obj(m))
        return r

    @staticmethod
    def inv(m):
        m = to_obj(m)
        if m.shape != (3, 3):
            raise Unsupported('inv')
        d = det3(m)
        c = _np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                a, b = (j + 1) % 3, (j + 2) % 3
                e, f = (i + 1) % 3, (i + 2) % 3
                c[i, j] = quot(m[a, e] * m[b, f] - m[a, f] * m[b, e], d)
        return c

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'numpy.linalg.{n}')


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, R, Fraction))

    def __call__(cls, x=0):
        if isinstance(x, R):
            return x
        if isinstance(x, Numeral):
            return x.value
        if isinstance(x, str):
            y = float(x)
            return y if math.isinf(y) or math.isnan(y) else R.of(Fraction(x.strip()))
        if isinstance(x, float) and not math.isfinite(x):
            return x
        if isinstance(x, _np.ndarray):
            return R.of(x.item())
        return R.of(x)


class FLOAT(metaclass=FloatMeta):
    pass


def _opaque(name):
    def f(self, *a, **k):
        raise Unsupported(f'{name} of a text of symbolic numbers')
    return f


class _Text(str):
    """a text of which only the numbers in it are known"""
    __hash__ = str.__hash__

    def strip(self, chars=None):
        if chars is not None:
            raise Unsupported('strip of a text of symbolic numbers')
        return self

    lstrip = rstrip = strip

    def __str__(self):
        return self

    def __bool__(self):
        return True

    def __eq__(self, o):
        return False if isinstance(o, str) and not o.strip() else _opaque('comparison')(self)

    def __ne__(self, o):
        return not self == o


class Numeral(_Text):
    """the decimal text of a symbolic real"""
    def __new__(cls, value):
        x = str.__new__(cls, '<number>')
        x.value = value
        return x


class Numerals(_Text):
    """symbolic reals as decimal text, separated by white space"""
    def __new__(cls, values):
        x = str.__new__(cls, '<numbers>')
        x.values = list(values)
        return x

    def split(self, sep=None, maxsplit=-1):
        if sep is not None or maxsplit != -1:
            raise Unsupported('split of a text of symbolic numbers')
        return [Numeral(v) for v in self.values]


for _n in dir(str):
    if _n not in ('__new__', '__init__', '__class__', '__getattribute__', '__setattr__', '__delattr__', '__doc__',
                  '__subclasshook__', '__init_subclass__', '__dir__', '__reduce__', '__reduce_ex__', '__getstate__',
                  '__sizeof__', '__getnewargs__', 'split', '__hash__') and _n not in _Text.__dict__:
        setattr(_Text, _n, _opaque(_n))
_Text.__hash__ = _opaque('hash')


# ------------------------------------------------------------------ loading --
class Rewrite(ast.NodeTransformer):
    """float literals become the decimals they are; / is exact"""

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name('__real__', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('__quot__', ast.Load()), [n.left, n.right], []), n)
        return n


def quot(a, b):
    if isinstance(a, NUM) and isinstance(b, NUM):
        return R.of(a) / R.of(b)
    if isinstance(a, R) and isinstance(b, _np.ndarray) and b.ndim:
        return obj(_np.array([quot(a, y) for y in b.ravel()], dtype=object).reshape(b.shape))
    if isinstance(a, _np.ndarray) and not isinstance(b, R):
        if isinstance(b, NUM):
            b = R.of(b)
        elif isinstance(b, _np.ndarray):
            b = to_obj(b)
    return a / b


class Loader:
    """loads numeric modules of the package with exact arithmetic; one per context"""

    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        self.math, self.np = None, None
        self.functions = set()
        self.state, self.snaps = None, {}

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.repo, *name.split('.'))
        path = path + '.py' if os.path.exists(path + '.py') else os.path.join(path, '__init__.py')
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        tree = self.transform(ast.fix_missing_locations(Rewrite().visit(tree)))
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = name if path.endswith('__init__.py') else name.rpartition('.')[0]
        self.mods[name] = mod
        b = dict(vars(builtins))
        b['__import__'] = self.imp
        b['float'] = FLOAT
        mod.__dict__.update({'__builtins__': b, '__real__': lambda s: R.of(Fraction(s)), '__quot__': quot})
        exec(compile(tree, path, 'exec'), mod.__dict__)
        if self.state:
            self.snaps[name] = self.state(mod)
        return mod

    def transform(self, tree):
        return ast.fix_missing_locations(tree)

    def imp(self, name, g=None, l=None, fromlist=(), level=0):
        self.math = self.math or MATH()
        self.np = self.np or NP()
        if level == 0 and name == 'math':
            return self.math
        if level == 0 and name.split('.')[0] == 'numpy':
            if name == 'numpy.linalg' and fromlist:
                return self.np.linalg
            return self.np
        if level == 0 and name in ('typing', 'dataclasses', 'functools', 'itertools', 'collections', 'enum', 'abc',
                                   '__future__', 'collections.abc', 'operator', 'numpy.typing', 'warnings', 'copy',
                                   'bisect', 'logging', 'contextlib', 'types', 'string'):
            return importlib.__import__(name, g, l, fromlist, level)
        if level:
            base = (g or {}).get('__package__') or 'opendis'
            name = f'{base}.{name}' if name else base
        if name.split('.')[0] == 'opendis':
            if fromlist:
                m = None
                for f in fromlist:
                    p = os.path.join(self.repo, *name.split('.'), f + '.py')
                    if os.path.exists(p):
                        m = m or types.SimpleNamespace()
                        setattr(m, f, self.load(f'{name}.{f}'))
                if m is not None:
                    return m
                return self.load(name)
            self.load(name)
            return types.SimpleNamespace(**{name.split('.')[1]: self.mods[name]})
        raise Unsupported(f'import {name}')


# -------------------------------------------------------------- exploration --
def explore(make, budget=60.0, max_paths=4000):
    """run make(ctx) -> None for every path; yields the context of each"""
    deadline = time.time() + budget
    todo = [[]]
    n = 0
    while todo:
        pre = todo.pop()
        n += 1
        if n > max_paths:
            raise Unsupported('too many paths')
        c = Ctx(deadline)
        c.prefix = pre
        try:
            make(c)
            feasible = True
        except Infeasible:
            feasible = False
        todo += c.todo
        yield c, feasible
