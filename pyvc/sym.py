"""Symbolic values used by the verification-condition generator.

Integers are mathematical integers, represented by W-bit two's-complement bit
vectors together with an interval [lo, hi] that is tracked through every
operation.  An operation whose result interval does not fit in W bits is
refused (Unsupported), so no wrap-around can ever occur: within the interval the
bit-vector term and the mathematical integer coincide.

Floats are carried as IEEE-754 bit patterns (32 or 64 bits, NaN excluded by
assumption where they are created); bytes are carried as chunk lists.
"""
import operator
import re
import z3

W = 96
LIM = 1 << (W - 2)


class Unsupported(BaseException):
    """The construct is outside the verifier's subset (never a verdict)."""


class PyExc(BaseException):
    """An exception raised by the program under verification."""

    def __init__(self, exc):
        BaseException.__init__(self, exc)
        self.exc = exc


_OURS = re.compile(r"\b(Sym(Int|Bool|Float|Real|Bytes|Str|Range|Set|Text)|RatInt|Seg|OpaqueSeg|InBuf|OutBuf|SymArray|CStruct|"
                   r"Poison|Plan|Gen|ListIter|View|LView|Ref|Rec|Blob|Rest)\b")


def raised(ex, *vals):
    """the exception of a native operation; Unsupported when the operation failed only because
    the verifier's stand-ins for values do not implement it"""
    if _OURS.search(str(ex)):
        return Unsupported('native operation: ' + str(ex)[:120])
    return PyExc(ex)


ENG = None          # current engine, set by engine.Engine


def set_engine(e):
    global ENG
    ENG = e


def eng():
    return ENG


_simp = z3.simplify


class Poison:
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return f'<poison {self.why}>'


def to_bv(v):
    if isinstance(v, SymInt):
        return v.t
    if isinstance(v, bool):
        v = int(v)
    return z3.BitVecVal(v, W)


def mk_int(t, lo, hi):
    if lo > hi:
        lo = hi
    if lo == hi:
        return lo
    if lo < -LIM or hi > LIM:
        raise Unsupported(f'integer interval too wide [{lo},{hi}]')
    t = _simp(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt(t, lo, hi)


def ivl(v):
    if isinstance(v, SymInt):
        return v.lo, v.hi
    return int(v), int(v)


def mk_bool(t):
    if isinstance(t, bool):
        return t
    t = _simp(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def to_z3bool(b):
    if isinstance(b, SymBool):
        return b.t
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if isinstance(b, z3.BoolRef):
        return b
    if isinstance(b, SymInt):
        return b.t != 0
    return z3.BoolVal(bool(b))


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.decide(self.t)

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def as_int(self):
        return mk_int(z3.If(self.t, z3.BitVecVal(1, W), z3.BitVecVal(0, W)), 0, 1)

    def __repr__(self):
        return f'<SymBool {self.t}>'

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(self.t == to_z3bool(o))
        return self.as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.t))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(z3.And(self.t, to_z3bool(o)))
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(z3.Or(self.t, to_z3bool(o)))
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(z3.Xor(self.t, to_z3bool(o)))
        return self.as_int() ^ o

    __rxor__ = __xor__


def _delegate(name):
    def f(self, *a):
        v = self.as_int()
        r = getattr(v if isinstance(v, SymInt) else int(v), name)(*a)
        return r
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__',
           '__floordiv__', '__mod__', '__lshift__', '__rshift__', '__rlshift__',
           '__lt__', '__le__', '__gt__', '__ge__', '__neg__', '__invert__'):
    setattr(SymBool, _n, _delegate(_n))


def _isint(o):
    return isinstance(o, (int, SymInt, SymBool))


def _co(o):
    if isinstance(o, SymBool):
        return o.as_int()
    if isinstance(o, bool):
        return int(o)
    return o


def _chk_other(o):
    if isinstance(o, (SymFloat, SymReal)):
        raise Unsupported('mixed symbolic int/float arithmetic')
    return NotImplemented


class SymInt:
    __slots__ = ('t', 'lo', 'hi', 'fd')

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi
        self.fd = None                 # (numerator, divisor) of a floor division

    def __repr__(self):
        return f'<SymInt {self.t} in [{self.lo},{self.hi}]>'

    def __hash__(self):
        raise Unsupported('hash of symbolic int')

    def __index__(self):
        raise Unsupported('native index of symbolic int')

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return ENG.decide(self.t != 0)

    # comparisons -----------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, SymFloat) or isinstance(o, SymReal):
            raise Unsupported('symbolic int/float comparison')
        if isinstance(o, float):
            import math
            if o == int(o) if math.isfinite(o) else False:
                o = int(o)
            else:
                raise Unsupported('symbolic int vs float')
        if not _isint(o):
            return NotImplemented
        o = _co(o)
        lo, hi = ivl(o)
        if op == 'eq':
            if self.hi < lo or self.lo > hi:
                return False
            return mk_bool(self.t == to_bv(o))
        if op == 'lt':
            if self.hi < lo:
                return True
            if self.lo >= hi:
                return False
            return mk_bool(self.t < to_bv(o))
        if op == 'le':
            if self.hi <= lo:
                return True
            if self.lo > hi:
                return False
            return mk_bool(self.t <= to_bv(o))

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'eq')
        if r is NotImplemented:
            return True
        return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.t))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        r = self._cmp(o, 'le')
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.t))

    def __ge__(self, o):
        r = self._cmp(o, 'lt')
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.t))

    # arithmetic ------------------------------------------------------------
    def __add__(self, o):
        if not _isint(o):
            return _chk_other(o)
        o = _co(o)
        lo, hi = ivl(o)
        if lo == hi == 0:
            return self
        return mk_int(self.t + to_bv(o), self.lo + lo, self.hi + hi)

    __radd__ = __add__

    def __neg__(self):
        return mk_int(-self.t, -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return mk_int(z3.If(self.t < 0, -self.t, self.t), 0, max(-self.lo, self.hi))

    def __sub__(self, o):
        if not _isint(o):
            return _chk_other(o)
        o = _co(o)
        lo, hi = ivl(o)
        return mk_int(self.t - to_bv(o), self.lo - hi, self.hi - lo)

    def __rsub__(self, o):
        if not _isint(o):
            return _chk_other(o)
        o = _co(o)
        lo, hi = ivl(o)
        return mk_int(to_bv(o) - self.t, lo - self.hi, hi - self.lo)

    def __mul__(self, o):
        if not _isint(o):
            return _chk_other(o)
        o = _co(o)
        lo, hi = ivl(o)
        if isinstance(o, int) and self.fd is not None and self.fd[1] == o:
            num = self.fd[0]                       # (num // d) * d == num - num % d
            return mk_int(to_bv(num - num % o), self.lo * o, self.hi * o)
        c = [self.lo * lo, self.lo * hi, self.hi * lo, self.hi * hi]
        return mk_int(self.t * to_bv(o), min(c), max(c))

    __rmul__ = __mul__

    def _divmod(self, o):
        if isinstance(o, SymInt):
            return divide(self, o)
        if o < 0:
            q, r = divmod(-self, -o)
            return q, -r
        d = z3.BitVecVal(o, W)
        if self.lo >= 0:
            if o & (o - 1) == 0:
                sh = o.bit_length() - 1
                q = z3.LShR(self.t, sh)
                r = self.t & z3.BitVecVal(o - 1, W)
            else:
                q, r = z3.UDiv(self.t, d), z3.URem(self.t, d)
        elif o & (o - 1) == 0:
            q = self.t >> (o.bit_length() - 1)
            r = self.t & z3.BitVecVal(o - 1, W)
        else:
            sr = z3.SRem(self.t, d)
            r = z3.If(sr < 0, sr + d, sr)
            q = (self.t - r) / d
        q = mk_int(q, self.lo // o, self.hi // o)
        if isinstance(q, SymInt):
            q.fd = (self, o)
        return (q, mk_int(r, 0, min(o - 1, self.hi) if self.lo >= 0 else o - 1))

    def __floordiv__(self, o):
        if not _isint(o):
            return _chk_other(o)
        o = _co(o)
        if isinstance(o, int) and o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return self._divmod(o)[0]

    def __mod__(self, o):
        if not _isint(o):
            return _chk_other(o)
        o = _co(o)
        if isinstance(o, int) and o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return self._divmod(o)[1]

    def __divmod__(self, o):
        return (self // o, self % o) if isinstance(o, int) else self._divmod(_co(o))

    def __truediv__(self, o):
        if type(o) is int and o == 0:
            raise ZeroDivisionError('division by zero')
        return RatInt(self, o)

    def __rfloordiv__(self, o):
        return divide(_co(o), self)[0]

    def __rmod__(self, o):
        return divide(_co(o), self)[1]

    def __rdivmod__(self, o):
        return divide(_co(o), self)

    def __rtruediv__(self, o):
        raise Unsupported('division by symbolic int')

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('pow')

    def __rpow__(self, o, m=None):
        if type(o) is int and o == 2 and m is None and self.lo >= 0:
            return 1 << self
        raise Unsupported('rpow')

    def _bits(self):
        return max(abs(self.lo), abs(self.hi), 1).bit_length()

    def __and__(self, o):
        if not _isint(o):
            return _chk_other(o)
        o = _co(o)
        lo, hi = ivl(o)
        if self.lo >= 0 and lo >= 0:
            r = (0, min(self.hi, hi))
        elif self.lo >= 0:
            r = (0, self.hi)
        elif lo >= 0:
            r = (0, hi)
        else:
            b = max(self._bits(), max(abs(lo), abs(hi)).bit_length())
            r = (-(1 << b), 1 << b)
        return mk_int(self.t & to_bv(o), *r)

    __rand__ = __and__

    def _orx(self, o, f):
        if not _isint(o):
            return _chk_other(o)
        o = _co(o)
        lo, hi = ivl(o)
        b = max(self._bits(), max(abs(lo), abs(hi), 1).bit_length())
        if self.lo >= 0 and lo >= 0:
            r = (0, (1 << b) - 1)
        else:
            r = (-(1 << b), (1 << b) - 1)
        return mk_int(f(self.t, to_bv(o)), *r)

    def __or__(self, o):
        return self._orx(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._orx(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __invert__(self):
        return mk_int(~self.t, ~self.hi, ~self.lo)

    def __lshift__(self, o):
        return shift(self, o, True)

    def __rshift__(self, o):
        return shift(self, o, False)

    def __rlshift__(self, o):
        return shift(o, self, True)

    def __rrshift__(self, o):
        return shift(o, self, False)

    def bit_length(self):
        if self.lo < 0:
            raise Unsupported('bit_length of negative')
        n = self.hi.bit_length()
        t = z3.BitVecVal(0, W)
        for i in range(n):
            t = z3.If(z3.Extract(i, i, self.t) == 1, z3.BitVecVal(i + 1, W), t)
        return mk_int(t, self.lo.bit_length(), n)

    def bit_count(self):
        if self.lo < 0:
            raise Unsupported('bit_count of negative')
        n = self.hi.bit_length()
        t = z3.BitVecVal(0, W)
        for i in range(n):
            t = t + z3.ZeroExt(W - 1, z3.Extract(i, i, self.t))
        return mk_int(t, 0, n)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise Unsupported('round')

    __ceil__ = __floor__ = __trunc__ = lambda self: self


def shift(a, o, left):
    if not _isint(a) or not _isint(o):
        return NotImplemented
    a, o = _co(a), _co(o)
    if isinstance(o, int):
        if o < 0:
            raise ValueError('negative shift count')
        t = z3.BitVecVal(min(o, W), W)
    else:
        if o.lo < 0:
            ENG.maybe_raise(o.t < 0, ValueError('negative shift count'))
            o = mk_int(o.t, 0, o.hi)
        t = to_bv(o)
    alo, ahi = ivl(a)
    slo, shi = ivl(o)
    if left:
        if shi > W:
            raise Unsupported('shift too far')
        c = [alo << slo, alo << shi, ahi << slo, ahi << shi]
        return mk_int(to_bv(a) << t, min(c), max(c))
    slo, shi = min(slo, W), min(shi, W)
    c = [alo >> slo, alo >> shi, ahi >> slo, ahi >> shi]
    return mk_int(to_bv(a) >> t, min(c), max(c))


def divide(a, o):
    """divmod by a symbolic int"""
    if not _isint(a) or not _isint(o):
        raise Unsupported('division of other than integers')
    if o.lo <= 0 <= o.hi:
        ENG.maybe_raise(o.t == 0, ZeroDivisionError('integer division or modulo by zero'))
    if o.lo < 0 and (o.hi <= 0 or not ENG.decide(o.t > 0)):
        q, r = divmod(-a, mk_int(-o.t, max(1, -o.hi), -o.lo))
        return q, -r
    d = mk_int(o.t, max(1, o.lo), o.hi)
    if isinstance(d, int):
        return divmod(a, d)
    t = to_bv(a)
    lo, hi = ivl(a)
    sr = z3.SRem(t, d.t)
    r = z3.If(sr < 0, sr + d.t, sr)
    c = [lo // d.lo, lo // d.hi, hi // d.lo, hi // d.hi]
    return mk_int((t - r) / d.t, min(c), max(c)), mk_int(r, 0, d.hi - 1)


class RatInt:
    """num/den with den a positive int: result of int / int before int()/ceil()."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        if not isinstance(den, int) or den <= 0:
            raise Unsupported('true division by symbolic/negative')
        self.num, self.den = num, den

    def _guard(self):
        # float64 represents num/den well enough for floor/ceil if |num| < 2**52
        lo, hi = ivl(self.num)
        if max(abs(lo), abs(hi)) >= 1 << 50:
            raise Unsupported('float quotient of large int')

    def __floor__(self):
        self._guard()
        return self.num // self.den

    def __ceil__(self):
        self._guard()
        return -((-self.num) // self.den)

    def __trunc__(self):
        self._guard()
        lo, hi = ivl(self.num)
        if lo >= 0:
            return self.num // self.den
        if hi <= 0:
            return -(-self.num // self.den)
        q = abs(self.num) // self.den
        return mk_int(z3.If(to_bv(self.num) < 0, -to_bv(q), to_bv(q)), -ivl(q)[1], ivl(q)[1])

    def _cmp(self, o, f):
        # exact: a quotient of this size never rounds to an integer it is not
        if not _isint(o):
            raise Unsupported('comparison of int quotient')
        self._guard()
        return f(self.num, _co(o) * self.den)

    def __eq__(self, o):
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, operator.ne)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def is_integer(self):
        self._guard()
        return self.num % self.den == 0

    def _no(self, *a):
        raise Unsupported('arithmetic on int quotient')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = _no
    __float__ = __bool__ = __hash__ = __mod__ = __floordiv__ = _no


F32, F64 = z3.Float32(), z3.Float64()


def nan_bits(bits):
    if bits.size() == 32:
        return z3.And(z3.Extract(30, 23, bits) == 0xFF, z3.Extract(22, 0, bits) != 0)
    return z3.And(z3.Extract(62, 52, bits) == 0x7FF, z3.Extract(51, 0, bits) != 0)


class SymFloat:
    """A float given by its bit pattern (32: a value exactly representable in
    binary32; 64: any binary64)."""
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = bits

    @property
    def width(self):
        return self.bits.size()

    def fp(self):
        if self.width == 32:
            return z3.fpFPToFP(z3.RNE(), z3.fpBVToFP(self.bits, F32), F64)
        return z3.fpBVToFP(self.bits, F64)

    def __repr__(self):
        return f'<SymFloat{self.width} {self.bits}>'

    def __hash__(self):
        raise Unsupported('hash of symbolic float')

    def _other(self, o):
        if isinstance(o, SymFloat):
            return o.fp()
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return z3.FPVal(float(o), F64)
        if isinstance(o, (SymInt, SymBool, SymReal)):
            raise Unsupported('mixed float comparison')
        return None

    def __eq__(self, o):
        if isinstance(o, SymFloat) and o.bits.eq(self.bits):
            return mk_bool(z3.Not(nan_bits(self.bits)))
        x = self._other(o)
        return False if x is None else mk_bool(z3.fpEQ(self.fp(), x))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.t))

    def __lt__(self, o):
        x = self._other(o)
        return NotImplemented if x is None else mk_bool(z3.fpLT(self.fp(), x))

    def __le__(self, o):
        x = self._other(o)
        return NotImplemented if x is None else mk_bool(z3.fpLEQ(self.fp(), x))

    def __gt__(self, o):
        x = self._other(o)
        return NotImplemented if x is None else mk_bool(z3.fpGT(self.fp(), x))

    def __ge__(self, o):
        x = self._other(o)
        return NotImplemented if x is None else mk_bool(z3.fpGEQ(self.fp(), x))

    def __bool__(self):
        m = z3.Extract(self.width - 2, 0, self.bits)
        return ENG.decide(m != 0)

    def __pos__(self):
        return self

    def __neg__(self):
        w = self.width
        return SymFloat(_simp(self.bits ^ z3.BitVecVal(1 << (w - 1), w)))

    def __abs__(self):
        w = self.width
        return SymFloat(_simp(self.bits & z3.BitVecVal((1 << (w - 1)) - 1, w)))

    def _no(self, *a):
        raise Unsupported('float arithmetic on wire value')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __int__ = __float__ = __pow__ = __mod__ = _no
    __floordiv__ = __round__ = __trunc__ = __floor__ = __ceil__ = _no


class SymReal:
    """placeholder base; real implementation in reals.py"""
    __slots__ = ()


# ---------------------------------------------------------------- chunks ----
class Seg:
    """n repetitions; cases: list of (cond over kvar, payload).  Used both in
    byte streams (payload = chunk list) and in python lists (payload = frozen
    element)."""
    __slots__ = ('n', 'k', 'cases')

    def __init__(self, n, k, cases):
        self.n, self.k, self.cases = n, k, cases

    def __repr__(self):
        return f'<Seg n={self.n} k={self.k} cases={self.cases}>'


class OpaqueSeg(Seg):
    """list segment with unreadable contents (loop invariant placeholder)."""
    __slots__ = ()

    def __init__(self, n):
        Seg.__init__(self, n, None, None)


class Rec:
    """Opaque encoding of a record of class cls with the given view."""
    __slots__ = ('cls', 'view')

    def __init__(self, cls, view):
        self.cls, self.view = cls, view

    def __repr__(self):
        return f'<Rec {self.cls.__name__}>'


class Blob:
    """len bytes base[off .. off+len) of an uninterpreted byte array."""
    __slots__ = ('base', 'off', 'len')

    def __init__(self, base, off, ln):
        self.base, self.off, self.len = base, off, ln

    def byte(self, k):
        return self.base(_simp(to_bv(self.off) + k))

    def __repr__(self):
        return f'<Blob {self.base}[{self.off}:+{self.len}]>'


class Rest:
    """arbitrary trailing bytes (unknown number)."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<Rest {self.name}>'


class Wall:
    """window boundary; cannot be read."""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why


def is_byte(x):
    return isinstance(x, int) or z3.is_bv(x)


def byte_term(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


def norm_byte(t):
    if isinstance(t, int):
        return t
    t = _simp(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return t


def byte_to_int(b):
    if isinstance(b, int):
        return b
    return mk_int(z3.ZeroExt(W - 8, b), 0, 255)


def int_to_byte(v):
    """v: int/SymInt known to be in 0..255"""
    if isinstance(v, int):
        return v
    return norm_byte(z3.Extract(7, 0, v.t))


class SymBytes:
    """immutable byte string: list of bytes (int / BV8) and chunks."""
    __slots__ = ('chunks',)

    def __init__(self, chunks):
        self.chunks = list(chunks)

    def fixed(self):
        return all(is_byte(c) for c in self.chunks)

    def concrete(self):
        if all(isinstance(c, int) for c in self.chunks):
            return bytes(self.chunks)
        return None

    def __hash__(self):
        raise Unsupported('hash of symbolic bytes')

    def __repr__(self):
        return f'<SymBytes {self.chunks}>'


def mk_bytes(chunks):
    b = SymBytes(chunks)
    c = b.concrete()
    return b if c is None else c


def bytes_chunks(b):
    if isinstance(b, (SymBytes, SymArray)):
        return list(b.chunks)
    if isinstance(b, (bytes, bytearray, memoryview)):
        return list(bytes(b))
    raise PyExc(TypeError(f"a bytes-like object is required, not {type(b).__name__!r}"))


class SymStr:
    """string as a list of code points (ints / SymInt)"""
    __slots__ = ('cps',)

    def __init__(self, cps):
        self.cps = list(cps)

    def __hash__(self):
        raise Unsupported('hash of symbolic str')


def mk_str(cps):
    if all(isinstance(c, int) for c in cps):
        return ''.join(map(chr, cps))
    return SymStr(cps)


class SymText:
    """text whose characters are not known (a formatted symbolic value)"""
    __slots__ = ('what',)

    def __init__(self, what=''):
        self.what = what

    def __repr__(self):
        return f'<text {self.what}>'

    def _no(self, *a):
        raise Unsupported(f'text of {self.what}')

    def _add(self, o):
        return self if isinstance(o, (str, SymStr, SymText)) else NotImplemented

    __add__ = __radd__ = __mod__ = _add
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __hash__ = __len__ = __iter__ = __contains__ = _no
    __getitem__ = __mul__ = __rmul__ = _no


SYM = (SymInt, SymBool, SymFloat, SymReal, SymBytes, SymStr, RatInt, SymText)


STAND_IN = {SymInt: 1, SymBool: True, SymFloat: 1.0, SymBytes: b'a', SymStr: 'a', RatInt: 1.5}


def is_sym(v):
    return isinstance(v, SYM)


def has_sym(v, depth=3):
    if isinstance(v, SYM) or isinstance(v, (Seg, CStruct, OutBuf, InBuf)):
        return True
    if depth and type(v) in (list, tuple, set, frozenset):
        return any(has_sym(x, depth - 1) for x in v)
    if depth and type(v) is dict:
        return any(has_sym(x, depth - 1) for x in v.values())
    return False


class CStruct:
    """model of an instance of a ctypes bit-field structure class"""

    def __init__(self, cls, vals):
        object.__setattr__(self, 'cls', cls)
        object.__setattr__(self, 'vals', vals)

    def __repr__(self):
        return f'<CStruct {self.cls.__name__} {self.vals}>'


class OutBuf:
    """byte sink (model of a writable binary stream)"""

    def __init__(self):
        self.chunks = []

    def __repr__(self):
        return f'<OutBuf {self.chunks}>'


class SymArray(OutBuf):
    """a bytearray"""

    def __init__(self, chunks=()):
        self.chunks = list(chunks)

    def __repr__(self):
        return f'<bytearray {self.chunks}>'

    __hash__ = None


class InBuf:
    """byte source (model of a readable, seekable binary stream)"""

    def __init__(self, chunks):
        self.chunks = list(chunks)     # unread
        self.past = []                 # already read

    def __repr__(self):
        return f'<InBuf {self.chunks}>'
