"""Models of the built-ins and library functions the code under verification
calls.  A model is used when symbolic values take part; with concrete operands
the real function is called.  The struct, ctypes and stream models are
cross-checked against CPython on every run (selfcheck.py)."""
import ast
import builtins
import ctypes
import math
import struct
import sys
import types
import z3
from . import sym
from .attrs import attrs, has_attrs
from .sym import (Unsupported, PyExc, Poison, raised, SymInt, SymBool, SymFloat, SymBytes, SymStr, SymText, SymArray, Seg, OpaqueSeg,
                  Rec, Blob, Rest, Wall, CStruct, InBuf, OutBuf, RatInt, SymReal, W, mk_int, mk_bool, mk_bytes,
                  mk_str, bytes_chunks, byte_to_int, int_to_byte, is_byte, is_sym, has_sym, ivl, to_bv,
                  norm_byte, byte_term, to_z3bool)


def build(interp):
    return Models(interp)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class ListIter:
    """iterator over a sequence; a list is looked at as it is when each element is asked for"""

    def __init__(self, interp, src):
        self.i, self.src, self.pos = interp, src, 0

    def step(self):
        """(element,), or None at the end"""
        if self.pos is None or self.pos >= len(self.src):
            self.move(None)
            return None
        x = self.src[self.pos]
        if any(isinstance(y, Seg) for y in self.src[:self.pos + 1]):
            raise Unsupported('next of a list of symbolic length')
        self.move(self.pos + 1)
        return (x,)

    def near(self):
        """the next element, if any, is a single one"""
        return self.pos is None or not any(isinstance(y, Seg) for y in self.src[:self.pos + 1])

    def move(self, pos):
        old = self.pos

        def undo():
            self.pos = old
        self.i.e.log('gen', self, 'pos', undo)
        self.pos = pos

    def rest(self):
        """what is left, taken"""
        pos = self.pos
        if pos is None:
            return []
        if any(isinstance(y, Seg) for y in self.src[:pos]):
            raise Unsupported('iterator over a list of symbolic length')
        self.move(None)
        return list(self.src[pos:])


class Plan:
    """lazy iterable built by enumerate/zip/reversed/map over symbolic parts"""

    def __init__(self, kind, args, strict=False):
        self.kind, self.args, self.strict = kind, args, strict


FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
       'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = '@'
    if fmt and fmt[0] in '@=<>!':
        order, fmt = fmt[0], fmt[1:]
    items, num = [], ''
    for c in fmt:
        if c.isspace():
            continue
        if c.isdigit():
            num += c
            continue
        n = int(num) if num else 1
        if c == 's':
            items.append(('s', n))
        elif c == 'x':
            items.extend([('x', 1)] * n)
        elif c in FMT or c in 'fd?c':
            items.extend([(c, 0)] * n)
        else:
            raise Unsupported(f'struct format {c}')
        num = ''
    if order == '@' and len(items) > 1 and any(c not in 'bBsx?c' for c, _ in items):
        raise Unsupported('native-aligned struct format')
    if order == '@' and any(c in 'lL' for c, _ in items):
        raise Unsupported('native long')
    big = order in '>!'
    return big, items


def isz(c, n):
    return FMT[c][0] if c in FMT else {'f': 4, 'd': 8, '?': 1, 'c': 1, 's': n, 'x': 1}[c]


class Models:
    def __init__(self, interp):
        self.i = interp
        self.e = interp.e
        t = self.table = {}
        t[len] = self.m_len
        t[range] = self.m_range
        t[int] = self.m_int
        t[bool] = self.m_bool
        t[float] = self.m_float
        t[str] = self.m_str
        t[bytes] = self.m_bytes
        t[bytearray] = self.m_bytearray
        t[list] = self.m_list
        t[dict] = self.m_dict
        t[iter] = self.m_iter
        t[next] = self.m_next
        t[math.isnan] = lambda v: self.m_fclass(math.isnan, v)
        t[math.isinf] = lambda v: self.m_fclass(math.isinf, v)
        t[math.isfinite] = lambda v: self.m_fclass(math.isfinite, v)
        t[math.trunc] = lambda v: v.__trunc__() if isinstance(v, RatInt) else v if isinstance(
            v, SymInt) else math.trunc(v)
        t[tuple] = self.m_tuple
        t[isinstance] = self.m_isinstance
        t[chr] = self.m_chr
        t[ord] = self.m_ord
        t[abs] = self.m_abs
        t[min] = lambda *a, **k: self.m_minmax(True, *a, **k)
        t[max] = lambda *a, **k: self.m_minmax(False, *a, **k)
        t[sum] = self.m_sum
        t[enumerate] = self.m_enumerate
        t[zip] = lambda *its, strict=False: self.i.loops.zip_gen(its, strict) if any(
            isinstance(x, Gen) for x in its) else self.i.loops.zip_iter(its, strict) if any(
            isinstance(x, ListIter) for x in its) else Plan('zip', its, strict)
        t[reversed] = self.m_reversed
        t[map] = self.m_map
        t[filter] = self.m_filter
        t[any] = lambda it: self.m_anyall(it, True)
        t[all] = lambda it: self.m_anyall(it, False)
        t[divmod] = self.m_divmod
        t[round] = self.m_round
        t[getattr] = self.m_getattr
        t[setattr] = lambda o, n, v: self.i.setattr(o, n, v)
        t[hasattr] = self.m_hasattr
        t[callable] = lambda f: callable(f)
        t[type] = self.m_type
        t[print] = lambda *a, **k: None
        t[id] = self.m_unsupported('id')
        t[hash] = self.m_unsupported('hash')
        t[repr] = lambda o: self.m_text(o, '__repr__', repr)
        t[vars] = self.m_vars
        t[math.ceil] = self.m_ceil
        t[math.floor] = self.m_floor
        t[struct.pack] = self.m_pack
        t[struct.unpack] = self.m_unpack
        t[struct.calcsize] = struct.calcsize
        t[struct.unpack_from] = self.m_unpack_from
        t[int.from_bytes] = self.m_from_bytes
        t[ctypes.sizeof] = self.m_sizeof
        t[memoryview] = lambda b: b
        t[object.__setattr__] = lambda o, n, v: self.i.raw_setattr(o, n, v)
        import copy
        t[copy.copy] = self.m_copy
        t[copy.deepcopy] = self.m_deepcopy
        import io
        t[io.BytesIO] = self.m_bytesio
        t[open] = self.m_open
        import functools
        import itertools
        import operator
        from . import pylib
        py = {itertools.chain.from_iterable: pylib.chain_from_iterable}
        for nm in ('chain', 'islice', 'accumulate', 'takewhile', 'dropwhile', 'filterfalse', 'compress', 'starmap',
                   'pairwise', 'batched', 'zip_longest', 'product'):
            if hasattr(itertools, nm):
                py[getattr(itertools, nm)] = getattr(pylib, nm)
        py[functools.reduce] = pylib.reduce
        for f, g in py.items():
            t[f] = lambda *a, _g=g, **k: self.i.call(_g, a, k)
        t[itertools.repeat] = lambda x, *n: self.i.call(pylib.repeat if n else pylib.forever, (x,) + n)
        t[itertools.count] = lambda *a: self.i.call(pylib.counting, a)
        t[itertools.cycle] = lambda x: self.i.call(pylib.cycle, (x,))
        t[sorted] = self.m_sorted
        t[functools.partial] = lambda *a, **k: functools.partial(*a, **k)
        for nm, op in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('and_', ast.BitAnd),
                       ('or_', ast.BitOr), ('xor', ast.BitXor), ('lshift', ast.LShift), ('rshift', ast.RShift),
                       ('floordiv', ast.FloorDiv), ('truediv', ast.Div), ('mod', ast.Mod), ('pow', ast.Pow)):
            t[getattr(operator, nm)] = lambda a, b, _o=op: self.i.binop(_o(), a, b)
        for nm, op in (('eq', ast.Eq), ('ne', ast.NotEq), ('lt', ast.Lt), ('le', ast.LtE), ('gt', ast.Gt),
                       ('ge', ast.GtE), ('is_', ast.Is), ('is_not', ast.IsNot)):
            t[getattr(operator, nm)] = lambda a, b, _o=op: self.i.compare(_o(), a, b)
        t[operator.getitem] = lambda a, b: self.i.getitem(a, b)
        t[operator.setitem] = lambda a, b, c: self.i.setitem(a, b, c)
        t[operator.contains] = lambda a, b: self.contains(a, b)
        t[operator.truth] = lambda a: self.i.truth(a)
        t[operator.not_] = lambda a: not self.i.truth(a)
        t[operator.index] = lambda a: a.as_int() if isinstance(a, SymBool) else a if isinstance(
            a, SymInt) else self.i.native(operator.index, (a,), {})
        # functions that take a generator without running it to its end first
        self.lazy = set(py) | {sorted, min, max, enumerate, zip, map, filter, any, all, isinstance, type, setattr, callable, print, getattr,
                     hasattr, len}
        self.files = {}         # path -> chunks of the files that exist
        self.methods = {
            (dict, 'get'): self.dict_get,
            (list, 'sort'): self.l_sort, (list, 'count'): self.l_py('count'), (tuple, 'count'): self.l_py('count'),
            (list, 'index'): self.l_py('index'), (tuple, 'index'): self.l_py('index'),
            (list, 'remove'): self.l_py('remove'),
            (list, 'append'): self.l_append, (list, 'extend'): self.l_extend, (list, 'copy'): self.l_copy,
            (bytes, 'join'): self.b_join, (list, '__len__'): self.m_len,
            (bytes, 'ljust'): self.b_ljust,
        }

    def m_fclass(self, f, v):
        if isinstance(v, (SymInt, SymBool, RatInt)):
            return f is math.isfinite
        if not isinstance(v, SymFloat):
            return self.i.native(f, (v,), {})
        w = v.width
        m, e = (23, 8) if w == 32 else (52, 11)
        ex, fr = z3.Extract(w - 2, m, v.bits) == (1 << e) - 1, z3.Extract(m - 1, 0, v.bits)
        return mk_bool({math.isnan: z3.And(ex, fr != 0), math.isinf: z3.And(ex, fr == 0), math.isfinite: z3.Not(ex)}[f])

    def m_iter(self, v, *sentinel):
        if sentinel:
            raise Unsupported('iter with a sentinel')
        if isinstance(v, (Gen, ListIter)):
            return v
        d = getattr(type(v), '__iter__', None)
        if isinstance(d, types.FunctionType) and self.i.in_package(d):
            return self.i.call(d, (v,))
        if type(v) in (list, tuple, str, bytes, dict, set, frozenset, range) or isinstance(
                v, (SymBytes, SymStr, SymArray, SymRange, Plan)):
            return self.e.born(ListIter(self.i, v if type(v) is list else self.i.loops.parts(v)))
        return self.i.native(iter, (v,), {})

    def m_next(self, it, *d):
        if isinstance(it, ListIter):
            r = it.step()
            if r is not None:
                return r[0]
        elif isinstance(it, Plan):
            raise Unsupported('next of ' + it.kind)
        else:
            f = getattr(type(it), '__next__', None)
            if isinstance(f, types.FunctionType) and self.i.in_package(f):
                try:
                    return self.i.call(f, (it,))
                except PyExc as ex:
                    if not isinstance(ex.exc, StopIteration) or not d:
                        raise
                    return d[0]
            return self.i.native(next, (it,) + d, {})
        if d:
            return d[0]
        raise PyExc(StopIteration())

    def m_unsupported(self, name):
        def f(*a, **k):
            raise Unsupported(name)
        return f

    def get(self, f):
        if isinstance(f, (types.BuiltinFunctionType, type, types.FunctionType, types.WrapperDescriptorType,
                          types.BuiltinMethodType)):
            h = self.table.get(f)
            if h is not None:
                return h
            s = getattr(f, '__self__', None)
            if isinstance(s, struct.Struct):
                if f.__name__ == 'pack':
                    return lambda *a: self.m_pack(s.format, *a)
                if f.__name__ == 'unpack':
                    return lambda b: self.m_unpack(s.format, b)
            if f is self._from_bytes_bound():
                return self.m_from_bytes
        return None

    def _from_bytes_bound(self):
        return None

    def method(self, tp, name):
        return self.methods.get((tp, name))

    # ------------------------------------------------------------- lengths --
    def chunk_len(self, c):
        if is_byte(c):
            return 1
        if isinstance(c, Blob):
            return c.len
        if isinstance(c, Seg):
            return self.seg_len(c)
        if isinstance(c, Rec):
            return self.chunks_len(self.i.expand_rec(c))
        raise Unsupported(f'length of {c!r}')

    def work(self, n):
        """n steps (or elements made) in which no input is consumed: where work is
        counted, the octets already read have to pay for them"""
        b = getattr(self.e, 'arb_in', None)
        if b is None or ivl(n)[1] <= 255:
            return
        if not self.e.implied(to_bv(n) <= to_bv(self.chunks_len(b.past))):
            self.e.flags['unpaid_work'] = True

    def chunks_len(self, cs):
        n, sym_ = 0, []
        for c in cs:
            l = self.chunk_len(c)
            if isinstance(l, int):
                n += l
            else:
                sym_.append(l)
        for s in sym_:
            n = s + n
        return n

    def seg_elem_len(self, s):
        """length of element k as int/SymInt (over s.k)"""
        ls = [self.chunks_len(p) for _, p in s.cases]
        if all(isinstance(l, int) and l == ls[0] for l in ls):
            return ls[0]
        r = ls[-1]
        for (c, _), l in list(zip(s.cases, ls))[-2::-1]:
            lo = min(ivl(l)[0], ivl(r)[0])
            hi = max(ivl(l)[1], ivl(r)[1])
            r = mk_int(z3.If(c, to_bv(l), to_bv(r)), lo, hi)
        return r

    def seg_len(self, s):
        return self.e.sum_upto(self.seg_elem_len(s), s.k, s.n)

    def length(self, v):
        if isinstance(v, (list, tuple)):
            n, s = 0, []
            for x in v:
                if isinstance(x, Seg):
                    s.append(x.n)
                else:
                    n += 1
            for x in s:
                n = x + n
            return n
        if isinstance(v, (SymBytes, SymArray)):
            return self.chunks_len(v.chunks)
        if isinstance(v, SymStr):
            return len(v.cps)
        if isinstance(v, SymRange):
            return self.range_len(v)
        raise Unsupported(f'len of {type(v).__name__}')

    def range_len(self, r):
        if r.step == 1:
            d = r.stop - r.start
            if isinstance(d, int):
                return max(0, d)
            if d.lo >= 0:
                return d
            if self.e.decide(to_bv(d) >= 0):
                return mk_int(to_bv(d), 0, d.hi)
            return 0
        if isinstance(r.step, int) and r.step > 1:
            d = r.stop - r.start + (r.step - 1)
            if isinstance(d, int):
                return max(0, d // r.step)
            if d.lo < 0:
                if not self.e.decide(to_bv(d) >= 0):
                    return 0
                d = mk_int(to_bv(d), 0, d.hi)
            return d // r.step
        raise Unsupported('range step')

    def m_len(self, v):
        if isinstance(v, (list, tuple)) or isinstance(v, (SymBytes, SymStr, SymRange, SymArray)):
            if type(v) in (list, tuple) or isinstance(v, (SymBytes, SymStr, SymRange, SymArray)):
                return self.length(v)
        if isinstance(v, Poison):
            raise Unsupported('len of poisoned value')
        if is_sym(v):
            raise PyExc(TypeError(f'object of type {type(v).__name__} has no len()'))
        d = getattr(type(v), '__len__', None)
        if isinstance(d, types.FunctionType) and self.i.in_package(d):
            return self.i.call(d, (v,))
        try:
            return len(v)
        except Exception as ex:
            raise raised(ex)

    def m_range(self, *a):
        if not has_sym(list(a)):
            try:
                return range(*a)
            except Exception as ex:
                raise raised(ex)
        for x in a:
            if not isinstance(x, (int, SymInt, SymBool)):
                raise PyExc(TypeError('range() needs integers'))
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)

    # --------------------------------------------------------- conversions --
    def m_int(self, v=0, *a, **k):
        if isinstance(v, SymInt):
            return v
        if isinstance(v, SymBool):
            return v.as_int()
        if isinstance(v, RatInt):
            return v.__trunc__()
        if isinstance(v, (SymFloat, SymReal, SymStr)):
            raise Unsupported('int() of symbolic non-int')
        d = getattr(type(v), '__int__', None)
        if isinstance(d, types.FunctionType) and self.i.in_package(d):
            return self.i.call(d, (v,))
        try:
            return int(v, *a, **k)
        except Exception as ex:
            raise raised(ex)

    def m_bool(self, v=False):
        if isinstance(v, SymBool):
            return v
        if isinstance(v, SymInt):
            return mk_bool(v.t != 0)
        return self.i.truth(v)

    def m_float(self, v=0.0):
        if isinstance(v, (SymFloat, SymReal)):
            return v
        if isinstance(v, (SymInt, SymBool)):
            raise Unsupported('float() of symbolic int')
        try:
            return float(v)
        except Exception as ex:
            raise raised(ex)

    def m_str(self, v='', *a, **k):
        if isinstance(v, SymStr):
            return v
        if a or k:
            if isinstance(v, (SymBytes, SymArray)):
                return self.i.call(self.i.getattr(v, 'decode'), a, k)
            return self.i.native(str, (v,) + a, k)
        return self.m_text(v, '__str__', str)

    def m_text(self, v, name, f):
        d = getattr(type(v), name, None)
        if name == '__str__' and not isinstance(d, types.FunctionType):
            d = getattr(type(v), '__repr__', None)
        if isinstance(d, types.FunctionType) and self.i.in_package(d):
            return self.i.call(d, (v,))
        if has_sym([v]) or not isinstance(v, (int, float, str, bytes, type(None))) and not isinstance(v, type):
            return SymText('a value')
        try:
            return f(v)
        except Exception as ex:
            raise raised(ex)

    def seq_to_chunks(self, v):
        """iterable of ints -> byte chunks (ValueError outside 0..255)"""
        out = []
        for p in self.i.loops.parts(v):
            if isinstance(p, Seg):
                if isinstance(p, OpaqueSeg):
                    raise Unsupported('opaque list contents')
                cases = []
                for c, x in p.cases:
                    lo, hi = ivl(x) if isinstance(x, (int, SymInt)) else (None, None)
                    if lo is None:
                        raise Unsupported('bytes() of non-int list')
                    if lo < 0 or hi > 255:
                        bad = z3.And(c, z3.Or(to_bv(x) < 0, to_bv(x) > 255), p.k >= 0, p.k < to_bv(p.n))
                        if self.e.check(bad) != z3.unsat:
                            if self.e.choose():
                                kk = self.e.fresh('kx', z3.BitVecSort(W))
                                self.e.assume(z3.substitute(bad, (p.k, kk)))
                                raise PyExc(ValueError('bytes must be in range(0, 256)'))
                    cases.append((c, [int_to_byte(x)]))
                out.append(Seg(p.n, p.k, cases))
            else:
                if isinstance(p, SymBool):
                    p = p.as_int()
                if not isinstance(p, (int, SymInt)):
                    raise PyExc(TypeError(f"'{type(p).__name__}' object cannot be interpreted as an integer"))
                lo, hi = ivl(p)
                if lo < 0 or hi > 255:
                    self.e.maybe_raise(z3.Or(to_bv(p) < 0, to_bv(p) > 255),
                                       ValueError('bytes must be in range(0, 256)'))
                out.append(int_to_byte(p))
        return out

    def m_bytes(self, v=b'', *a, **k):
        if isinstance(v, (SymStr, SymText)) or isinstance(v, str) and (a or k):
            if not a and not k:
                raise PyExc(TypeError('string argument without an encoding'))
            return self.i.call(self.i.getattr(v, 'encode'), a, k)
        if isinstance(v, SymBytes):
            return v
        if isinstance(v, SymArray):
            return mk_bytes(v.chunks)
        if isinstance(v, CStruct):
            return mk_bytes(self.ctypes_pack(v))
        if isinstance(v, (bytes, bytearray)):
            return bytes(v)
        if isinstance(v, SymInt):
            if v.lo < 0:
                self.e.maybe_raise(v.t < 0, ValueError('negative count'))
                v = mk_int(v.t, 0, v.hi)
            if isinstance(v, int):
                return bytes(v)
            self.work(v)
            kv = self.kvar()
            return mk_bytes([Seg(v, kv, [(z3.BoolVal(True), [0])])])
        d = getattr(type(v), '__bytes__', None)
        if isinstance(d, types.FunctionType) and self.i.in_package(d):
            return self.i.call(d, (v,))
        if isinstance(v, (list, tuple, SymRange, Plan, Gen, range, ListIter)) or isinstance(
                getattr(type(v), '__iter__', None), types.FunctionType) and self.i.in_package(type(v)):
            return mk_bytes(self.seq_to_chunks(v))
        try:
            return bytes(v, *a, **k)
        except Exception as ex:
            raise raised(ex)

    def m_bytearray(self, *a, **k):
        return self.e.born(SymArray(bytes_chunks(self.m_bytes(*a, **k))))

    def arr_set(self, a, chunks):
        """the array changed other than by appending: nothing may have been added to it in a loop"""
        old = a.chunks

        def undo():
            a.chunks = old
        self.e.log('list', a, None, undo)
        a.chunks = list(chunks)

    def arr_getattr(self, a, name):
        from .interp import BoundModel
        if name == 'append':
            return BoundModel(lambda v: self.out_write(a, mk_bytes(self.seq_to_chunks([v]))) and None)
        if name in ('extend', '__iadd__'):
            return BoundModel(lambda v: self.out_write(a, self.m_bytes(v if not isinstance(v, (int, SymInt)) else None)) and None)
        if name == 'clear':
            return BoundModel(lambda: self.arr_set(a, []))
        if name == 'copy':
            return BoundModel(lambda: self.e.born(SymArray(a.chunks)))
        if name in ('insert', 'pop', 'reverse', 'remove'):
            def f(*args):
                l = [byte_to_int(c) if not isinstance(c, int) else c for c in self.fixed_bytes(SymBytes(a.chunks))]
                if has_sym(list(args)) and (name != 'insert' or has_sym([args[0]])):
                    raise Unsupported('bytearray.' + name)
                try:
                    r = getattr(l, name)(*args)
                except Exception as ex:
                    raise raised(ex)
                self.arr_set(a, self.seq_to_chunks(l))
                return r
            return BoundModel(f)
        if name in ('hex', 'decode', 'find', 'index', 'count', 'startswith', 'endswith', 'rfind', '__len__'):
            b = mk_bytes(a.chunks)
            return self.i.getattr(b, name)
        if hasattr(bytearray, name):
            raise Unsupported(f'bytearray.{name}')
        raise PyExc(AttributeError(f"'bytearray' object has no attribute '{name}'"))

    def m_list(self, v=()):
        return self.e.born(list(self.paid_parts(v)))

    def paid_parts(self, v):
        ps = self.i.loops.parts(v)
        for x in ps:
            if isinstance(x, Seg):
                self.work(x.n)
        return ps

    def m_tuple(self, v=()):
        return tuple(self.i.loops.parts(v))

    def m_isinstance(self, v, t):
        if isinstance(v, Poison):
            raise Unsupported('isinstance of poisoned value')
        m = {SymInt: int, SymBool: bool, SymFloat: float, SymBytes: bytes, SymStr: str, SymText: str, RatInt: float,
             SymRange: range}.get(type(v))
        if m is None and isinstance(v, SymReal):
            m = float
        if m is not None:
            try:
                return issubclass(m, t)
            except TypeError:
                try:
                    return isinstance(m(), t)
                except Exception as ex:
                    raise raised(ex)
        if isinstance(v, CStruct):
            try:
                return issubclass(v.cls, t)
            except Exception as ex:
                raise raised(ex)
        if isinstance(v, SymArray):
            return issubclass(bytearray, t)
        if isinstance(v, (InBuf, OutBuf)):
            import io
            return True if t in (io.BufferedIOBase, io.IOBase, io.BytesIO, object) else False
        try:
            return isinstance(v, t)
        except Exception as ex:
            raise raised(ex)

    def m_type(self, v, *a, **kw):
        if a:
            if has_sym([v]) or any(has_sym([x]) for x in a[1]):
                raise Unsupported('class with a symbolic name or attribute')
            ns = dict(a[1])
            ns.setdefault('__module__', self.i.package)
            return self.i.new_class(v, tuple(a[0]), ns, kw)
        m = {SymInt: int, SymBool: bool, SymFloat: float, SymBytes: bytes, SymStr: str, SymText: str,
             SymArray: bytearray, SymRange: range, RatInt: float}.get(type(v))
        if m is not None:
            return m
        if isinstance(v, CStruct):
            return v.cls
        return type(v)

    def m_dict(self, *a, **kw):
        d = self.e.born({})
        if a:
            src = a[0]
            if isinstance(src, dict):
                d.update(src)
            elif hasattr(type(src), 'keys') and not self.i.in_package(type(src)):
                d.update(src)
            else:
                for x in self.i.concrete_items(src):
                    x = self.i.concrete_items(x)
                    if len(x) != 2:
                        raise PyExc(ValueError('dictionary update sequence element has the wrong length'))
                    if has_sym([x[0]]):
                        raise Unsupported('symbolic dict key')
                    try:
                        d[x[0]] = x[1]
                    except Exception as ex:
                        raise raised(ex)
        d.update(kw)
        return d

    def m_vars(self, o):
        return self.i.getattr(o, '__dict__')

    def m_chr(self, v):
        if isinstance(v, SymInt):
            if v.lo < 0 or v.hi > 0x10FFFF:
                self.e.maybe_raise(z3.Or(v.t < 0, v.t > 0x10FFFF), ValueError('chr() arg not in range'))
                v = mk_int(v.t, max(v.lo, 0), min(v.hi, 0x10FFFF))
            return SymStr([v]) if isinstance(v, SymInt) else chr(v)
        try:
            return chr(v)
        except Exception as ex:
            raise raised(ex)

    def m_ord(self, v):
        if isinstance(v, SymStr):
            if len(v.cps) != 1:
                raise PyExc(TypeError('ord() expected a character'))
            return v.cps[0]
        if isinstance(v, SymBytes):
            if v.fixed() and len(v.chunks) == 1:
                return byte_to_int(v.chunks[0])
            raise Unsupported('ord(bytes)')
        try:
            return ord(v)
        except Exception as ex:
            raise raised(ex)

    def m_abs(self, v):
        try:
            return abs(v)
        except Exception as ex:
            raise raised(ex)

    def m_minmax(self, ismin, *a, **k):
        if k or any(isinstance(x, Gen) for x in a):
            from . import pylib
            return self.i.call(pylib.extreme, (ismin, a[0] if len(a) == 1 else a), k)
        items = self.i.concrete_items(a[0]) if len(a) == 1 else list(a)
        if not items:
            raise PyExc(ValueError('empty'))
        if not has_sym(items):
            try:
                return (min if ismin else max)(items)
            except Exception as ex:
                raise raised(ex)
        r = items[0]
        for x in items[1:]:
            if isinstance(r, (int, SymInt)) and isinstance(x, (int, SymInt)):
                c = to_bv(x) < to_bv(r) if ismin else to_bv(x) > to_bv(r)
                f = min if ismin else max
                lo, hi = f(ivl(r)[0], ivl(x)[0]), f(ivl(r)[1], ivl(x)[1])
                r = mk_int(z3.If(c, to_bv(x), to_bv(r)), lo, hi)
            elif (x < r) if ismin else (x > r):
                r = x
        return r

    def m_sorted(self, it, *, key=None, reverse=False):
        items = self.i.concrete_items(it)
        if not has_sym(items) and (key is None or not self.i.in_package(key)) and not any(
                self.i.in_package(type(x)) for x in items):
            return self.e.born(self.i.native(sorted, (items,), {'key': key, 'reverse': reverse}))
        if len(items) > 12:
            raise Unsupported('sorting many symbolic values')
        from . import pylib
        return self.i.call(pylib.sorted_, (items,), {'key': key, 'reverse': reverse})

    def l_sort(self, l, *, key=None, reverse=False):
        r = list(self.m_sorted(l, key=key, reverse=reverse))
        self.i.snapshot(l)
        l[:] = r

    def l_py(self, name):
        def f(l, *a):
            if not has_sym(l) and not has_sym(list(a)) and not any(self.i.in_package(type(x)) for x in l):
                return NotImplemented
            if any(isinstance(x, Seg) for x in l):
                raise Unsupported(f'list.{name} on symbolic list')
            if any(isinstance(x, (float, SymFloat)) for x in list(l) + list(a)):
                raise Unsupported(f'list.{name} of floats')       # a NaN is itself
            from . import pylib
            return self.i.call(getattr(pylib, name), (l,) + a)
        return f

    def m_sum(self, it, start=0):
        tot = start
        for p in self.i.loops.parts(it):
            if isinstance(p, Seg):
                if isinstance(p, OpaqueSeg):
                    raise Unsupported('sum of opaque list')
                r = None
                for c, x in p.cases[::-1]:
                    if not isinstance(x, (int, SymInt)):
                        raise Unsupported('sum of non-int')
                    if r is None:
                        r = x
                    else:
                        lo, hi = min(ivl(x)[0], ivl(r)[0]), max(ivl(x)[1], ivl(r)[1])
                        r = mk_int(z3.If(c, to_bv(x), to_bv(r)), lo, hi)
                tot = tot + self.e.sum_upto(r, p.k, p.n)
            else:
                tot = self.i.binop(ast.Add(), tot, p)
        return tot

    def m_enumerate(self, it, start=0):
        if not isinstance(it, Gen):
            return Plan('enumerate', (it, start))

        def run(emit):
            from .loops import _CompFrame
            n = _CompFrame().fr
            n.locals['x'] = start

            def f(v):
                i = n.locals['x']
                if isinstance(i, Poison):
                    raise Unsupported('position in a generator')
                self.i._setlocal(n, 'x', i + 1)
                emit((i, v))
            self.i.loops.each(it, None, f)
        return Gen(self.i, run)

    def m_map(self, f, *its):
        it = its[0] if len(its) == 1 else self.table[zip](*its)
        return Gen(self.i, lambda emit: self.i.loops.each(it, None, lambda v: emit(
            self.i.call(f, (v,) if len(its) == 1 else tuple(v)))))

    def m_anyall(self, it, isany):
        if isinstance(it, Gen):
            def f(v):
                return BREAK if self.i.truth(v) == isany else None
            return isany if self.i.loops.each(it, None, f) is not None else not isany
        for p in self.i.loops.parts(it):
            if isinstance(p, Seg):
                if self.some(p, isany):
                    return isany
                continue
            if self.i.truth(p) == isany:
                return isany
        return not isany

    def some(self, seg, want):
        """whether some number of a list segment is nonzero (want) or zero (not want)"""
        if isinstance(seg, OpaqueSeg) or len(seg.cases) != 1 or not isinstance(seg.cases[0][1], SymInt) or \
                not z3.is_true(z3.simplify(seg.cases[0][0])) or self.e.kdepth:
            raise Unsupported('any/all of symbolic list')
        n, t = to_bv(seg.n), seg.cases[0][1].t != 0
        t = t if want else z3.Not(t)
        j = self.e.fresh('j', z3.BitVecSort(W))
        if self.e.choose():
            self.e.assume(z3.And(j >= 0, j < n, z3.substitute(t, (seg.k, j))))
            return True
        self.e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(z3.substitute(t, (seg.k, j))))))
        return False

    def m_reversed(self, it):
        if has_sym([it]) or isinstance(it, (Plan,)):
            return Plan('reversed', (it,))
        try:
            return list(reversed(it))
        except Exception as ex:
            raise raised(ex)

    def m_filter(self, f, it):
        def g(v, emit):
            if self.i.truth(v if f is None else self.i.call(f, (v,))):
                emit(v)
        return Gen(self.i, lambda emit: self.i.loops.each(it, None, lambda v: g(v, emit)))

    def m_divmod(self, a, b):
        return (self.i.binop(ast.FloorDiv(), a, b), self.i.binop(ast.Mod(), a, b))

    def m_round(self, v, n=None):
        try:
            if is_sym(v):
                return v.__round__(n)
            return round(v) if n is None else round(v, n)
        except Exception as ex:
            raise raised(ex)

    def m_getattr(self, o, n, *d):
        try:
            return self.i.getattr(o, n)
        except PyExc as e:
            if d and isinstance(e.exc, AttributeError):
                return d[0]
            raise

    def m_hasattr(self, o, n):
        try:
            self.i.getattr(o, n)
            return True
        except PyExc as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    def m_ceil(self, v):
        if is_sym(v):
            return v.__ceil__()
        try:
            return math.ceil(v)
        except Exception as ex:
            raise raised(ex)

    def m_floor(self, v):
        if is_sym(v):
            return v.__floor__()
        try:
            return math.floor(v)
        except Exception as ex:
            raise raised(ex)

    def m_copy(self, o):
        if isinstance(o, list):
            return self.m_list(o)
        if is_sym(o) or isinstance(o, (int, float, str, bytes, type(None))):
            return o
        if has_attrs(o):
            c = object.__new__(type(o))
            attrs(c).update(attrs(o))
            return self.e.born(c)
        raise Unsupported('copy')

    def m_deepcopy(self, o, memo=None):
        if isinstance(o, list):
            return self.e.born([self.m_deepcopy(x) if not isinstance(x, Seg) else x for x in o])
        if is_sym(o) or isinstance(o, (int, float, str, bytes, type(None))):
            return o
        if type(o).__module__ == 'numpy':
            return self.e.born(o.copy())
        if has_attrs(o) and self.i.in_package(type(o)):
            c = self.e.born(object.__new__(type(o)))
            d = attrs(c)
            for k, v in attrs(o).items():
                d[k] = self.m_deepcopy(v)
            return c
        raise Unsupported('deepcopy')

    def m_bytesio(self, data=b''):
        if isinstance(data, SymBytes):
            return self.e.born(InBuf(data.chunks))
        import io
        if isinstance(data, bytes) and len(data) == 0:
            return self.e.born(OutBuf())
        try:
            return io.BytesIO(data)
        except Exception as ex:
            raise raised(ex)

    def m_open(self, path, mode='r', buffering=-1, *a, **k):
        if not isinstance(path, str) or path not in self.files:
            raise Unsupported(f'open {path!r}')
        if mode not in ('rb', 'br') or a or k:
            raise Unsupported(f'open mode {mode}')
        return self.e.born(InBuf(self.files[path]))

    def m_sizeof(self, x):
        if isinstance(x, CStruct):
            x = x.cls
        return ctypes.sizeof(x)

    def m_from_bytes(self, b, byteorder='big', *, signed=False):
        if isinstance(b, (list, tuple, Gen, Plan, SymRange)):
            b = self.m_bytes(b)
        cs = bytes_chunks(b)
        if not all(is_byte(c) for c in cs):
            raise Unsupported('int.from_bytes of variable-length bytes')
        if byteorder not in ('big', 'little'):
            raise PyExc(ValueError("byteorder must be either 'little' or 'big'"))
        if byteorder == 'little':
            cs = cs[::-1]
        if all(isinstance(c, int) for c in cs):
            return int.from_bytes(bytes(cs), 'big', signed=signed)
        return self.unpack_int(cs, signed)

    # ---------------------------------------------------------------- struct --
    def unpack_int(self, cs, signed):
        """cs: big-endian bytes"""
        n = 8 * len(cs)
        t = z3.Concat(*[byte_term(c) for c in cs]) if len(cs) > 1 else byte_term(cs[0])
        if signed:
            return mk_int(z3.SignExt(W - n, t), -(1 << (n - 1)), (1 << (n - 1)) - 1)
        return mk_int(z3.ZeroExt(W - n, t), 0, (1 << n) - 1)

    def pack_int(self, v, size, signed, c):
        if isinstance(v, SymBool):
            v = v.as_int()
        if isinstance(v, Poison):
            raise Unsupported('pack of poisoned value')
        if not isinstance(v, (int, SymInt)):
            d = getattr(type(v), '__index__', None)
            if isinstance(d, types.FunctionType) and self.i.in_package(d):
                v = self.i.call(d, (v,))
            elif d is not None and not is_sym(v):
                v = v.__index__()
            else:
                raise PyExc(struct.error('required argument is not an integer'))
        n = 8 * size
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        vlo, vhi = ivl(v)
        if vlo < lo or vhi > hi:
            self.e.maybe_raise(z3.Or(to_bv(v) < z3.BitVecVal(lo, W), to_bv(v) > z3.BitVecVal(hi, W)),
                               struct.error(f"'{c}' format requires {lo} <= number <= {hi}"))
        t = to_bv(v)
        return [norm_byte(z3.Extract(8 * j + 7, 8 * j, t)) for j in range(size - 1, -1, -1)]

    def pack_float(self, v, size):
        if isinstance(v, (SymInt, SymBool)):
            # int -> float conversion: abstracted by an uninterpreted function
            t = to_bv(v if isinstance(v, SymInt) else v.as_int())
            f = z3.Function(f'int_to_f{8 * size}', z3.BitVecSort(W), z3.BitVecSort(8 * size))
            bits = f(t)
        elif isinstance(v, SymFloat):
            if v.width == 8 * size:
                bits = v.bits
            elif size == 8:
                bits = z3.fpToIEEEBV(v.fp())
            else:
                r = z3.fpFPToFP(z3.RNE(), v.fp(), sym.F32)
                self.e.maybe_raise(z3.And(z3.fpIsInf(r), z3.Not(z3.fpIsInf(v.fp()))),
                                   OverflowError('float too large to pack with f format'))
                bits = z3.fpToIEEEBV(r)
        elif is_sym(v):
            if isinstance(v, SymReal):
                raise Unsupported('pack of real')
            raise PyExc(struct.error('required argument is not a float'))
        else:
            try:
                return list(struct.pack('>f' if size == 4 else '>d', v))
            except Exception as ex:
                raise raised(ex)
        return [norm_byte(z3.Extract(8 * j + 7, 8 * j, bits)) for j in range(size - 1, -1, -1)]

    def m_pack(self, fmt, *args):
        big, items = parse_fmt(fmt)
        need = [c for c, n in items if c != 'x']
        if len(need) != len(args):
            raise PyExc(struct.error(f'pack expected {len(need)} items for packing (got {len(args)})'))
        out, ai = [], 0
        for c, n in items:
            if c == 'x':
                out.append(0)
                continue
            v = args[ai]
            ai += 1
            if isinstance(v, Poison):
                raise Unsupported('pack of poisoned value')
            if c in FMT:
                b = self.pack_int(v, *FMT[c], c)
            elif c in 'fd':
                b = self.pack_float(v, 4 if c == 'f' else 8)
            elif c == '?':
                if isinstance(v, SymBool):
                    b = [norm_byte(z3.If(v.t, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]
                elif isinstance(v, SymInt):
                    b = [norm_byte(z3.If(v.t != 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]
                else:
                    b = [1 if self.i.truth(v) else 0]
            elif c == 'c':
                cs = bytes_chunks(v)
                if len(cs) != 1 or not is_byte(cs[0]):
                    raise PyExc(struct.error('char format requires a bytes object of length 1'))
                b = cs
            elif c == 's':
                cs = bytes_chunks(v)
                if not all(is_byte(x) for x in cs):
                    raise Unsupported("struct 's' of variable-length bytes")
                b = (cs + [0] * n)[:n]
            out.extend(b if big or c in 'sc?' else b[::-1])
        return mk_bytes(out)

    def m_unpack(self, fmt, b):
        big, items = parse_fmt(fmt)
        size = sum(isz(c, n) for c, n in items)
        if isinstance(b, Poison):
            raise Unsupported('unpack of poisoned value')
        cs = bytes_chunks(b)
        if not all(is_byte(c) for c in cs):
            ln = self.chunks_len(cs)
            err = struct.error(f'unpack requires a buffer of {size} bytes')
            if isinstance(ln, int):
                if ln != size:
                    raise PyExc(err)
            else:
                self.e.maybe_raise(to_bv(ln) != size, err)
            cs = self.flatten_fixed(cs, size)
        if len(cs) != size:
            raise PyExc(struct.error(f'unpack requires a buffer of {size} bytes'))
        return self._unpack(big, items, cs)

    def m_unpack_from(self, fmt, b, offset=0):
        size = struct.calcsize(fmt)
        cs = bytes_chunks(b)
        if not all(is_byte(c) for c in cs) or not isinstance(offset, int):
            raise Unsupported('unpack_from')
        if len(cs) < offset + size:
            raise PyExc(struct.error('unpack_from requires a buffer of at least ...'))
        return self.m_unpack(fmt, mk_bytes(cs[offset:offset + size]))

    def _unpack(self, big, items, cs):
        out, p = [], 0
        for c, n in items:
            k = isz(c, n)
            b = cs[p:p + k]
            p += k
            if c == 'x':
                continue
            bb = b if big else b[::-1]
            conc = all(isinstance(x, int) for x in b)
            if c in FMT:
                out.append(int.from_bytes(bytes(bb), 'big', signed=FMT[c][1]) if conc
                           else self.unpack_int(bb, FMT[c][1]))
            elif c in 'fd':
                if conc:
                    out.append(struct.unpack('>' + c, bytes(bb))[0])
                else:
                    out.append(SymFloat(z3.simplify(z3.Concat(*[byte_term(x) for x in bb]))))
            elif c == '?':
                out.append(bool(b[0]) if conc else mk_bool(b[0] != 0))
            else:
                out.append(mk_bytes(b))
        return tuple(out)

    def flatten_fixed(self, cs, size):
        """chunks whose total length is known to be `size` -> list of bytes"""
        out = []
        for c in cs:
            if is_byte(c):
                out.append(c)
            elif isinstance(c, Blob):
                rem = size - len(out)
                if not self.e.implied(to_bv(c.len) == rem):
                    raise Unsupported('blob length')
                for j in range(rem):
                    out.append(norm_byte(c.byte(z3.BitVecVal(j, W))))
            else:
                raise Unsupported('flatten')
        return out

    # ---------------------------------------------------------------- ctypes --
    def ctypes_layout(self, cls):
        base = None
        tot = 0
        out = []
        for f in cls._fields_:
            ct = f[1]
            bits = f[2] if len(f) > 2 else 8 * ctypes.sizeof(ct)
            if base is None:
                base = ct
            elif ctypes.sizeof(ct) != ctypes.sizeof(base):
                raise Unsupported('mixed ctypes bit-field bases')
            if getattr(ct, '_type_', None) not in ('B', 'H', 'I', 'L') or ctypes.sizeof(ct) > 4:
                raise Unsupported(f'ctypes field type {ct}')
            out.append((f[0], bits))
            tot += bits
        if tot > 8 * ctypes.sizeof(base) or ctypes.sizeof(cls) != ctypes.sizeof(base):
            raise Unsupported('multi-unit ctypes structure')
        return out, 8 * ctypes.sizeof(base)

    def ctypes_shifts(self, cls):
        """[(name, bits, shift)], total bits, byte order"""
        lay, tot = self.ctypes_layout(cls)
        big = issubclass(cls, ctypes.BigEndianStructure) if sys.byteorder == 'little' else \
            not issubclass(cls, ctypes.LittleEndianStructure)
        out, used = [], 0
        for n, b in lay:
            out.append((n, b, tot - used - b if big else used))
            used += b
        return out, tot, big

    def ctypes_new(self, cls, args, kwargs):
        init = cls.__init__
        lay, _ = self.ctypes_layout(cls)
        o = CStruct(cls, {n: 0 for n, _ in lay})
        self.e.born(o)
        if isinstance(init, types.FunctionType) and self.i.in_package(init):
            self.i.call(init, (o,) + tuple(args), kwargs)
            return o
        return self.ctypes_init(o, args, kwargs)

    def ctypes_init(self, o, args, kwargs):
        lay, _ = self.ctypes_layout(o.cls)
        if len(args) > len(lay):
            raise PyExc(TypeError('too many initializers'))
        for (n, _), v in zip(lay, args):
            self.ctypes_setattr(o, n, v)
        for n, v in kwargs.items():
            self.ctypes_setattr(o, n, v)
        return o

    def ctypes_setattr(self, o, name, v, raw=False):
        lay, _ = self.ctypes_layout(o.cls)
        sa = o.cls.__setattr__
        if not raw and isinstance(sa, types.FunctionType) and self.i.in_package(sa):
            self.i.call(sa, (o, name, v))
            return
        d = dict(lay)
        if name not in d:
            if any(name in k.__dict__ for k in o.cls.__mro__ if hasattr(k.__dict__.get(name), '__set__')):
                raise Unsupported('descriptor on ctypes structure')
            if v is not None and not isinstance(v, (int, float, str, bytes, SymInt, SymBool, SymFloat, SymBytes, SymStr)):
                raise Unsupported(f'{type(v).__name__} attribute on ctypes structure')
            had, old = name in o.vals, o.vals.get(name)
            self.e.log('attr', o, name, lambda: o.vals.__setitem__(name, old) if had else o.vals.pop(name, None))
            o.vals[name] = v
            return
        if isinstance(v, SymBool):
            v = v.as_int()
        if isinstance(v, bool):
            v = int(v)
        if not isinstance(v, (int, SymInt)):
            if is_sym(v) or not hasattr(v, '__index__'):
                raise PyExc(TypeError(f'int expected instead of {type(v).__name__} instance'))
            v = int(v)
        mask = (1 << d[name]) - 1
        lo, hi = ivl(v)
        nv = v if 0 <= lo and hi <= mask else (v & mask)
        old = o.vals[name]
        self.e.log('attr', o, name, lambda: o.vals.__setitem__(name, old))
        o.vals[name] = nv

    def ctypes_getattr(self, o, name, after=None):
        if after is None and name in o.vals:
            return o.vals[name]
        mro = o.cls.__mro__
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        from .interp import BoundModel
        for k in mro:
            if k.__module__ == '_ctypes' and name == '__init__':
                return BoundModel(lambda *a, **kw: self.ctypes_init(o, a, kw) and None)
            if name in k.__dict__:
                d = k.__dict__[name]
                if isinstance(d, staticmethod):
                    return d.__func__
                if isinstance(d, classmethod):
                    return types.MethodType(d.__func__, o.cls)
                if isinstance(d, types.FunctionType):
                    return types.MethodType(d, o)
                if isinstance(d, property):
                    return self.i.call(d.fget, (o,))
                if name == '__setattr__':
                    return BoundModel(lambda n, v: self.ctypes_setattr(o, n, v, True))
                raise Unsupported(f'ctypes attribute {name}')
        raise PyExc(AttributeError(name))

    def ctypes_pack(self, o):
        lay, tot, big = self.ctypes_shifts(o.cls)
        acc = 0
        for n, b, sh in lay:
            acc = acc | (o.vals[n] << sh)
        if isinstance(acc, int):
            return list(acc.to_bytes(tot // 8, 'big' if big else 'little'))
        bs = [norm_byte(z3.Extract(8 * j + 7, 8 * j, acc.t)) for j in range(tot // 8 - 1, -1, -1)]
        return bs if big else bs[::-1]

    def ctypes_from_buffer(self, cls, b, off=0):
        lay, tot, big = self.ctypes_shifts(cls)
        cs = bytes_chunks(b)
        n = tot // 8
        if not all(is_byte(c) for c in cs):
            ln = self.chunks_len(cs)
            self.e.maybe_raise(to_bv(ln) < n if not isinstance(ln, int) else ln < n,
                               ValueError('Buffer size too small'))
            cs = self.flatten_fixed(cs, n)
        if off != 0 or len(cs) < n:
            raise PyExc(ValueError('Buffer size too small'))
        cs = cs[:n] if big else cs[:n][::-1]
        v = self.unpack_int(cs, False)
        o = CStruct(cls, {})
        self.e.born(o)
        for name, bits, sh in lay:
            o.vals[name] = (v >> sh) & ((1 << bits) - 1)
        return o

    # --------------------------------------------------------------- streams --
    def kvar(self, depth=None):
        d = self.e.kdepth if depth is None else depth
        return z3.BitVec(f'k@{d}', W)

    def out_write(self, buf, b):
        cs = bytes_chunks(b)
        old = list(buf.chunks)

        def undo():
            buf.chunks = old
        self.e.log('out', buf, None, undo)
        buf.chunks = buf.chunks + cs
        return self.chunks_len(cs) if all(is_byte(c) for c in cs) else None

    def log_in(self, buf):
        oc, op = buf.chunks, buf.past

        def undo():
            buf.chunks, buf.past = oc, op
        self.e.log('in', buf, None, undo)

    def kargs(self):
        """the enclosing symbolic-loop counters (fresh data may differ per iteration)"""
        return [z3.BitVec(f'k@{d}', W) for d in range(self.e.kdepth)]

    def fresh_byte(self, name):
        ks = self.kargs()
        if not ks:
            return z3.BitVec(name, 8)
        return z3.Function(name, *[z3.BitVecSort(W)] * len(ks), z3.BitVecSort(8))(*ks)

    def fresh_bytes(self, name):
        from .views import KBase
        ks = self.kargs()
        f = z3.Function(name, *[z3.BitVecSort(W)] * (len(ks) + 1), z3.BitVecSort(8))
        return KBase(f, ks) if ks else f

    def take(self, buf, chunk_list, rest):
        self.log_in(buf)
        buf.past = buf.past + chunk_list
        buf.chunks = rest

    def skip_empty(self, buf):
        """leading repetitions of which there certainly are none"""
        while buf.chunks and isinstance(buf.chunks[0], (Seg, Blob)):
            c = buf.chunks[0]
            n = c.n if isinstance(c, Seg) else c.len
            if ivl(n)[0] > 0 or not self.e.implied(to_bv(n) == 0):
                return
            self.take(buf, [c], buf.chunks[1:])

    def in_read(self, buf, n=-1):
        if n is None:
            n = -1
        if isinstance(n, SymBool):
            n = n.as_int()
        if not isinstance(n, (int, SymInt)):
            raise PyExc(TypeError(f"argument should be integer or None, not '{type(n).__name__}'"))
        lo, hi = ivl(n)
        if lo < 0 and (hi < 0 or self.e.decide(to_bv(n) < 0)):
            return self.in_read_all(buf)
        if isinstance(n, SymInt) and n.lo < 0:
            n = mk_int(n.t, 0, n.hi)
        got = []
        while True:
            if isinstance(n, int) and n == 0:
                break
            if not buf.chunks:
                break
            c = buf.chunks[0]
            if isinstance(c, Wall):
                raise Unsupported(f'read beyond window: {c.why}')
            if isinstance(c, Rec):
                self.log_in(buf)
                buf.chunks = self.i.expand_rec(c) + buf.chunks[1:]
                continue
            if is_byte(c):
                if isinstance(n, int):
                    m = 0
                    while m < n and m < len(buf.chunks) and is_byte(buf.chunks[m]):
                        m += 1
                    got += buf.chunks[:m]
                    self.take(buf, buf.chunks[:m], buf.chunks[m:])
                    n -= m
                    continue
                if n.lo <= 0 and self.e.decide(to_bv(n) <= 0):
                    break
                got.append(c)
                self.take(buf, [c], buf.chunks[1:])
                n = n - 1
                if isinstance(n, SymInt) and n.lo < 0:
                    n = mk_int(n.t, 0, n.hi)
                continue
            if isinstance(c, Rest):
                short = self.e.choose() is False
                kname = self.e.fresh_name('rd')
                if isinstance(n, int) and n <= 4096:
                    if not short:
                        bs = [self.fresh_byte(f'{kname}_{j}') for j in range(n)]
                        got += bs
                        self.take(buf, bs, buf.chunks)
                        n = 0
                        break
                f = self.fresh_bytes(kname)
                if short:
                    m = self.e.fresh('short', z3.BitVecSort(W))
                    self.e.assume(z3.And(m >= 0, m < to_bv(n)))
                    ml = mk_int(m, 0, max(ivl(n)[1] - 1, 0))
                    bl = Blob(f, 0, ml)
                    got.append(bl)
                    self.take(buf, [bl], [])
                    n = 0
                else:
                    bl = Blob(f, 0, n)
                    got.append(bl)
                    self.take(buf, [bl], buf.chunks)
                    n = 0
                break
            # variable-length chunk
            ln = self.chunk_len(c)
            if isinstance(n, int) and n > 0:
                self.skip_empty(buf)
                if not buf.chunks or buf.chunks[0] is not c:
                    continue
            if self._eq(ln, n):
                got.append(c)
                self.take(buf, [c], buf.chunks[1:])
                n = 0
                break
            nl, nh = ivl(n)
            if nl <= 0 and self.e.implied(to_bv(n) <= 0):
                break
            if self._le(ln, n):
                got.append(c)
                self.take(buf, [c], buf.chunks[1:])
                n = n - ln
                if isinstance(n, SymInt) and n.lo < 0:
                    n = mk_int(n.t, 0, n.hi)
                continue
            if isinstance(c, Seg) and len(c.cases) == 1 and len(c.cases[0][1]) == 1 and \
                    is_byte(c.cases[0][1][0]):
                c = self.seg_as_blob(c)
                buf_new = [c] + buf.chunks[1:]
                self.log_in(buf)
                buf.chunks = buf_new
            if isinstance(c, Blob):
                if self.e.decide(to_bv(ln) <= to_bv(n)):
                    got.append(c)
                    self.take(buf, [c], buf.chunks[1:])
                    n = n - ln
                    if isinstance(n, SymInt) and n.lo < 0:
                        n = mk_int(n.t, 0, n.hi)
                    continue
                if isinstance(n, int) and n <= 64:
                    h = [norm_byte(c.byte(z3.BitVecVal(j, W))) for j in range(n)]
                else:
                    h = [Blob(c.base, c.off, n)]
                rl = c.len - n
                if isinstance(rl, SymInt) and rl.lo < 0:
                    rl = mk_int(rl.t, 0, rl.hi)
                got += h
                self.take(buf, h, [Blob(c.base, c.off + n, rl)] + buf.chunks[1:])
                n = 0
                break
            if isinstance(c, Seg):
                # peel the first element if there certainly is one
                if self.e.decide(to_bv(c.n) > 0):
                    first = self.seg_at(c, z3.BitVecVal(0, W))
                    tail = self.seg_tail(c)
                    self.log_in(buf)
                    buf.chunks = first + [tail] + buf.chunks[1:]
                else:
                    self.log_in(buf)
                    buf.chunks = buf.chunks[1:]
                continue
            raise Unsupported(f'read({n}) at {c!r}')
        return mk_bytes(got)

    def seg_as_blob(self, c):
        body = c.cases[0][1][0]
        name = self.e.fresh_name('segblob')
        f = z3.Function(name, z3.BitVecSort(W), z3.BitVecSort(8))
        self.e.add(z3.ForAll([c.k], z3.Implies(z3.And(c.k >= 0, c.k < to_bv(c.n)), f(c.k) == byte_term(body))))
        return Blob(f, 0, c.n)

    def subst_chunks(self, cs, k, v):
        from .views import subst_chunk
        return [subst_chunk(c, k, v) for c in cs]

    def seg_at(self, c, idx):
        if len(c.cases) == 1:
            return self.subst_chunks(c.cases[0][1], c.k, idx)
        for cond, p in c.cases[:-1]:
            if self.e.decide(z3.substitute(cond, (c.k, idx))):
                return self.subst_chunks(p, c.k, idx)
        return self.subst_chunks(c.cases[-1][1], c.k, idx)

    def seg_tail(self, c):
        one = z3.BitVecVal(1, W)
        n = c.n - 1
        if isinstance(n, SymInt) and n.lo < 0:
            n = mk_int(n.t, 0, n.hi)
        cases = [(z3.substitute(cond, (c.k, c.k + one)), self.subst_chunks(p, c.k, c.k + one))
                 for cond, p in c.cases]
        return Seg(n, c.k, cases)

    def _eq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        (al, ah), (bl, bh) = ivl(a), ivl(b)
        if ah < bl or bh < al:
            return False
        return self.e.implied(to_bv(a) == to_bv(b))

    def _le(self, a, b):
        (al, ah), (bl, bh) = ivl(a), ivl(b)
        if ah <= bl:
            return True
        if al > bh:
            return False
        return self.e.implied(to_bv(a) <= to_bv(b))

    def in_read_all(self, buf):
        if any(isinstance(c, Wall) for c in buf.chunks):
            raise Unsupported('read-all across a window')
        got, rest = [], []
        for c in buf.chunks:
            if isinstance(c, Rest):
                f = z3.Function(self.e.fresh_name('all'), z3.BitVecSort(W), z3.BitVecSort(8))
                m = self.e.fresh('alln', z3.BitVecSort(W))
                self.e.assume(z3.And(m >= 0, m < (1 << 32)))
                got.append(Blob(f, 0, mk_int(m, 0, (1 << 32) - 1)))
            elif isinstance(c, Rec):
                got.extend(self.i.expand_rec(c))
            else:
                got.append(c)
        self.e.flags['read_all'] = True
        self.take(buf, got, [])
        return mk_bytes(got)

    def in_seek(self, buf, off, whence=0):
        if not isinstance(off, int) or whence not in (0, 1):
            raise Unsupported('seek')
        if whence == 0:
            self.log_in(buf)
            buf.chunks = buf.past + buf.chunks
            buf.past = []
        elif off < 0:
            k = -off
            if not all(is_byte(c) for c in buf.past[-k:]) or len(buf.past) < k:
                raise Unsupported('seek back')
            self.log_in(buf)
            buf.chunks = buf.past[-k:] + buf.chunks
            buf.past = buf.past[:-k]
            return self.in_tell(buf)
        if off > 0:
            # seeking past the end is legal: later reads are empty
            n = off
            while n > 0 and buf.chunks:
                c = buf.chunks[0]
                if is_byte(c):
                    self.take(buf, [c], buf.chunks[1:])
                    n -= 1
                elif isinstance(c, Rest):
                    self.in_read(buf, n)
                    n = 0
                elif isinstance(c, Rec):
                    self.log_in(buf)
                    buf.chunks = self.i.expand_rec(c) + buf.chunks[1:]
                else:
                    raise Unsupported('seek over variable-length data')
        return off

    def in_tell(self, buf):
        return self.chunks_len(buf.past)

    def sym_getattr(self, o, name):
        from .interp import BoundModel
        if isinstance(o, SymArray):
            return self.arr_getattr(o, name)
        if isinstance(o, InBuf):
            f = {'read': self.in_read, 'seek': self.in_seek, 'tell': self.in_tell, 'close': lambda b: None,
                 'getvalue': lambda b: mk_bytes(b.past + b.chunks), 'readable': lambda b: True,
                 'seekable': lambda b: True, '__enter__': lambda b: b,
                 '__exit__': lambda b, *a: None}.get(name)
            if f is None:
                raise Unsupported(f'stream method {name}')
            return BoundModel(lambda *a, **k: f(o, *a, **k))
        if isinstance(o, OutBuf):
            f = {'write': self.out_write, 'tell': lambda b: self.chunks_len(b.chunks),
                 'getvalue': lambda b: mk_bytes(b.chunks), 'flush': lambda b: None}.get(name)
            if f is None:
                raise Unsupported(f'stream method {name}')
            return BoundModel(lambda *a, **k: f(o, *a, **k))
        if isinstance(o, SymInt):
            if name == 'to_bytes':
                return BoundModel(lambda *a, **k: self.int_to_bytes(o, *a, **k))
            if name == 'bit_length':
                return BoundModel(o.bit_length)
            if name in ('real', 'numerator'):
                return o
            if hasattr(int, name):
                raise Unsupported(f'int.{name} on symbolic int')
            raise PyExc(AttributeError(f"'int' object has no attribute '{name}'"))
        if isinstance(o, SymBool):
            return self.sym_getattr(o.as_int(), name)
        if isinstance(o, SymBytes):
            if name == 'ljust':
                return BoundModel(lambda *a: self.b_ljust(o, *a))
            if name == 'join':
                return BoundModel(lambda *a: self.b_join(o, *a))
            if name == 'decode':
                return BoundModel(lambda *a, **k: self.b_decode(o, *a, **k))
            if name in ('rstrip', 'lstrip', 'strip'):
                return BoundModel(lambda *a: mk_bytes(self.strip(name, self.fixed_bytes(o), bytes_chunks(
                    a[0]) if a and a[0] is not None else list(b' \t\n\r\x0b\x0c'), 8)))
            if name in self.SEQ:
                return self.seq_bound(o, name)
            if hasattr(bytes, name):
                raise Unsupported(f'bytes.{name} on symbolic bytes')
            raise PyExc(AttributeError(f"'bytes' object has no attribute '{name}'"))
        if isinstance(o, SymStr):
            if hasattr(str, name):
                if name == 'encode':
                    return BoundModel(lambda *a, **k: self.str_encode(o, *a, **k))
                if name in ('rstrip', 'lstrip', 'strip'):
                    return BoundModel(lambda *a: mk_str(self.strip(name, o.cps, [ord(c) for c in (
                        a[0] if a and a[0] is not None else ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0')], W)))
                if name == 'ljust':
                    return BoundModel(lambda w, f=' ': mk_str(o.cps + [ord(f)] * max(0, w - len(o.cps))))
                if name == 'isascii':
                    return BoundModel(lambda: all(self.e.decide(to_bv(c) < 128) for c in o.cps))
                if name in self.SEQ:
                    return self.seq_bound(o, name)
                raise Unsupported(f'str.{name} on symbolic str')
            raise PyExc(AttributeError(f"'str' object has no attribute '{name}'"))
        if isinstance(o, SymFloat):
            if hasattr(float, name):
                raise Unsupported(f'float.{name}')
            raise PyExc(AttributeError(f"'float' object has no attribute '{name}'"))
        raise Unsupported('attribute of symbolic value')

    # text and octet strings of fixed length: methods that compare units branch on the comparison
    SEQ = ('find', 'index', 'startswith', 'endswith', 'replace', 'split', 'partition', 'rpartition', 'count', 'join',
           'removeprefix', 'removesuffix', 'rjust', 'ljust', 'center', 'translate', 'upper', 'lower', 'zfill', 'rfind')

    def seq_method(self, o, name, args, kwargs):
        text = isinstance(o, (str, SymStr))
        if kwargs or name not in self.SEQ:
            return NotImplemented

        def units(v):
            if isinstance(v, SymStr) and text:
                return v.cps
            if isinstance(v, str) and text:
                return [ord(c) for c in v]
            if isinstance(v, (bytes, bytearray)) and not text:
                return list(v)
            if isinstance(v, (SymBytes, SymArray)) and not text:
                return self.fixed_bytes(SymBytes(v.chunks))
            if isinstance(v, SYM + (type(None), int, float, str, bytes)):
                raise PyExc(TypeError('a str or bytes object is required'))
            raise Unsupported(f'{name} with {type(v).__name__}')
        mk = mk_str if text else mk_bytes

        def eq(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return self.e.decide(to_bv(a) == to_bv(b) if text else byte_term(a) == byte_term(b))

        def at(xs, i, pat):
            return i + len(pat) <= len(xs) and i >= 0 and all(eq(xs[i + j], y) for j, y in enumerate(pat))
        if name == 'join':
            if len(args) != 1:
                return NotImplemented
            if not text:
                return self.b_join(o, args[0])
            out = []
            for j, p in enumerate(self.i.loops.parts(args[0])):
                if isinstance(p, Seg):
                    raise Unsupported('join of symbolic list')
                out += (units(o) if j else []) + units(p)
            return mk(out)
        xs = units(o)
        if name in ('ljust', 'rjust', 'center', 'zfill'):
            if not args or not isinstance(args[0], int):
                return NotImplemented
            f = units(args[1]) if len(args) > 1 else [32]
            d = max(0, args[0] - len(xs))
            if name == 'ljust' and text:
                return mk(xs + f * d)
            return mk(f * d + xs) if name == 'rjust' else NotImplemented
        if name in ('upper', 'lower'):
            lo, hi, off = (97, 122, -32) if name == 'upper' else (65, 90, 32)
            out = []
            for x in xs:
                if isinstance(x, int):
                    if text and x > 127:
                        return NotImplemented
                    out.append(x + off if lo <= x <= hi else x)
                elif text:
                    if ivl(x)[1] > 127:
                        return NotImplemented
                    out.append(mk_int(z3.If(z3.And(to_bv(x) >= lo, to_bv(x) <= hi), to_bv(x) + off, to_bv(x)), 0, 127))
                else:
                    t = byte_term(x)
                    out.append(norm_byte(z3.If(z3.And(z3.UGE(t, lo), z3.ULE(t, hi)), t + off, t)))
            return mk(out)
        if name == 'translate':
            if text or not args or args[0] is not None or len(args) != 2:
                return NotImplemented
            dele = units(args[1])
            return mk([x for x in xs if not any(eq(x, d) for d in dele)])
        if not args:
            return NotImplemented
        if name in ('startswith', 'endswith'):
            if len(args) != 1:
                return NotImplemented
            pats = [units(a) for a in (args[0] if isinstance(args[0], tuple) else (args[0],))]
            return any(at(xs, 0 if name == 'startswith' else len(xs) - len(p), p) for p in pats)
        if name in ('find', 'index', 'rfind', 'count') and not text and isinstance(args[0], (int, SymInt)):
            pat = [int_to_byte(args[0])]
        else:
            if args[0] is None:
                return NotImplemented
            pat = units(args[0])
        if name == 'removeprefix':
            return mk(xs[len(pat):] if at(xs, 0, pat) else xs)
        if name == 'removesuffix':
            return mk(xs[:len(xs) - len(pat)] if at(xs, len(xs) - len(pat), pat) else xs)
        if not pat:
            return NotImplemented
        if name in ('find', 'index', 'rfind'):
            if len(args) > 1 and not all(isinstance(a, int) for a in args[1:]):
                return NotImplemented
            lo, hi, _ = slice(*(args[1:] if len(args) == 3 else (args[1], None) if len(args) == 2 else (None,))).indices(len(xs))
            r = range(lo, hi - len(pat) + 1)
            for i in (r if name != 'rfind' else r[::-1]):
                if at(xs, i, pat):
                    return i
            if name == 'index':
                raise PyExc(ValueError('substring not found'))
            return -1
        if name == 'count':
            if len(args) != 1:
                return NotImplemented
        left = -1
        if name in ('replace', 'split') and len(args) == (3 if name == 'replace' else 2):
            left = args[-1]
            if not isinstance(left, int):
                return NotImplemented
        elif len(args) != (2 if name == 'replace' else 1):
            return NotImplemented
        if name == 'partition':
            left = 1
        parts, cur, i = [], [], 0
        if name == 'rpartition':
            for i in range(len(xs) - len(pat), -1, -1):
                if at(xs, i, pat):
                    return (mk(xs[:i]), mk(pat), mk(xs[i + len(pat):]))
            return (mk([]), mk([]), mk(xs))
        while i < len(xs):
            if left != 0 and at(xs, i, pat):
                parts.append(cur)
                cur = []
                i += len(pat)
                left -= 1
            else:
                cur.append(xs[i])
                i += 1
        parts.append(cur)
        if name == 'count':
            return len(parts) - 1
        if name == 'partition':
            return (mk(parts[0]), mk(pat), mk(parts[1])) if len(parts) > 1 else (mk(parts[0]), mk([]), mk([]))
        if name == 'split':
            return self.e.born([mk(p) for p in parts])
        new = units(args[1])
        out = list(parts[0])
        for p in parts[1:]:
            out += new + p
        return mk(out)

    def seq_bound(self, o, name):
        from .interp import BoundModel

        def call(*a, **k):
            r = self.seq_method(o, name, a, k)
            if r is NotImplemented:
                raise Unsupported(f'{name} on a symbolic string')
            return r
        return BoundModel(call)

    def fixed_bytes(self, b):
        if not b.fixed():
            raise Unsupported('variable-length bytes')
        return b.chunks

    def strip(self, how, xs, chars, w):
        xs = list(xs)

        def member(x):
            if isinstance(x, int):
                return x in chars
            t = x if z3.is_expr(x) else to_bv(x)
            return self.e.decide(z3.Or([t == c for c in chars]))
        if how != 'lstrip':
            while xs and member(xs[-1]):
                xs.pop()
        if how != 'rstrip':
            while xs and member(xs[0]):
                xs.pop(0)
        return xs

    def b_decode(self, b, enc='utf-8', errors='strict'):
        e = str(enc).lower().replace('_', '-')
        if errors != 'strict' or e not in ('utf-8', 'utf8', 'ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1'):
            raise Unsupported('decode')
        out = []
        for c in self.fixed_bytes(b):
            if not isinstance(c, int) or c > 127:
                if 'ascii' in e:
                    self.e.maybe_raise(z3.UGE(byte_term(c), 128), UnicodeDecodeError('ascii', b'x', 0, 1, 'ordinal'))
                elif e[0] == 'u' and not self.e.decide(z3.ULT(byte_term(c), 128)):
                    raise Unsupported('decoding of non-ASCII octets')
            out.append(byte_to_int(c))
        from .sym import mk_str as _ms
        return _ms(out)

    def str_encode(self, s, enc='utf-8', errors='strict'):
        if str(enc).lower() in ('utf-8', 'utf8') and errors == 'strict':
            out = []
            for c in s.cps:
                if ivl(c)[1] >= 128 and not self.e.decide(to_bv(c) < 128):
                    raise Unsupported('encoding of non-ASCII characters')
                out.append(int_to_byte(c))
            return mk_bytes(out)
        lim = {'ascii': 128, 'latin-1': 256, 'latin1': 256, 'iso-8859-1': 256}.get(str(enc).lower())
        if lim is None or errors != 'strict':
            raise Unsupported('encode')
        out = []
        for c in s.cps:
            lo, hi = ivl(c)
            if hi >= lim:
                self.e.maybe_raise(to_bv(c) >= lim, UnicodeEncodeError(enc, 'x', 0, 1, 'ordinal not in range'))
            out.append(int_to_byte(c))
        return mk_bytes(out)

    def int_to_bytes(self, v, length=1, byteorder='big', *, signed=False):
        if not isinstance(length, int) or 8 * length > W - 2:
            raise Unsupported('to_bytes length')
        n = 8 * length
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        vlo, vhi = ivl(v)
        if vlo < lo or vhi > hi:
            self.e.maybe_raise(z3.Or(to_bv(v) < z3.BitVecVal(lo, W), to_bv(v) > z3.BitVecVal(hi, W)),
                               OverflowError('int too big to convert'))
        b = [norm_byte(z3.Extract(8 * j + 7, 8 * j, to_bv(v))) for j in range(length - 1, -1, -1)]
        return mk_bytes(b if byteorder == 'big' else b[::-1])

    def b_join(self, sep, it):
        out, first = [], True
        for p in self.i.loops.parts(it):
            if isinstance(p, Seg):
                if isinstance(p, OpaqueSeg) or bytes_chunks(sep):
                    raise Unsupported('join of symbolic list')
                out.append(Seg(p.n, p.k, [(c, bytes_chunks(x)) for c, x in p.cases]))
            else:
                if not first:
                    out += bytes_chunks(sep)
                out += bytes_chunks(p)
            first = False
        return mk_bytes(out)

    def b_ljust(self, b, width, fill=b' '):
        cs = bytes_chunks(b)
        fb = bytes_chunks(fill)
        n = self.chunks_len(cs)
        d = width - n
        if isinstance(d, int):
            return mk_bytes(cs + fb * max(0, d))
        if d.lo < 0:
            if not self.e.decide(to_bv(d) > 0):
                return mk_bytes(cs)
            d = mk_int(to_bv(d), 1, d.hi)
        return mk_bytes(cs + [Seg(d, self.kvar(), [(z3.BoolVal(True), fb)])])

    # ----------------------------------------------------------------- lists --
    def l_append(self, l, x):
        self.i.snapshot(l)
        l.append(x)

    def l_extend(self, l, it):
        parts = list(self.i.loops.parts(it))
        self.i.snapshot(l)
        list.extend(l, parts)

    def l_copy(self, l):
        return self.e.born(list(l))

    def builtin_subclass(self, cls, args, kwargs):
        return NotImplemented

    # ------------------------------------------------------------- operators --
    def binop(self, op, a, b):
        if type(a).__module__ == 'numpy' or type(b).__module__ == 'numpy':
            return NotImplemented
        if isinstance(a, SymArray) or isinstance(b, SymArray):
            x, y = (mk_bytes(v.chunks) if isinstance(v, SymArray) else v for v in (a, b))
            r = self.i.binop(op, x, y)
            return self.e.born(SymArray(bytes_chunks(r))) if isinstance(a, SymArray) or isinstance(
                op, ast.Mult) else r
        if isinstance(a, (SymBytes, bytes)) and isinstance(b, (SymBytes, bytes)) and isinstance(op, ast.Add):
            if isinstance(a, SymBytes) or isinstance(b, SymBytes):
                return mk_bytes(bytes_chunks(a) + bytes_chunks(b))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, SymInt) and isinstance(x, (bytes, list, SymBytes)):
                    if isinstance(x, bytes) and len(x) == 1:
                        n = y
                        if n.lo < 0:
                            if self.e.decide(to_bv(n) <= 0):
                                return b''
                            n = mk_int(n.t, 1, n.hi)
                        self.work(n)
                        return mk_bytes([Seg(n, self.kvar(), [(z3.BoolVal(True), [x[0]])])])
                    if type(x) is list and len(x) == 1 and (x[0] is None or type(x[0]) in (int, bool, float, str)):
                        if y.lo < 0 and self.e.decide(to_bv(y) <= 0):
                            return self.e.born([])
                        n = mk_int(y.t, max(y.lo, 0), y.hi)
                        self.work(n)
                        return self.e.born([Seg(n, self.kvar(), [(z3.BoolVal(True), x[0])])])
                    raise Unsupported('symbolic repetition')
                if isinstance(x, SymBytes) and isinstance(y, int):
                    return mk_bytes(list(x.chunks) * max(0, y))
                if isinstance(x, SymStr) and isinstance(y, int):
                    return mk_str(list(x.cps) * max(0, y))
        if type(a) is list and type(b) is list and isinstance(op, ast.Add):
            return self.e.born(a + b)
        if type(a) is list and isinstance(b, int) and isinstance(op, ast.Mult):
            if any(isinstance(x, Seg) for x in a):
                raise Unsupported('list repetition')
            return self.e.born(a * b)
        if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)) and isinstance(op, ast.Add) and (
                isinstance(a, SymStr) or isinstance(b, SymStr)):
            f = lambda s: s.cps if isinstance(s, SymStr) else [ord(c) for c in s]
            return SymStr(f(a) + f(b))
        if isinstance(op, ast.Mod) and isinstance(a, str):
            if has_sym([b]) or self.i.in_package(type(b)):
                return SymText('a formatted value')
        return NotImplemented

    def ordered(self, op, x, y):
        """order of two sequences of equal kind: their first difference, or their lengths"""
        strict = type(op) in (ast.Lt, ast.Gt)
        for p, q in zip(x, y):
            if not self.i.truth(self.i.compare(ast.Eq(), p, q)):
                return self.i.compare(ast.Lt() if type(op) in (ast.Lt, ast.LtE) else ast.Gt(), p, q)
        a, b = (len(x), len(y)) if type(op) in (ast.Lt, ast.LtE) else (len(y), len(x))
        return a < b or not strict and a == b

    def compare(self, op, a, b):
        if isinstance(a, SymArray) or isinstance(b, SymArray):
            a, b = (mk_bytes(v.chunks) if isinstance(v, SymArray) else v for v in (a, b))
            return self.i.compare(op, a, b)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and has_sym([a, b]):
            if isinstance(a, (SymBytes, bytes)) and isinstance(b, (SymBytes, bytes)):
                f = lambda s: [byte_to_int(c) if not isinstance(c, int) else c
                               for c in (self.fixed_bytes(s) if isinstance(s, SymBytes) else s)]
                return self.ordered(op, f(a), f(b))
            if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)):
                f = lambda s: s.cps if isinstance(s, SymStr) else [ord(c) for c in s]
                return self.ordered(op, f(a), f(b))
            if type(a) in (list, tuple) and type(a) is type(b):
                if any(isinstance(x, Seg) for x in list(a) + list(b)):
                    raise Unsupported('order of symbolic lists')
                return self.ordered(op, a, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            if isinstance(a, (SymBytes, bytes)) and isinstance(b, (SymBytes, bytes)) and (
                    isinstance(a, SymBytes) or isinstance(b, SymBytes)):
                ca, cb = bytes_chunks(a), bytes_chunks(b)
                if all(is_byte(c) for c in ca) and all(is_byte(c) for c in cb):
                    if len(ca) != len(cb):
                        return neg
                    r = mk_bool(z3.And([byte_term(x) == byte_term(y) for x, y in zip(ca, cb)] or [z3.BoolVal(True)]))
                else:
                    (la, lb) = self.chunks_len(ca), self.chunks_len(cb)
                    if isinstance(lb, int) and lb == 0 or isinstance(la, int) and la == 0:
                        r = mk_bool(to_bv(la) == to_bv(lb))
                    else:
                        raise Unsupported('comparison of variable-length bytes')
                if neg:
                    return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.t))
                return r
            if isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str)) and (
                    isinstance(a, SymStr) or isinstance(b, SymStr)):
                f = lambda s: s.cps if isinstance(s, SymStr) else [ord(c) for c in s]
                x, y = f(a), f(b)
                if len(x) != len(y):
                    return neg
                r = mk_bool(z3.And([to_bv(p) == to_bv(q) for p, q in zip(x, y)] or [z3.BoolVal(True)]))
                if neg:
                    return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.t))
                return r
            if type(a) in (list, tuple) and type(a) is type(b) and has_sym([a, b]):
                if any(isinstance(x, Seg) for x in list(a) + list(b)):
                    la, lb = self.length(a), self.length(b)
                    if (isinstance(lb, int) and lb == 0) or (isinstance(la, int) and la == 0):
                        r = mk_bool(to_bv(la) == to_bv(lb))
                        if neg:
                            return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.t))
                        return r
                    raise Unsupported('comparison of symbolic lists')
                if len(a) != len(b):
                    return neg
                for x, y in zip(a, b):
                    if x is not y and not self.i.truth(self.i.compare(ast.Eq(), x, y)):
                        return neg
                return not neg
        return NotImplemented

    def contains(self, c, x):
        if isinstance(c, SymArray):
            c = mk_bytes(c.chunks)
        it = getattr(type(c), '__iter__', None)
        if isinstance(c, (Gen, ListIter)) or isinstance(it, types.FunctionType) and self.i.in_package(it) and \
                not hasattr(type(c), '__contains__'):
            return self.m_anyall(Gen(self.i, lambda emit: self.i.loops.each(c, None, lambda v: emit(
                self.i.compare(ast.Eq(), x, v)))), True)
        if isinstance(c, (dict, set, frozenset)) or isinstance(c, (type({}.keys()), type({}.values()))):
            if not has_sym([x]):
                try:
                    return x in c
                except Exception as ex:
                    raise raised(ex)
            items = list(c)
        elif isinstance(c, (list, tuple)):
            items = list(c)
            if any(isinstance(i, Seg) for i in items):
                raise Unsupported('membership in symbolic list')
        elif isinstance(c, range):
            if isinstance(x, SymInt) and c.step == 1:
                return mk_bool(z3.And(x.t >= c.start, x.t < c.stop))
            if not has_sym([x]):
                return x in c
            raise Unsupported('membership in range')
        elif isinstance(c, (SymBytes, SymStr)):
            r = self.seq_method(c, 'find', (x,), {}) if isinstance(x, (str, SymStr, bytes, SymBytes)) else NotImplemented
            if r is NotImplemented:
                raise Unsupported('membership in symbolic sequence')
            return self.i.truth(self.i.compare(ast.GtE(), r, 0))
        elif isinstance(c, SymRange):
            raise Unsupported('membership in symbolic sequence')
        else:
            from .interp import SymSet
            if isinstance(c, SymSet):
                items = c.items
            else:
                d = getattr(type(c), '__contains__', None)
                if isinstance(d, types.FunctionType) and self.i.in_package(d):
                    return self.i.truth(self.i.call(d, (c, x)))
                try:
                    return x in c
                except Exception as ex:
                    raise raised(ex)
        if not has_sym([x]) and not has_sym(items) and not any(self.i.in_package(type(i)) for i in items):
            try:
                return x in items
            except Exception as ex:
                raise raised(ex)
        if isinstance(x, SymInt):
            ts = []
            for i in items:
                r = x == i if isinstance(i, (int, SymInt)) else False
                ts.append(to_z3bool(r))
            return mk_bool(z3.Or(ts)) if ts else False
        for i in items:
            if i is x or self.i.truth(self.i.compare(ast.Eq(), x, i)):
                return True
        return False

    def dict_lookup(self, d, k):
        """-> value or None marker when absent (forks over the keys)"""
        for kk in list(d):
            if self.keylike(kk, k) and self.i.truth(self.i.compare(ast.Eq(), k, kk)):
                return (d[kk],)
        return None

    def keylike(self, a, k):
        """a concrete key can equal the symbolic one"""
        if isinstance(k, (SymInt, SymBool)):
            return isinstance(a, int)
        if isinstance(k, SymStr):
            return isinstance(a, str)
        if isinstance(k, SymBytes):
            return isinstance(a, bytes)
        if type(k) is tuple:
            return type(a) is tuple and len(a) == len(k) and all(
                self.keylike(x, y) if has_sym([y]) else True for x, y in zip(a, k))
        raise Unsupported('dict lookup with symbolic key')

    def dict_get(self, d, k, default=None):
        if not has_sym([k]):
            return NotImplemented
        r = self.dict_lookup(d, k)
        return default if r is None else r[0]

    def getitem(self, o, i):
        if isinstance(o, dict) and has_sym([i]):
            r = self.dict_lookup(o, i)
            if r is None:
                raise PyExc(KeyError('<sym>'))
            return r[0]
        if isinstance(i, SymBool):
            i = i.as_int()
        if type(o) in (list, tuple) and (any(isinstance(x, Seg) for x in o) or has_sym([i])):
            return self.seq_getitem(o, i)
        if isinstance(o, SymBytes):
            if isinstance(i, slice):
                return self.bytes_slice(o, i)
            if isinstance(i, int) and o.fixed():
                if not -len(o.chunks) <= i < len(o.chunks):
                    raise PyExc(IndexError('index out of range'))
                return byte_to_int(o.chunks[i])
            return self.seq_getitem(list(self.i.loops.parts(o)), i)
        if isinstance(o, SymArray):
            r = self.i.getitem(mk_bytes(o.chunks), i)
            return self.e.born(SymArray(bytes_chunks(r))) if isinstance(i, slice) else r
        if isinstance(i, slice) and has_sym([i.start, i.stop, i.step]) and isinstance(o, (
                SymStr, str, list, tuple, bytes, SymBytes)) and not (type(o) in (list, tuple) and any(
                    isinstance(x, Seg) for x in o)) and not (isinstance(o, SymBytes) and not o.fixed()):
            i = slice(*(self.enumerated(x, 64) for x in (i.start, i.stop, i.step)))
            return self.i.getitem(o, i)
        if isinstance(o, (str, SymStr)) and isinstance(i, SymInt):
            n = len(o if isinstance(o, str) else o.cps)
            self.e.maybe_raise(z3.Or(i.t < -n, i.t >= n), IndexError('string index out of range'))
            return self.i.getitem(o, self.enumerated(mk_int(i.t, max(-n, i.lo), min(n - 1, i.hi)), 64))
        if isinstance(o, SymStr):
            if isinstance(i, slice):
                return mk_str(o.cps[i])
            if isinstance(i, int):
                try:
                    return mk_str([o.cps[i]])
                except IndexError as ex:
                    raise raised(ex)
            raise Unsupported('symbolic str index')
        if isinstance(o, bytes) and isinstance(i, slice) and has_sym([i.start, i.stop, i.step]):
            return self.bytes_slice(SymBytes(list(o)), i)
        if isinstance(o, Plan):
            raise Unsupported('subscript of iterator')
        if type(o) is list and isinstance(i, slice):
            try:
                return self.e.born(o[i])
            except Exception as ex:
                raise raised(ex)
        return NotImplemented

    def enumerated(self, v, most):
        """the int v, by cases"""
        if isinstance(v, SymBool):
            v = v.as_int()
        if not isinstance(v, SymInt):
            return v
        if v.hi - v.lo > most:
            raise Unsupported('symbolic subscript of many values')
        for j in range(v.lo, v.hi):
            if self.e.decide(v.t == j):
                return j
        return v.hi

    def bytes_slice(self, o, s):
        if s.step is not None:
            if o.fixed() and not has_sym([s.start, s.stop, s.step]):
                return mk_bytes(o.chunks[s])
            raise Unsupported('bytes slice with step')
        st = 0 if s.start is None else s.start
        if isinstance(st, int) and (s.stop is None or isinstance(s.stop, int)) and o.fixed():
            return mk_bytes(o.chunks[st:s.stop])
        if not isinstance(st, int) or st < 0:
            raise Unsupported('bytes slice start')
        b = InBuf(o.chunks)
        mark = len(self.e.journal)
        self.in_read(b, st)
        if s.stop is None:
            return mk_bytes(b.chunks)
        stop = s.stop
        if isinstance(stop, int):
            if stop < 0:
                tot = self.chunks_len(o.chunks)
                stop = tot + stop
            n = stop - st
        else:
            n = stop - st
        if ivl(n)[0] < 0:
            if self.e.decide(to_bv(n) < 0):
                raise Unsupported('negative slice')
            n = mk_int(to_bv(n), 0, ivl(n)[1]) if isinstance(n, SymInt) else n
        return self.in_read(b, n)

    def seq_getitem(self, o, i):
        if isinstance(i, slice):
            if any(isinstance(x, SymInt) for x in (i.start, i.stop, i.step)):
                raise Unsupported('symbolic slice')
            if i == slice(None, None, None):
                return self.e.born(list(o)) if isinstance(o, list) else o
            raise Unsupported('slice of symbolic list')
        if not isinstance(i, (int, SymInt)):
            raise PyExc(TypeError('list indices must be integers'))
        n = self.length(o)
        if isinstance(i, int) and i < 0:
            i = n + i
        elif isinstance(i, SymInt) and i.lo < 0:
            if self.e.decide(i.t < 0):
                i = n + i
        self.e.maybe_raise(z3.Or(to_bv(i) < 0, to_bv(i) >= to_bv(n)), IndexError('list index out of range'))
        pos = 0
        for x in o:
            if isinstance(x, Seg):
                end = pos + x.n
                if self.e.decide(to_bv(i) < to_bv(end)):
                    from .views import materialize
                    idx = to_bv(i - pos)
                    return materialize(self.i, x, idx)
                pos = end
            else:
                if self.e.decide(to_bv(i) == to_bv(pos)):
                    return x
                pos = pos + 1
        raise PyExc(IndexError('list index out of range'))

    def setitem(self, o, i, v):
        if isinstance(o, list) and isinstance(i, slice) and i == slice(None, None, None):
            parts = list(self.i.loops.parts(v))
            self.i.snapshot(o)
            o[:] = parts
            return None
        if isinstance(o, SymArray):
            return self.arr_setitem(o, i, v)
        if type(o) is dict and has_sym([i]):
            for kk in list(o):
                if self.keylike(kk, i) and self.i.truth(self.i.compare(ast.Eq(), i, kk)):
                    self.i.snapshot(o)
                    o[kk] = v
                    return None
            raise Unsupported('symbolic key added to a dict')
        if isinstance(i, SymBool):
            i = i.as_int()
        if isinstance(o, list) and isinstance(i, SymInt) and not any(isinstance(x, Seg) for x in o):
            for j in range(-len(o), len(o)):
                if self.e.decide(i.t == j):
                    self.i.snapshot(o)
                    o[j] = v
                    return None
            raise PyExc(IndexError('list assignment index out of range'))
        return NotImplemented

    def arr_setitem(self, a, i, v):
        l = [byte_to_int(c) if not isinstance(c, int) else c for c in self.fixed_bytes(SymBytes(a.chunks))]
        if isinstance(i, slice):
            if has_sym([i.start, i.stop, i.step]):
                raise Unsupported('symbolic slice')
            v = list(self.i.loops.parts(v))
            if any(isinstance(x, Seg) for x in v):
                raise Unsupported('slice assignment of symbolic length')
            try:
                l[i] = v
            except Exception as ex:
                raise raised(ex)
        elif isinstance(i, int):
            if not -len(l) <= i < len(l):
                raise PyExc(IndexError('bytearray index out of range'))
            l[i] = v
        else:
            raise Unsupported('symbolic subscript store')
        self.arr_set(a, self.seq_to_chunks(l))
        return None

    def arr_delitem(self, a, i):
        l = list(self.fixed_bytes(SymBytes(a.chunks)))
        if has_sym([i]) or isinstance(i, slice) and has_sym([i.start, i.stop, i.step]):
            raise Unsupported('symbolic del')
        try:
            del l[i]
        except Exception as ex:
            raise raised(ex)
        self.arr_set(a, l)

    def np_setitem(self, o, i, v):
        try:
            o[i] = v
        except Exception as ex:
            raise raised(ex)


from .interp import BREAK, Gen     # noqa: E402  (interp imports this module)
