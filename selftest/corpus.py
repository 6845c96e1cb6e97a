"""Small functions over the features of Python that the code under contract, or a
rewriting of it, may use.  run.py compares the verifier's prediction with CPython."""
# ruff: noqa
import contextlib
import dataclasses
import enum
import functools
import io
import itertools
import math
import operator
import struct
from selftest.run import Int, Bool, Bytes, Blobb, Str, F, Ints

U8, S8, U16, S16, U32, S32 = Int(0, 255), Int(-128, 127), Int(0, 65535), Int(-32768, 32767), Int(0, 2**32 - 1), \
    Int(-2**31, 2**31 - 1)
U64 = Int(0, 2**63 - 1)
SM = Int(0, 6)


# ---- integers ----
def int_arith(a: S32, b: S16): return a + b, a - b, a * b, -a, +a, ~a, abs(a), a + 3 * b - 7
def int_div(a: S32, b: S16): return a // b, a % b
def int_divmod(a: S32, b: S8): return divmod(a, b)
def int_div_const(a: S32): return a // 8, a % 8, a // -8, a % -8, a // 7, a % 7, -a // 7, -a % 8, (a + 7) // 8 * 8
def int_bits(a: U16, b: U16): return a & b, a | b, a ^ b, ~a & 0xffff, a & ~b
def int_bits_neg(a: S16, b: S16): return a & b, a | b, a ^ b, ~a
def int_bits_mixed(a: S32, b: U8): return a & 0xff, a & b, a | 0x10, a ^ -1, b & -2, a & -8
def int_shift(a: U16, b: SM): return a << b, a >> b, 1 << b, 0xff00 >> b, a << 3, a >> 4
def int_shift_neg(a: S16, b: SM): return a << b, a >> b, -1 << b
def int_shift_err(a: U8, b: Int(-2, 3)): return a >> b
def int_pow(a: S8, b: SM): return a ** 2, 2 ** b, a ** 3
def int_cmp(a: S8, b: S8): return a < b, a <= b, a == b, a != b, a > b, a >= b
def int_chain(a: S8): return -3 < a <= 5, 0 <= a < 10 != 4
def int_bool(a: S8, b: S8): return a and b, a or b, not a, a and 3, 0 or a, bool(a)
def int_tern(a: S8, b: S8): return a if a > b else b if b else 7
def int_minmax(a: S8, b: S8): return min(a, b), max(a, b, 3), min([a, b, 0]), max((a, b)), min(a, b, key=abs), max([], default=a)
def int_methods(a: U16): return a.bit_length(), a.bit_count(), a.to_bytes(2, 'big'), a.to_bytes(2, 'little'), a.to_bytes(4)
def int_to_bytes_err(a: U16): return a.to_bytes(1, 'big')
def int_to_bytes_signed(a: S16): return a.to_bytes(2, 'big', signed=True), a.to_bytes(3, 'little', signed=True)
def int_to_bytes_neg(a: S8): return a.to_bytes(1, 'big')
def int_from_bytes(b: Bytes(3)): return int.from_bytes(b, 'big'), int.from_bytes(b, 'little'), int.from_bytes(b, 'big', signed=True)
def int_from_list(a: U8, b: U8): return int.from_bytes([a, b], 'big'), int.from_bytes(bytes([a, b])[::-1], 'big')
def int_conv(a: S16, b: Bool()): return int(a), int(b), bool(a), b + a, b * 3, b & True, b | (a > 0), b ^ True, int(a > 3)
def int_round(a: S16): return round(a), int(a), a.conjugate(), a.real, a.imag
def int_index(a: SM): return (10, 11, 12, 13, 14, 15, 16)[a], [5, 6, 7, 8, 9, 10, 11][-a], 'abcdefg'[a]
def int_index_err(a: Int(-3, 9)): return [1, 2, 3, 4][a]
def int_dict(a: U8): return {1: 'a', 7: 'b'}.get(a), {1: 2, 3: 4}.get(a, 9)
def int_dict_err(a: U8): return {1: 'a', 7: 'b', 0: 0}[a]
def int_in(a: U8): return a in (1, 2, 3), a in [5], a in {7, 8}, a in range(3, 10), a not in (1,), a in {4: 1}
def int_in_step(a: S8): return a in range(-4, 20, 3)
def int_isinst(a: U8, b: Bool()): return isinstance(a, int), isinstance(a, bool), isinstance(b, int), type(a) is int, type(b) is bool
def int_float_div(a: U16): return int(a / 8), math.ceil(a / 8), math.floor(a / 8), int((a + 7) / 8), a / 4 * 4 == a
def int_float_div2(a: S16): return math.ceil(a / 8) * 8, math.floor(a / 3), math.trunc(a / 5)
def int_aug(a: S16, b: U8):
    a += b
    a *= 2
    a -= 1
    a //= 3
    a %= 100
    a <<= 1
    a |= 1
    a ^= b
    a &= 0x7f
    return a
def int_tuple_cmp(a: S8, b: S8): return (a, b) < (b, a), (a, 1) == (b, 1), [a, b] == [b, a], (a, b) >= (0, 0)
def int_walrus(a: U8): return (n := a + 1) * n, n
def int_fmt_dict(a: Int(0, 3)): return f'x{["a", "b", "c", "d"][a]}'
def int_exc(a: U8):
    if a > 200:
        raise ValueError('too big')
    if a == 7:
        raise KeyError(a)
    return a
def int_assert(a: U8):
    assert a < 100, 'no'
    return a


# ---- control flow ----
def cf_if(a: S8):
    if a < 0:
        r = 'neg'
    elif a == 0:
        r = 'zero'
    else:
        r = 'pos'
    return r
def cf_while(a: SM):
    n = 0
    while a > 0:
        a -= 1
        n += a
        if n > 8:
            break
    else:
        n += 100
    return n
def cf_for_else(a: U8):
    for x in (3, 5, 250):
        if x == a:
            break
        if a == 9:
            continue
        a += 1
    else:
        return a, 'none'
    return a, x
def cf_nested(a: SM, b: SM):
    out = []
    for i in range(a):
        for j in range(b):
            if i == j:
                continue
            if i + j > 6:
                break
            out.append(i * 10 + j)
    return out
def cf_try(a: U8):
    try:
        if a > 100:
            raise ValueError(a)
        r = 10 // (a - 3)
    except ZeroDivisionError:
        r = -1
    except (ValueError, KeyError) as ex:
        r = -2
    else:
        r += 1000
    finally:
        a = 5
    return r, a
def cf_finally(a: U8):
    out = []
    try:
        out.append(1)
        if a > 10:
            return out
        out.append(2)
    finally:
        out.append(3)
    return out
def cf_finally_loop(a: SM):
    out = []
    for i in range(4):
        try:
            if i == a:
                continue
            if i + a == 5:
                break
            out.append(i)
        finally:
            out.append(-i)
    return out
def cf_reraise(a: U8):
    try:
        try:
            if a == 1:
                raise KeyError('x')
            if a == 2:
                raise IndexError('y')
        except LookupError:
            raise
        except Exception:
            return 0
    except KeyError:
        return 1
    return 2
def cf_raise_from(a: U8):
    try:
        {}[1]
    except KeyError as e:
        if a:
            raise ValueError('b') from e
        return str(type(e.args))
def cf_match(a: U8, b: Bool()):
    match (a, b):
        case (0, True):
            return 'z'
        case (1 | 2 | 3, _):
            return 'low'
        case (x, False) if x > 100:
            return x
        case [x, y]:
            return x, y
def cf_match_val(a: U8):
    match a:
        case 1: return 10
        case 2 | 3: return 20
        case n if n % 2: return n
        case _: return 'other'
def cf_closure(a: S8, b: S8):
    def add(x):
        nonlocal a
        a += x
        return a
    add(b)
    return add(1), a
def cf_lambda(a: S8): return (lambda x, y=a: x * y)(3), sorted([3, a, 1], key=lambda v: -v)
def cf_default(a: S8, b: S8):
    def f(x, y=2, *args, z=5, **kw):
        return x, y, args, z, kw
    return f(a), f(a, b), f(a, b, 1, 2), f(a, z=b), f(*(a, b), **{'q': a}), f(y=a, x=b)
def cf_unpack(a: S8, b: S8):
    x, (y, *z) = a, (b, 1, 2)
    p, *q, r = [a, b, x, y]
    x, y = y, x
    return x, y, z, p, q, r
def cf_recursion(a: SM):
    def f(n): return 1 if n <= 0 else n * f(n - 1)
    return f(a)
def cf_global(a: S8): return _helper(a) + _K
_K = 5
def _helper(x): return x * 2 if x > 0 else -x
def cf_del(a: S8):
    d = {'a': a, 'b': 2}
    l = [a, 2, 3]
    del d['b'], l[1]
    return d, l
def cf_shadow(a: S8):
    x = a
    y = [x for x in range(3)]
    return x, y
def cf_star(a: S8, b: S8): return [*[a, b], 3], (*(a,), b), {**{'k': a}, 'k': b, 'j': 1}, max(*[a, b])
def cf_condchain(a: U8, b: U8): return 1 if a > b > 3 else 2 if not a == b else 3
def cf_unbound(a: U8):
    if a > 5:
        x = 1
    return x
def cf_with(a: U8):
    out = []
    class M:
        def __enter__(self):
            out.append('in')
            return a
        def __exit__(self, t, v, tb):
            out.append(None if t is None else t.__name__)
            return t is KeyError
    with M() as m:
        out.append(m)
        if a == 1:
            raise KeyError('x')
        if a == 2:
            return 'ret', out
    return out
def cf_with_propagates(a: U8):
    with contextlib.suppress(KeyError):
        if a < 3:
            raise KeyError(1)
        if a == 9:
            raise IndexError(2)
        return 'ok'
    return 'suppressed'
@contextlib.contextmanager
def _cm(out, x):
    out.append('enter')
    try:
        yield x + 1
    except KeyError:
        out.append('key')
    finally:
        out.append('exit')
def cf_contextmanager(a: U8):
    out = []
    with _cm(out, a) as v:
        out.append(v)
        if a == 3:
            raise KeyError(3)
        if a == 4:
            raise IndexError(4)
    return out
def cf_cm_return(a: U8):
    out = []
    def f():
        with _cm(out, a) as v:
            if a > 3:
                return v
        return -1
    return f(), out


# ---- generators ----
def gen_order(a: SM):
    log = []
    def g():
        for i in range(3):
            log.append(('make', i))
            yield i + a
        log.append('end')
    for v in g():
        log.append(('use', v))
        if v == 4:
            break
    return log
def gen_expr_lazy(a: SM):
    log = []
    def f(x):
        log.append(x)
        return x
    g = (f(x) for x in (a, 1, 2))
    log.append('made')
    return any(v == 1 for v in g), log
def gen_first_eager(a: SM):
    log = []
    def f():
        log.append('iter')
        return [a]
    g = (x for x in f())
    log.append('after')
    return list(g), log, list(g)
def gen_from(a: SM):
    def g(n):
        yield n
        r = yield from h(n)
        yield r
    def h(n):
        yield n + 1
        return n + 2
    return list(g(a)), tuple(g(1)), sum(g(a))
def gen_next(a: SM):
    def g():
        yield a
    return next(g()), next((x for x in [] if x), 'none'), next(iter([a, 2]))
def gen_next_twice(a: SM):
    it = iter([a, 2, 3])
    return next(it), next(it), list(it)
def gen_zip(a: SM): return list(zip((i * a for i in range(3)), 'ab')), dict(zip('xy', (a, 1)))
def gen_enum(a: SM): return [(i, x) for i, x in enumerate(y + a for y in range(3))], list(enumerate('ab', a))
def gen_map(a: SM): return list(map(lambda x, y: x + y, (a, 1), (2, 3))), list(filter(None, [a, 0, 2])), list(map(int, (a, True)))
def gen_join(b: Bytes(3)): return b''.join(bytes([x]) for x in b), b''.join([b, b'ab']), b'-'.join((b[:1], b[1:]))
def gen_allany(b: Bytes(3)): return all(x > 0 for x in b), any(x == 1 for x in b), all(b), any(b)
def gen_sum(b: Bytes(4)): return sum(b), sum(x for x in b if x & 1), sum((x, 1)[x > 5] for x in b), sum([b[0], b[1]], 5)
def gen_nested(a: SM): return [i * j for i in range(a) for j in range(i)], {i: i + a for i in range(2)}, {a % 2, 0}
def gen_cond_effects(a: SM):
    out = []
    def g():
        for i in range(a):
            if i % 2:
                yield i
            else:
                out.append(i)
    return [x for x in g()], out
def gen_return_early(a: SM):
    out = []
    def g():
        for i in range(5):
            yield i
            out.append(i)
    def f():
        for v in g():
            if v == a:
                return v
        return 'no'
    return f(), out
def gen_islice(a: SM): return list(itertools.islice(range(10), a)), list(itertools.chain([a], (1, 2))), list(itertools.chain.from_iterable([[a], [3]]))
def gen_accum(a: SM): return list(itertools.accumulate([a, 1, 2])), list(itertools.repeat(a, 2)), list(itertools.product([a], [1, 2]))
def gen_reduce(b: Bytes(3)): return functools.reduce(lambda x, y: x << 8 | y, b, 0), functools.reduce(operator.xor, b)
def gen_partial(a: S8): return functools.partial(max, a)(3), operator.itemgetter(1)((1, a)), operator.add(a, 1)
def gen_sorted(a: S8, b: S8): return sorted([a, b, 0]), sorted((a, b), reverse=True), list(reversed([a, b]))


# ---- bytes and strings ----
def by_index(b: Bytes(4)): return b[0], b[-1], b[1:3], b[::-1], b[::2], b[:-1], len(b), list(b), tuple(b[:2])
def by_concat(b: Bytes(2), c: Bytes(1)): return b + c, c + b'x', b * 2, b'' + b, bytes(b), bytearray(b) + c, b + bytes(2)
def by_pad(b: Bytes(3)): return b.ljust(5, b'\0'), b.rjust(4, b'x'), b.zfill(5), b.center(5)
def by_ljust_short(b: Bytes(3)): return b.ljust(2), b[:2].ljust(3, b'\xff')
def by_strip(b: Bytes(3)): return b.rstrip(b'\0'), b.lstrip(b'\0'), b.strip(b'\0A')
def by_find(b: Bytes(3)): return b.find(b'\0'), b.find(1), b.count(b'\0'), b.startswith(b'\x01'), b.endswith(b'A'), 65 in b, b'\0' in b
def by_split(b: Bytes(3)): return b.split(b'\0', 1)[0], b.partition(b'\0')[0]
def by_eq(b: Bytes(2), c: Bytes(2)): return b == c, b != c, b == b'AA', b[:1] == c[:1], b == bytearray(c), b == 'x'
def by_cmp(b: Bytes(2), c: Bytes(2)): return b < c, b >= c
def by_hex(b: Bytes(2)): return b.hex(), bytes.fromhex('00ff') + b
def by_make(a: U8, n: SM): return bytes([a, 1]), bytes(n), bytearray([a]) , bytes((a,)) * n
def by_make_err(a: Int(250, 260)): return bytes([a])
def by_array(a: U8, b: Bytes(2)):
    x = bytearray()
    x.append(a)
    x += b
    x.extend([1, a])
    x[0] = 7
    x.insert(1, 9)
    y = bytes(x)
    x.pop()
    del x[0]
    return x, y, len(x)
def by_view(b: Bytes(4)): return bytes(memoryview(b)[1:3]), memoryview(b)[0], len(memoryview(b))
def by_struct(b: Bytes(8)): return struct.unpack('>HhB', b[:5]), struct.unpack('<I', b[4:]), struct.unpack_from('>h', b, 2), struct.unpack('>Q', b)
def by_struct_err(b: Bytes(3)): return struct.unpack('>I', b)
def by_pack(a: U16, c: S8): return struct.pack('>HbB', a, c, 3), struct.pack('<Hxb', a, c), struct.calcsize('>HbI')
def by_pack_err(a: Int(-5, 300)): return struct.pack('>B', a)
def by_pack_str(b: Bytes(3)): return struct.pack('>5s', b), struct.pack('2s', b), struct.pack('3s', b)
def by_pack_into(a: U16):
    x = bytearray(4)
    struct.pack_into('>H', x, 1, a)
    return x
def by_unpack_str(b: Bytes(5)): return struct.unpack('>2s3B', b), list(struct.iter_unpack('>B', b[:2]))
def by_struct_f(f: F(64)): return struct.pack('>d', f), struct.pack('<d', f)
def by_struct_f32(f: F(32)): return struct.pack('>f', f)
def by_unpack_f(b: Bytes(4)): return struct.unpack('>I', b)[0] >> 31, struct.unpack('>f', b)[0] == struct.unpack('>f', b)[0]
def by_decode(b: Bytes(2)): return b.decode('latin-1'), str(b, 'latin1')
def by_decode_ascii(b: Bytes(2)): return b.decode('ascii')
def by_decode_ign(b: Bytes(2)): return b.decode('ascii', 'ignore'), b.decode('ascii', 'replace')
def st_encode(s: Str(2, 300)): return s.encode('latin-1')
def st_encode_ascii(s: Str(2, 200)): return s.encode('ascii')
def st_encode_rep(s: Str(2, 200)): return s.encode('ascii', 'replace'), s.encode('ascii', errors='ignore')
def st_utf8(s: Str(2, 3000)): return s.encode('utf-8'), s.encode()
def st_basic(s: Str(3)): return s[0], s[-1], s[1:], len(s), s + 'x', s * 2, s[::-1], list(s)
def st_ord(s: Str(2, 300)): return ord(s[0]), [ord(c) for c in s], chr(ord(s[1]))
def st_cmp(s: Str(2), t: Str(2)): return s == t, s != t, s == 'AA', s < t, s[:1] == t[1:]
def st_test(s: Str(2)): return s.isascii(), s.startswith('A'), s.endswith(' '), 'a' in s, s.find('A'), bool(s)
def st_strip(s: Str(3)): return s.rstrip('\0'), s.strip(), s.ljust(5, '-'), s.rjust(4), s.lstrip('A')
def st_split(s: Str(3)): return s.split('\0')[0], s.partition('A')[2], s.replace('A', 'bb'), s.count('a')
def st_case(s: Str(2)): return s.upper(), s.lower(), s.isdigit()
def st_trans(s: Str(2)): return ''.join(c if c.isalnum() else '_' for c in s)
def st_join(s: Str(2)): return '-'.join(s), ''.join(reversed(s)), ','.join([s, 'x'])
def st_fmt(s: Str(2)): return f'<{s}>', '%s!' % s, '{}'.format(s), str(s)
def st_zip(s: Str(2), b: Bytes(2)): return [ord(c) ^ x for c, x in zip(s, b)]


# ---- octets of unknown number ----
def bl_len(b: Blobb(9)): return len(b), len(b) * 8, b == b'', bool(b), (len(b) + 3) // 4 * 4
def bl_copy(b: Blobb(9)): return bytes(b), b + b'x', b'a' + b, b[:], list(b), bytearray(b), tuple(b)
def bl_slice(b: Blobb(9), n: SM): return b[n:], b[:n]
def bl_slice2(b: Blobb(9)): return b[2:], b[:3], b[1:4], b[-2:], b[:-1]
def bl_index(b: Blobb(9), n: SM): return b[n]
def bl_loop(b: Blobb(9)):
    out = []
    for x in b:
        out.append(x + 1)
    return out
def bl_loop_if(b: Blobb(9)):
    out = bytearray()
    for x in b:
        if x > 100:
            out.append(x & 0x7f)
        else:
            out.append(x)
    return out
def bl_comp(b: Blobb(9)): return [x * 2 for x in b], bytes(x ^ 255 for x in b), bytes([x >> 1 for x in b])
def bl_sum(b: Blobb(9)): return sum(b), sum(x + 1 for x in b), sum(2 for _ in b)
def bl_count(b: Blobb(9)):
    n = 0
    for x in b:
        n += 3
    return n
def bl_enum(b: Blobb(9)):
    out = []
    for i, x in enumerate(b):
        out.append(i + x)
    return out
def bl_read(b: Blobb(9)):
    s = io.BytesIO(b)
    a = s.read(2)
    return a, s.read(), s.read(1)
def bl_read_exact(b: Blobb(9), n: SM):
    s = io.BytesIO(b)
    x = s.read(n)
    if len(x) < n:
        raise EOFError
    return x, s.tell()
def bl_write(b: Blobb(9)):
    s = io.BytesIO()
    s.write(b'ab')
    s.write(b)
    n = s.tell()
    s.write(b[:1])
    return s.getvalue(), n
def bl_mul(n: SM): return b'\0' * n, b'ab' * (n - 3), bytes(n) + b'x', [0] * n
def bl_pad(b: Blobb(9)): return b + b'\0' * (-len(b) % 8), b + bytes((8 - len(b) % 8) % 8)
def bl_eq(b: Blobb(3)): return b == b'abc', b[:2] == b'ab', b != b''
def bl_chunks(b: Blobb(9)):
    out = []
    i = 0
    while i < len(b):
        out.append(b[i])
        i += 1
    return out
def bl_range_len(b: Blobb(9)): return [b[i] for i in range(len(b))]


# ---- lists of unknown length ----
def li_copy(l: Ints(6)): return list(l), l[:], len(l), tuple(l), l + [1], [0] + l
def li_append(l: Ints(6), a: U8):
    l.append(a)
    return l, len(l)
def li_extend(l: Ints(6)):
    m = [1]
    m.extend(l)
    m += l
    return m
def li_loop(l: Ints(6)):
    n = 0
    for x in l:
        n += x
    return n, bool(l)
def li_loop_cond(l: Ints(6)):
    n = 0
    for x in l:
        if x > 100:
            n += 2
        else:
            n += 1
    return n
def li_map(l: Ints(6)): return [x + 1 for x in l], list(map(lambda x: x // 2, l)), [(x, 1) for x in l]
def li_write(l: Ints(6)):
    s = io.BytesIO()
    for x in l:
        s.write(bytes([x, x ^ 1]))
    return s.getvalue()
def li_pack(l: Ints(6)): return b''.join(struct.pack('>H', x) for x in l), struct.pack('>B', len(l))
def li_exc(l: Ints(6)):
    for x in l:
        if x == 1:
            raise ValueError
    return len(l)
def li_early(l: Ints(4)):
    for x in l:
        if x == 1:
            return 'found'
    return 'none'
def li_index(l: Ints(6), i: Int(-2, 7)): return l[i]
def li_slice(l: Ints(6)): return l[1:], l[:2], l[-1:]
def li_zip(l: Ints(6)): return [(a, b) for a, b in zip(l, l)], list(enumerate(l)), list(zip(range(3), l))
def li_enum(l: Ints(6)): return [i * 2 + x for i, x in enumerate(l, 1)]
def li_nested(l: Ints(4)): return [[x, x + 1] for x in l]
def li_sum(l: Ints(6)): return sum(l), sum(x * 2 for x in l), sum(1 for x in l), sum([x for x in l], 3)
def li_in(l: Ints(3), a: U8): return a in l
def li_minmax(l: Ints(3)): return max(l, default=0)
def li_rev(l: Ints(6)): return l[::-1], list(reversed(l))
def li_genfun(l: Ints(6)):
    def g():
        for x in l:
            yield x + 1
    return list(g()), sum(g())
def li_genfrom(l: Ints(6)):
    def g():
        yield 0
        yield from l
        yield from (x for x in l)
    return [x for x in g()]
def li_gen_effect(l: Ints(6)):
    out = []
    def g():
        for x in l:
            yield x
    for v in g():
        out.append(v)
        out2 = v
    return out
def li_two(l: Ints(6)):
    a, b = [], bytearray()
    n = 1
    for x in l:
        a.append(x)
        b.append(x)
        n += 2
    return a, b, n
def li_setattr(l: Ints(6)):
    class O:
        n = 0
    o = O()
    for x in l:
        o.n += 1
    return o.n
def li_last(l: Ints(6)):
    last = -1
    for x in l:
        last = x
    return last
def li_clear(l: Ints(6)):
    l.clear()
    return l
def li_pop(l: Ints(6)):
    x = l.pop()
    return x, l
def li_assign(l: Ints(6)):
    l[:] = [1, 2]
    return l
def li_while(l: Ints(4)):
    i = 0
    out = []
    while i < len(l):
        out.append(l[i] + i)
        i += 1
    return out
def li_range(n: SM):
    out = []
    for i in range(n):
        out.append(i * 2)
    return out, [i for i in range(n, 7)], list(range(0, n, 2)), list(range(n))[::-1]
def li_filter(l: Ints(4)): return [x for x in l if x > 3]
def li_lists(a: S8):
    l = [3, a, 1]
    l.sort()
    m = [a]
    m.insert(0, 1)
    m.extend((2, 3))
    m.remove(2)
    m.reverse()
    return l, m, m.index(3), m.count(a), l.pop(0), l, m.copy()
def li_alias(a: S8):
    l = [a]
    m = l
    m.append(2)
    k = l[:]
    k.append(3)
    l += [9]
    l = l + [7]
    return l, m, k, m is l
def li_mult(a: S8):
    l = [[a]] * 2
    l[0].append(1)
    return l
def li_defaults(a: S8):
    def f(x, acc=[]):
        acc.append(x)
        return list(acc)
    return f(a), f(1)


# ---- objects ----
class Base:
    size = 3
    table = {'x': 1}

    def __init__(self, a=0, items=None):
        self.a = a
        self.items = items or []
        self._p = None

    @property
    def p(self): return self._p if self._p is not None else self.a * 2

    @p.setter
    def p(self, v):
        if v < 0:
            raise ValueError('neg')
        self._p = v

    @classmethod
    def make(cls, a): return cls(a + 1)

    @staticmethod
    def twice(x): return x * 2

    def area(self): return self.a * self.size

    def __eq__(self, o): return isinstance(o, Base) and self.a == o.a

    def __len__(self): return len(self.items)

    def __getitem__(self, i): return self.items[i]

    def __iter__(self): return iter(self.items)

    def __add__(self, o): return Base(self.a + (o.a if isinstance(o, Base) else o))

    def __radd__(self, o): return Base(o + self.a)

    def __bool__(self): return self.a != 0

    def __contains__(self, x): return x == self.a

    def __call__(self, x): return self.a + x

    def __lt__(self, o): return self.a < o.a

    def __hash__(self): return 1

    def __getattr__(self, n):
        if n.startswith('dyn_'):
            return n[4:]
        raise AttributeError(n)
class Derived(Base):
    size = 5

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.extra = self.area()

    def area(self): return super().area() + 1
class Slots:
    __slots__ = ('x', 'y')

    def __init__(self, x):
        self.x = x
class Col(enum.IntEnum):
    R = 1
    G = 2
@dataclasses.dataclass
class DC:
    a: int
    b: int = 3
    c: list = dataclasses.field(default_factory=list)
    d: int = dataclasses.field(default=7, init=False)

    def __post_init__(self): self.b += 1
def ob_basic(a: S8):
    o, d = Base(a), Derived(a)
    return o.area(), d.area(), d.extra, o.size, d.size, Base.twice(a), Derived.make(a).a, type(Derived.make(1)).__name__
def ob_prop(a: S8):
    o = Base(a)
    x = o.p
    o.p = a
    return x, o.p
def ob_special(a: S8):
    o = Base(a, [1, a])
    return len(o), o[1], list(o), bool(o), a in o, 3 in o, o(5), o == Base(a), o == 3, o != Base(1), (o + 1).a, (o + o).a, (2 + o).a
def ob_lt(a: S8): return Base(a) < Base(3), sorted([Base(a), Base(2)], key=lambda o: o.a)[0].a
def ob_dyn(a: S8):
    o = Base(a)
    setattr(o, 'z', a + 1)
    return o.z, getattr(o, 'q', 5), hasattr(o, 'z'), hasattr(o, 'w'), o.dyn_abc, getattr(o, 'a')
def ob_dict(a: S8):
    o = Base(a)
    o.__dict__['k'] = a
    o.__dict__.update(m=2)
    vars(o)['n'] = 3
    return o.k, o.m, o.n, sorted(vars(o))
def ob_attr_err(a: U8): return Base(a).nope
def ob_del(a: U8):
    o = Base(a)
    del o.items
    return hasattr(o, 'items')
def ob_slots(a: U8):
    s = Slots(a)
    s.y = 2
    try:
        s.z = 1
    except AttributeError:
        return s.x + s.y
def ob_slots_unset(a: U8): return Slots(a).y
def ob_classattr(a: S8):
    class C:
        n = 1
        def inc(self): self.n += a
    c, d = C(), C()
    c.inc()
    return c.n, d.n, C.n
def ob_enum(a: Int(0, 3)):
    try:
        return Col(a).name
    except ValueError:
        return 'bad'
def ob_enum_cmp(a: Int(0, 3)): return a == Col.R, Col.G > a, a + Col.G, {Col.R: 'r', Col.G: 'g'}.get(a)
def ob_dc(a: S8):
    x, y = DC(a), DC(a, 3)
    x.c.append(1)
    return x.a, x.b, x.c, x.d, y.c, x == y, y == DC(a, b=3), DC(b=a, a=1).b
def ob_dc_err(a: S8): return DC()
def ob_type(a: S8):
    T = type('T', (Base,), {'size': a, 'more': lambda self: self.a + 1})
    return T(2).area(), T(3).more(), T.__name__, issubclass(T, Base)
def ob_bound(a: S8):
    f = Base(a).area
    g = Base.area
    return f(), g(Base(2)), g(Derived(a))
def ob_super(a: S8):
    class A:
        def f(self): return ['A']
    class B(A):
        def f(self): return ['B'] + super().f()
    class C(A):
        def f(self): return ['C'] + super().f()
    class D(B, C):
        def f(self): return [a] + super().f()
    return D().f(), [k.__name__ for k in D.__mro__]
def ob_init_sub(a: S8):
    reg = {}
    class P:
        def __init_subclass__(cls, kind=None, **k):
            super().__init_subclass__(**k)
            reg[kind] = cls
    class Q(P, kind=4):
        v = a
    return reg[4].v, reg[4] is Q
def ob_new(a: S8):
    class N:
        def __new__(cls, v):
            o = super().__new__(cls)
            o.w = v + 1
            return o
        def __init__(self, v): self.v = v
    n = N(a)
    return n.v, n.w
def ob_isinst(a: S8): return isinstance(Derived(a), Base), isinstance(a, (str, int)), issubclass(Derived, Base), callable(Base(1)), type(Base(a)) is Base
def ob_deco(a: S8):
    def twice(f):
        @functools.wraps(f)
        def w(*x): return f(*x) * 2
        return w
    @twice
    def g(x): return x + a
    return g(1), g.__name__
def ob_desc(a: S8):
    class D:
        def __set_name__(self, o, n): self.n = '_' + n
        def __get__(self, o, t=None): return self if o is None else getattr(o, self.n, 0)
        def __set__(self, o, v): setattr(o, self.n, v & 0xff)
    class C:
        x = D()
        y = D()
    c = C()
    c.x = a
    return c.x, c.y, c._x
def ob_iter(a: SM):
    class It:
        def __init__(self): self.n = 0
        def __iter__(self): return self
        def __next__(self):
            if self.n >= a:
                raise StopIteration
            self.n += 1
            return self.n
    return list(It())
def ob_geniter(a: SM):
    class C:
        def __iter__(self):
            for i in range(a):
                yield i * i
    return list(C()), sum(C()), [x for x in C()], a in C()
def ob_ctx_attr(a: U8):
    o = Base(1)
    o.a += a
    o.a, o.b = o.a + 1, 5
    o.items += [a]
    o.table['y'] = a
    r = dict(Base.table)
    del o.table['y']
    return o.a, o.b, o.items, r


# ---- dicts, sets, tuples ----
def di_basic(a: S8):
    d = {'a': a}
    d['b'] = 2
    d.update({'c': 3}, e=a)
    d.setdefault('a', 9)
    d.setdefault('z', a)
    x = d.pop('c')
    return d, x, len(d), list(d), list(d.values()), list(d.items()), 'a' in d, d.get('q', a), d.pop('q', None)
def di_comp(a: S8): return {k: v + a for k, v in {'x': 1, 'y': 2}.items()}, dict(a=a), dict([('k', a)]), {**{'a': 1}, 'a': a}
def di_tuple_key(a: Int(0, 3), b: Bool()): return {(1, True): 'x', (2, False): 'y'}.get((a, b), 'z')
def di_str_key(s: Str(1)): return {'A': 1, 'a': 2}.get(s)
def di_bytes_key(b: Bytes(1)): return {b'\0': 1, b'A': 2}.get(b), b in {b'\1': 1}
def di_symkey(a: Int(0, 3)):
    d = {0: 'zero', 1: 'one'}
    d[a] = 'set'
    return d
def di_fn(a: Int(0, 3)): return {0: lambda: 'n', 1: _helper}.get(a, lambda *x: x)(*([a] if a else []))
def se_basic(a: Int(0, 3)): return a in {1, 2}, {1, 2} | {3}, len({1, 1, 2}), frozenset([1]) == {1}
def tu_basic(a: S8): return (a, 1) + (2,), (a,) * 2, (1, a)[1], len((a, 1)), (a, 2).index(2), tuple([a])
def tu_named(a: S8):
    import collections
    P = collections.namedtuple('P', 'x y')
    p = P(a, 2)
    return p.x, p[1], p._replace(y=5).y, p == (a, 2)


# ---- floats ----
def fl_cmp(f: F(64), g: F(64)): return f == g, f < g, f <= g, f != g, f > g, f >= g, f == f
def fl_sign(f: F(64)): return -f, abs(f), +f, f != f, bool(f), f == 0, f < 1.5
def fl_is(f: F(64)): return math.isnan(f), math.isinf(f), math.isfinite(f)
def fl_tern(f: F(64)): return f if f > 0 else 0.0
def fl_pack(f: F(64)): return struct.pack('>d', -f), struct.pack('>d', f if f == f else 1.0)
def fl_from_int(a: S16): return struct.pack('>f', a), struct.pack('>d', a), float(a)
def fl_isinst(f: F(64)): return isinstance(f, float), isinstance(f, (int, float)), type(f) is float, f is None
def zz1(b: Bytes(4)): return sum(x for x in b if x & 1)
def zz2(b: Bytes(4)): return sum((x, 1)[x > 5] for x in b)
def zz3(b: Bytes(4)): return sum([b[0], b[1]], 5)
def it_break(l: Bytes(4), a: U8):
    it = iter(l)
    for x in it:
        if x == a:
            break
    return next(it, None)
def it_pairs(b: Bytes(4)):
    it = iter(b)
    return [x << 8 | y for x, y in zip(it, it)], list(zip(*[iter(b)] * 2)), next(it, 'end')
def it_zipleft(b: Bytes(3)):
    it = iter(b)
    r = [t for t in zip(it, (1, 2))]
    return r, next(it, 'none')
def it_group(a: U8): return list(itertools.takewhile(lambda x: x < a, [1, 5, 9])), list(itertools.dropwhile(lambda x: x < a, [1, 5, 9])), list(itertools.starmap(pow, [(a, 2)])), list(itertools.pairwise([a, 1, 2])), list(itertools.zip_longest([a], [1, 2])), list(itertools.compress([a, 2], [0, 1]))
def it_count(a: U8):
    out = []
    for i in itertools.count(a):
        if i > a + 2:
            break
        out.append(i)
    return out, list(itertools.islice(itertools.count(), 3)), list(zip(itertools.count(1), [a, a])), list(itertools.islice(itertools.cycle([a, 1]), 5)), list(zip(itertools.repeat(a), [1, 2]))
def it_operator(a: U8, b: U8): return operator.add(a, b), operator.itemgetter(0, 1)((a, b)), operator.attrgetter('a')(Base(a)), operator.lt(a, b), operator.methodcaller('get')(Base(a)) if hasattr(Base, 'get') else 0
def it_sortkey(a: U8): return sorted([('x', a), ('y', 3)], key=operator.itemgetter(1)), sorted([a, 7, 3], key=lambda v: v & 4, reverse=True), min([a, 3], key=lambda v: -v), max((), default=a), max(a, 3, key=abs)
def it_live(a: U8):
    l = [1, 2]
    it = iter(l)
    next(it)
    l.append(a)
    return list(it), next(it, 9)
def it_next_gen(a: U8): return next((x for x in (1, 5, 9) if x > a), None)
def it_anyall(b: Bytes(3), a: U8): return any(x == a for x in b), all(x < a for x in b), a in (x for x in b)
def wh_effect(b: Bytes(4)):
    s = io.BytesIO(b)
    n = 0
    while s.read(1) > b'\x80':
        n += 1
    return n, s.read()
def wh_walrus(b: Bytes(4)):
    it = iter(b)
    out = []
    while (x := next(it, 0)) & 1:
        out.append(x)
    return out, list(it)
def wh_pop(a: U8, b: U8):
    l = [a, b, 3]
    while l and l.pop() > 2:
        pass
    return l
def wh_else(a: U8):
    n = 0
    while a >> n:
        n += 1
        if n == 5: break
    else:
        return n, 'else'
    return n
def wh_digits(a: U8):
    out = []
    while a:
        a, r = divmod(a, 10)
        out.append(r)
    return out[::-1]
