"""C11: contracts of the stream primitives, written from their names: width,
signedness and format; big-endian; rejection of what does not fit; short reads."""
import z3
from .sym import (SymInt, SymBool, SymFloat, SymStr, Blob, InBuf, OutBuf, W, mk_int, mk_bool, mk_bytes, is_byte,
                  to_bv, norm_byte, byte_term, bytes_chunks, SymBytes)
from . import sym
from .funcs import FRun, BV8, BVW
from .codec import stream_classes, in_range

# name -> (octets, kind)
INT = {'byte': (1, True), 'unsigned_byte': (1, False), 'short': (2, True), 'unsigned_short': (2, False),
       'int': (4, True), 'unsigned_int': (4, False), 'long': (8, True),
       'int8': (1, True), 'int16': (2, True), 'int32': (4, True), 'int64': (8, True),
       'uint8': (1, False), 'uint16': (2, False), 'uint32': (4, False), 'uint64': (8, False)}
FLT = {'float': 4, 'double': 8, 'float32': 4, 'float64': 8}
CHR = {'char': 2, 'char8': 1}
OTHER = ['boolean', 'utf', 'bytes']
NAMES = list(INT) + list(FLT) + list(CHR) + OTHER
SIZE = {**{k: v[0] for k, v in INT.items()}, **FLT, **CHR, 'boolean': 1}
BIG = 80


def be(t, n):
    return [norm_byte(z3.Extract(8 * j + 7, 8 * j, t)) for j in range(n - 1, -1, -1)]


def sink(r):
    buf = r.e.born(OutBuf())
    buf.chunks = [r.octet('before')]
    return buf, r.I.instantiate(stream_classes()[1], (buf,), {})


def source(r, chunks):
    buf = r.e.born(InBuf(chunks))
    buf.past = [r.octet('before')]
    return buf, r.I.instantiate(stream_classes()[0], (buf,), {})


def call(r, st, name, *a):
    return r.I.call(r.I.getattr(st, name), a)


def bits_to_bytes(b):
    return be(b, b.size() // 8)


def sym_value(r, name):
    """(value, in-domain condition, octets)"""
    e = r.e
    if name in INT:
        n, s = INT[name]
        t = z3.SignExt(W - BIG, e.fresh('x', z3.BitVecSort(BIG)))
        x = mk_int(t, -(1 << (BIG - 1)), (1 << (BIG - 1)) - 1)
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if s else (0, (1 << (8 * n)) - 1)
        r.inputs['value'] = ('int', x)
        return x, in_range(x, lo, hi), be(t, n)
    if name in FLT:
        n = FLT[name]
        b = e.fresh('x', z3.BitVecSort(64))
        x = SymFloat(b)
        r.inputs['value'] = ('float', None)
        r.inputs['value'] = ('bits', b)
        if n == 8:
            return x, z3.BoolVal(True), bits_to_bytes(b)
        f64 = z3.fpBVToFP(b, z3.Float64())
        e.assume(z3.Not(z3.fpIsNaN(f64)))
        f32 = z3.fpFPToFP(z3.RNE(), f64, z3.Float32())
        ok = z3.Or(z3.Not(z3.fpIsInf(f32)), z3.fpIsInf(f64))
        return x, ok, bits_to_bytes(z3.fpToIEEEBV(f32))
    if name in CHR:
        n = CHR[name]
        t = z3.ZeroExt(W - 21, e.fresh('x', z3.BitVecSort(21)))
        e.assume(z3.ULE(t, 0x10ffff))
        x = mk_int(t, 0, 0x10ffff)
        r.inputs['value'] = ('str', SymStr([x]))
        return SymStr([x]), in_range(x, 0, (1 << (8 * n)) - 1), be(t, n)
    if name == 'boolean':
        t = e.fresh('x', z3.BoolSort())
        r.inputs['value'] = ('bool', t)
        return mk_bool(t), z3.BoolVal(True), [norm_byte(z3.If(t, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))]
    b = r.tail('value', 1 << 17)
    if name == 'utf':
        return mk_bytes([b]), z3.ULE(to_bv(b.len), 0xffff), be(to_bv(b.len), 2) + [b]
    return mk_bytes([b]), z3.BoolVal(True), [b]


def write(name, budget=60.0):
    r = FRun('write_' + name, 'writes', budget)
    e, S = r.e, r.S

    def fn():
        r.inputs['unit'] = ('const', 'write_' + name)
        buf, st = sink(r)
        before = list(buf.chunks)
        x, dom, octets = sym_value(r, name)
        try:
            call(r, st, 'write_' + name, x)
        except sym.PyExc as ex:
            return ex.exc, before, dom, octets, buf
        return None, before, dom, octets, buf

    def outcome(kind, val):
        if kind == 'exc':
            return r.fail('setup', repr(val))
        ex, before, dom, octets, buf = val
        r.completed += 1
        if ex is not None:
            return r.prove(z3.Not(dom), f'write_{name} accepts values that fit', repr(ex)[:200])
        if not r.prove(dom, f'write_{name} rejects values that do not fit'):
            return
        r.posts(lambda: S.chunks_eq(buf.chunks, before + octets, f'octets written by write_{name}'))
    r.explore(fn, outcome)
    return r.result()


def chunks_of(name, r):
    """(content, value-predicate: returned -> list of (cond, what))"""
    e = r.e
    n = SIZE[name]
    bs = [r.octet(f'b{j}') for j in range(n)]
    t = z3.Concat(*bs) if n > 1 else bs[0]
    return bs, t


def value_cond(name, t, got):
    """condition that `got` is the value of the octets t, or a message"""
    n = SIZE[name]
    if name in INT:
        s = INT[name][1]
        want = (z3.SignExt if s else z3.ZeroExt)(W - 8 * n, t)
        if isinstance(got, bool) or not isinstance(got, (int, SymInt)):
            return f'returned {type(got).__name__}'
        return to_bv(got) == want
    if name in FLT:
        if isinstance(got, float):
            import struct
            got = SymFloat(z3.BitVecVal(struct.unpack('>Q', struct.pack('>d', got))[0], 64))
        if not isinstance(got, SymFloat):
            return f'returned {type(got).__name__}'
        if got.width == 8 * n:
            return z3.Or(got.bits == t, z3.And(z3.fpIsNaN(got.fp()), z3.fpIsNaN(SymFloat(t).fp())))
        if got.width < 8 * n:
            return 'a narrower float is returned'
        w = SymFloat(t)
        x = z3.fpFPToFP(z3.RNE(), w.fp(), z3.Float64())
        return z3.Or(z3.And(z3.fpIsNaN(got.fp()), z3.fpIsNaN(w.fp())), z3.fpToIEEEBV(x) == got.bits)
    if name in CHR:
        if isinstance(got, str):
            got = SymStr([ord(c) for c in got])
        if not isinstance(got, SymStr) or len(got.cps) != 1:
            return f'returned {type(got).__name__}'
        return to_bv(got.cps[0]) == z3.ZeroExt(W - 8 * n, t)
    if isinstance(got, (bool, SymBool)):
        return sym.to_z3bool(got) == (t != 0)
    return f'returned {type(got).__name__}'


def read(name, budget=60.0):
    """enough octets: the value, and exactly those octets consumed"""
    r = FRun('read_' + name, 'reads', budget)
    e, S = r.e, r.S

    def fn():
        r.inputs['unit'] = ('const', 'read_' + name)
        bs, t = chunks_of(name, r)
        tail = r.tail()
        buf, st = source(r, bs + [tail])
        return call(r, st, 'read_' + name), t, tail, buf

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail(f'read_{name} raises nothing on {SIZE[name]} octets', repr(val)[:200])
        got, t, tail, buf = val
        c = value_cond(name, t, got)
        r.check(c if not isinstance(c, str) else False, f'value of read_{name}', c if isinstance(c, str) else '')
        r.posts(lambda: S.chunks_eq(buf.chunks, [tail], f'octets left by read_{name}'))
    r.explore(fn, outcome)
    return r.result()


def read_short(name, budget=60.0):
    r = FRun('read_' + name, 'short input raises', budget)

    def fn():
        r.inputs['unit'] = ('const', 'read_' + name)
        b = r.tail('tail', SIZE[name] - 1)
        buf, st = source(r, [b])
        return call(r, st, 'read_' + name)

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.ok(f'read_{name} past the end raises')
        r.fail(f'read_{name} past the end raises', f'returned {val!r}'[:200])
    r.explore(fn, outcome)
    return r.result()


def read_var(name, budget=60.0):
    """read_bytes(n) and read_utf"""
    r = FRun('read_' + name, 'reads', budget)
    e, S = r.e, r.S

    def fn():
        r.inputs['unit'] = ('const', 'read_' + name)
        if name == 'bytes':
            n = r.int_('n', -(1 << 20), 1 << 20)
            hdr, cnt = [], n
        else:
            hdr, t = [r.octet('b0'), r.octet('b1')], None
            cnt = mk_int(z3.ZeroExt(W - 16, z3.Concat(*hdr)), 0, 0xffff)
        body = r.tail('tail', 1 << 18)
        buf, st = source(r, hdr + [body])
        try:
            got = call(r, st, 'read_' + name, *([cnt] if name == 'bytes' else []))
        except sym.PyExc as ex:
            return ex.exc, None, cnt, body, buf
        return None, got, cnt, body, buf

    def outcome(kind, val):
        if kind == 'exc':
            return r.fail('setup', repr(val))
        r.completed += 1
        ex, got, cnt, body, buf = val
        fits = z3.And(to_bv(cnt) >= 0, to_bv(cnt) <= to_bv(body.len))
        if ex is not None:
            return r.prove(z3.Not(fits), f'read_{name} accepts what is there', repr(ex)[:200])
        if not r.prove(fits, f'read_{name} past the end raises'):
            return
        e.assume(fits)
        if not isinstance(got, (bytes, SymBytes)):
            return r.fail(f'value of read_{name}', f'returned {type(got).__name__}')
        first = Blob(body.base, body.off, cnt)
        rest = Blob(body.base, body.off + cnt, body.len - cnt)
        r.posts(lambda: S.chunks_eq(bytes_chunks(got), [first], f'value of read_{name}'))
        r.posts(lambda: S.chunks_eq(buf.chunks, [rest], f'octets left by read_{name}'))
    r.explore(fn, outcome)
    return r.result()


def read_utf_short(budget=60.0):
    r = FRun('read_utf', 'short length field raises', budget)

    def fn():
        r.inputs['unit'] = ('const', 'read_utf')
        b = r.tail('tail', 1)
        buf, st = source(r, [b])
        return call(r, st, 'read_utf')

    def outcome(kind, val):
        r.completed += 1
        r.check(kind == 'exc', 'read_utf past the end raises', f'returned {val!r}'[:200])
    r.explore(fn, outcome)
    return r.result()


def roundtrip(name, budget=60.0):
    """read(write(x)) == x for every x that fits"""
    r = FRun(name, 'roundtrip', budget)
    e, S = r.e, r.S

    def fn():
        r.inputs['unit'] = ('const', 'rt_' + name)
        out, so = sink(r)
        x, dom, octets = sym_value(r, name)
        if name in FLT and FLT[name] == 4:      # a value float32 can hold
            b = e.fresh('x32', z3.BitVecSort(32))
            e.assume(z3.Not(z3.fpIsNaN(SymFloat(b).fp())))
            x = SymFloat(b)
            r.inputs['value'] = ('bits', b)
            dom, octets = z3.BoolVal(True), bits_to_bytes(b)
        e.assume(dom)
        call(r, so, 'write_' + name, x)
        cs = out.chunks[1:]
        tail = r.tail()
        buf, st = source(r, cs + [tail])
        if name == 'bytes':
            got = call(r, st, 'read_bytes', r.I.models.length(x))
        else:
            got = call(r, st, 'read_' + name)
        return x, got, octets, buf, tail

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail(f'read_{name}(write_{name}(x)) raises nothing', repr(val)[:200])
        x, got, octets, buf, tail = val
        lab = f'read_{name}(write_{name}(x)) == x'
        if name in ('utf', 'bytes'):
            if not isinstance(got, (bytes, SymBytes)):
                return r.fail(lab, f'returned {type(got).__name__}')
            r.posts(lambda: S.chunks_eq(bytes_chunks(got), bytes_chunks(x), lab))
        else:
            t = z3.Concat(*map(byte_term, octets)) if len(octets) > 1 else byte_term(octets[0])
            c = value_cond(name, t, got)
            r.check(c if not isinstance(c, str) else False, lab, c if isinstance(c, str) else '')
        r.posts(lambda: S.chunks_eq(buf.chunks, [tail], f'octets left by read_{name}'))
    r.explore(fn, outcome)
    return r.result()


def jobs():
    out = []
    for n in NAMES:
        out.append(('write', n))
        out.append(('roundtrip', n))
        if n in SIZE:
            out += [('read', n), ('read_short', n)]
        else:
            out.append(('read_var', n))
    out.append(('read_utf_short',))
    return out


def run(kind, args, budget):
    return {'write': write, 'read': read, 'read_short': read_short, 'read_var': read_var,
            'read_utf_short': read_utf_short, 'roundtrip': roundtrip}[kind](*args, budget=budget)
