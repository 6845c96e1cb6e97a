"""The function contracts (C04, C09, C11-C14) executed on the real package:
replay of verifier counterexamples and bounded search.  No solver.

A case is (kind, args, inputs): kind and args name the verifier's unit, inputs
are the values of its symbolic inputs.  check_<prop>_<kind> returns None or a
sentence; gen_<prop>_<kind> makes random inputs."""
import importlib
import io
import itertools
import json
import math
import os
import random
import struct
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), os.environ.get('VERIF_REPO', '/repo')]
from contracts import layouts as LY  # noqa: E402
from contracts import concrete as K  # noqa: E402
from contracts.ctors import CT, REQUIRED, BASES, kind_of  # noqa: E402

TAIL = b'\xa5\x5a\x0f'
exc = K.exc


def lay_key(key):
    return next(l for l in LY.all_layouts() if l.key == key)


def blob(x, rng=None):
    return bytes.fromhex(x or '')


def outstream(pre=b'\x7e'):
    b = io.BytesIO()
    b.write(pre)
    return b, K.streams()[1](b)


def instream(data):
    b = io.BytesIO(data)
    return b, K.streams()[0](b)


# --------------------------------------------------------------------- C04 --
def fac():
    return importlib.import_module('opendis.PduFactory')


def via_factory(via, data):
    M = fac()
    if via == 'createPduFromFilePath':
        fd, p = tempfile.mkstemp(prefix='verif-')
        try:
            os.write(fd, data)
            os.close(fd)
            return M.createPduFromFilePath(p)
        finally:
            os.unlink(p)
    return M.createPdu(data)


def _factory(via, key, inp):
    v = K.clean(inp['view'])
    name = lay_key(key).name
    if v.get('pduType') != LY.PDU_TYPE[name] or not K.in_domain_safe(v):
        return None
    data = K.encode(v, False) + blob(inp.get('tail'))
    e, o = exc(via_factory, via, data)
    if e:
        return f'{via}({data.hex()[:200]}) raised {e}'
    if type(o) is not LY.find_class(name):
        return f'{via} of a packet of PDU type {LY.PDU_TYPE[name]} returned a {type(o).__name__}, not a {name}'
    d = K.diff(K.observe(o, v), K.norm(v))
    return f'{via}({data.hex()[:200]}): {d}' if d else None


def check_C04_factory(args, inp):
    return _factory('createPdu', args[0], inp)


def check_C04_factory_file(args, inp):
    return _factory('createPduFromFilePath', args[0], inp)


def gen_C04_factory(args, rng):
    l = lay_key(args[0])
    v = K.gen(l, rng, K.mine(LY.find_class(l.name)) if rng.random() < .5 else None)
    v['pduType'] = LY.PDU_TYPE[l.name]
    return {'view': v, 'tail': rng.randbytes(rng.choice([0, 0, 1, 7, 30])).hex()}


gen_C04_factory_file = gen_C04_factory


def check_C04_factory_none(args, inp):
    t = inp['type']
    if t in LY.PDU_TYPE.values():
        return None
    data = bytes([inp['o0'], inp['o1'], t]) + blob(inp.get('tail'))
    e, o = exc(via_factory, args[0], data)
    if e:
        return f'{args[0]} of a packet with PDU type {t} raised {e}'
    if o is not None:
        return f'{args[0]} of a packet with PDU type {t}, which is not implemented, returned a {type(o).__name__}'


def gen_C04_factory_none(args, rng):
    return {'o0': rng.randrange(256), 'o1': rng.randrange(256),
            'type': rng.choice([t for t in range(256) if t not in LY.PDU_TYPE.values()]),
            'tail': rng.randbytes(rng.choice([0, 1, 9, 13, 200])).hex()}


def check_C04_factory_default(args, inp):
    n = args[0]
    e, o = exc(LY.find_class(n))
    if e:
        return f'{n}() raised {e}'
    for a, want in (('pduType', LY.PDU_TYPE[n]), ('protocolFamily', LY.FAMILY[n])):
        e, got = exc(getattr, o, a)
        if e or got != want:
            return f'{n}().{a} is {e or repr(got)}, DIS 7 says {want}'


def gen_C04_factory_default(args, rng):
    return {}


# --------------------------------------------------------------------- C09 --
class Thing:
    pass


def ctor_class(name):
    if name in BASES:
        import opendis.dis7 as d
        return type('Concrete' + name, (getattr(d, name),), {'pduType': 200, 'protocolFamily': 100,
                                                           '__module__': 'opendis.dis7'})
    return LY.find_class(name)


def ctor_arg(k, v):
    if v == '$thing':
        return Thing()
    if v == ['$things']:
        return [Thing(), Thing()]
    if k[0] == 'bytes':
        return blob(v)
    return K.value(v)


def check_C09_ctor(args, inp):
    name = args[0]
    c = CT[name]
    cls = ctor_class(name)
    if cls is None:
        return f'class {name} does not exist'
    attr = dict(map(tuple, c['params']))
    kinds = {p: kind_of(name, attr[p], c['defaults'].get(attr[p])) for p in attr}
    given = {}
    for p in attr:
        if p in inp:
            v = inp[p]
            if isinstance(v, dict) and '$c' in v:
                v = K.clean(v)
                if not K.in_domain_safe(v):
                    return None
            if v is None:
                return None
            given[p] = ctor_arg(kinds[p], v)
    e, o = exc(lambda: cls(**given))
    call = f'{name}({", ".join(f"{p}={K.short(inp[p])}" for p in given)})'[:300]
    if e:
        return f'{call} raised {e}'
    for p, a in attr.items():
        e, got = exc(K.get, o, a)
        if e:
            return f'{call}: reading {a} raised {e}'
        if p in given:
            x = given[p]
            if got is x:
                continue
            if isinstance(x, list) and isinstance(got, (list, tuple)) and len(x) == len(got) and \
                    all(i is j or (type(i) is type(j) and not isinstance(i, Thing) and same(i, j, None))
                        for i, j in zip(x, got)):
                continue
            if same(x, got, inp[p]):
                continue
            return f'{call}.{a} is {got!r}, not the value given'[:400]
        if a in c['defaults']:
            d = c['defaults'][a]
            if isinstance(d, dict) and 'class' in d:
                w = LY.find_class(d['class'])
                if type(got) is not w:
                    return f'{call}.{a} is a {type(got).__name__}, its default is a {d["class"]}'
                if d['class'] in LY.L:
                    like = like_of(d['class'])
                    df = K.diff(K.observe(got, like), K.observe(w(), like))
                    if df:
                        return f'{call}.{a}: {df} (default)'
                continue
            if isinstance(d, dict):
                d = bytes.fromhex(d['bytes'])
            if isinstance(d, list) and isinstance(got, tuple):
                got = list(got)
            if not (type(got) in (type(d), bool, int, float) and got == d and (d is not None or got is None)):
                return f'{call}.{a} is {got!r}, its default is {d!r}'[:400]
    return None


def like_of(name):
    return K.gen(LY.layout(name), random.Random(0), None, 3)


def same(x, got, view):
    if type(x) in (int, bool, float) and type(got) in (int, bool, float):
        if isinstance(x, float) and math.isnan(x):
            return isinstance(got, float) and math.isnan(got)
        return x == got and math.copysign(1, x) == math.copysign(1, got)
    if type(x) is not type(got):
        return False
    if isinstance(x, (bytes, str)):
        return x == got
    if isinstance(x, list):
        return len(x) == len(got) and all(same(a, b, None) for a, b in zip(x, got))
    if isinstance(view, dict) and '$c' in view:
        return K.diff(K.observe(got, view), K.norm(view)) is None
    if type(x).__name__ in LY.L:
        like = like_of(type(x).__name__)
        return K.diff(K.observe(got, like), K.observe(x, like)) is None
    return False


def gen_C09_ctor(args, rng):
    name = args[0]
    c = CT[name]
    out = {}
    how = rng.random()
    for p, a in c['params']:
        if not (how < .25 or rng.random() < .5) and p not in REQUIRED.get(name, ()):
            continue
        k = kind_of(name, a, c['defaults'].get(a))
        if k[0] == 'scalar':
            out[p] = K.gen_scalar(rng, k[1], None)
        elif k[0] == 'bits':
            out[p] = bool(rng.getrandbits(1)) if k[2] else rng.getrandbits(k[1])
        elif k[0] == 'nested':
            out[p] = K.gen(LY.layout(k[1]), rng, None, 1)
        elif k[0] == 'list':
            t = k[1]
            out[p] = [K.gen_scalar(rng, t.elem, None) if t.scalar else K.gen(LY.layout(rng.choice(t.elem)), rng, None, 2)
                      for _ in range(rng.randint(0, 3))]
            if len(out[p]) > 1 and rng.random() < .3:
                out[p][1] = out[p][0]
        elif k[0] == 'fixed':
            out[p] = [K.gen_scalar(rng, k[1].w, None) for _ in range(k[1].n)]
        elif k[0] == 'bytes':
            out[p] = K.octets(rng, rng.randint(0, 20)).hex()
        else:
            out[p] = ['$things'] if k[0] == 'things' else '$thing'
    return out


def check_C09_missing(args, inp):
    n = args[0]
    for drop in REQUIRED[n]:
        e, _ = exc(lambda: LY.find_class(n)(**{p: 1 for p in REQUIRED[n] if p != drop}))
        if e is None:
            return f'{n}() without {drop} is accepted'


def gen_C09_missing(args, rng):
    return {}


# --------------------------------------------------------------------- C11 --
INT = {'byte': (1, True), 'unsigned_byte': (1, False), 'short': (2, True), 'unsigned_short': (2, False),
       'int': (4, True), 'unsigned_int': (4, False), 'long': (8, True),
       'int8': (1, True), 'int16': (2, True), 'int32': (4, True), 'int64': (8, True),
       'uint8': (1, False), 'uint16': (2, False), 'uint32': (4, False), 'uint64': (8, False)}
FLT = {'float': 4, 'double': 8, 'float32': 4, 'float64': 8}
CHR = {'char': 2, 'char8': 1}
SIZE = {**{k: v[0] for k, v in INT.items()}, **FLT, **CHR, 'boolean': 1}


def stream_value(name, v):
    """python value, octets or None when it must be rejected"""
    if name in INT:
        n, s = INT[name]
        try:
            return v, v.to_bytes(n, 'big', signed=s)
        except OverflowError:
            return v, None
    if name in FLT:
        n = FLT[name]
        x = struct.unpack('>f' if v['width'] == 32 else '>d', v['bits'].to_bytes(v['width'] // 8, 'big'))[0]
        try:
            return x, struct.pack('>f' if n == 4 else '>d', x)
        except OverflowError:
            return x, None
    if name in CHR:
        n = CHR[name]
        c = v[0]
        try:
            return chr(c), c.to_bytes(n, 'big')
        except OverflowError:
            return chr(c), None
    if name == 'boolean':
        return bool(v), bytes([int(v)])
    b = blob(v)
    if name == 'utf':
        return b, (len(b).to_bytes(2, 'big') + b if len(b) < 65536 else None)
    return b, b


def nanish(n, b):
    return K.is_nan(8 * n, int.from_bytes(b, 'big'))


def equal(name, got, x):
    if name in FLT:
        if isinstance(got, bool) or not isinstance(got, (int, float)):
            return False
        if math.isnan(x):
            return math.isnan(got)
        return got == x and math.copysign(1, got) == math.copysign(1, x)
    if name in INT:
        return type(got) is int and got == x
    return type(got) is type(x) and got == x


def check_C11_write(args, inp):
    name = args[0]
    x, want = stream_value(name, inp['value'])
    b, st = outstream()
    e, _ = exc(lambda: getattr(st, 'write_' + name)(x))
    if want is None:
        return None if e else f'write_{name}({x!r}) does not fit and wrote {b.getvalue()[1:].hex()}'[:300]
    if e:
        return f'write_{name}({x!r}) raised {e}'[:300]
    got = b.getvalue()
    if name in FLT and nanish(FLT[name], want) and len(got) == 1 + len(want) and nanish(FLT[name], got[1:]):
        return None
    if got != b'\x7e' + want:
        return f'write_{name}({x!r}) wrote {got[1:].hex()}, {want.hex()} expected'[:300]


def check_C11_roundtrip(args, inp):
    name = args[0]
    x, want = stream_value(name, inp['value'])
    if want is None:
        return None
    if name in FLT and FLT[name] == 4 and not math.isnan(x) and struct.unpack('>f', struct.pack('>f', x))[0] != x:
        return None
    b, st = outstream()
    e, _ = exc(lambda: getattr(st, 'write_' + name)(x))
    if e:
        return f'write_{name}({x!r}) raised {e}'[:300]
    ib, ist = instream(b.getvalue()[1:] + TAIL)
    e, got = exc(lambda: ist.read_bytes(len(x)) if name == 'bytes' else getattr(ist, 'read_' + name)())
    if e:
        return f'read_{name} after write_{name}({x!r}) raised {e}'[:300]
    if not equal(name, got, x):
        return f'read_{name} after write_{name}({x!r}) returned {got!r}'[:300]
    if ib.read() != TAIL:
        return f'read_{name} after write_{name}({x!r}) did not stop where the value ends'[:300]


def gen_value(name, rng):
    if name in INT:
        n = 8 * INT[name][0]
        return rng.choice([0, 1, -1, (1 << n) - 1, 1 << n, (1 << n - 1) - 1, 1 << n - 1, -(1 << n - 1), -(1 << n - 1) - 1,
                           rng.randint(-(1 << n), 1 << n + 1), rng.randint(0, 255), 128, 255, 256])
    if name in FLT:
        w = rng.choice([32, 64])
        return {'bits': K.gen_scalar(rng, 'f32' if w == 32 else 'f64', None)['bits'], 'width': w}
    if name in CHR:
        return [rng.choice([0, 65, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, rng.randrange(0x110000)])]
    if name == 'boolean':
        return bool(rng.getrandbits(1))
    n = rng.choice([0, 1, 2, 255, 256, 65535, 65536, rng.randrange(100)]) if rng.random() < .3 else rng.randrange(40)
    return K.octets(rng, n).hex()


def gen_C11_write(args, rng):
    return {'value': gen_value(args[0], rng)}


gen_C11_roundtrip = gen_C11_write


def check_C11_read(args, inp):
    name = args[0]
    n = SIZE[name]
    bs = bytes(inp[f'b{j}'] for j in range(n))
    t = blob(inp.get('tail'))
    ib, ist = instream(bs + t)
    e, got = exc(lambda: getattr(ist, 'read_' + name)())
    if e:
        return f'read_{name} of {bs.hex()} raised {e}'
    if name in INT:
        x = int.from_bytes(bs, 'big', signed=INT[name][1])
    elif name in FLT:
        x = struct.unpack('>f' if n == 4 else '>d', bs)[0]
    elif name in CHR:
        x = chr(int.from_bytes(bs, 'big'))
    else:
        x = bs[0] != 0
    if not equal(name, got, x):
        return f'read_{name} of {bs.hex()} returned {got!r} instead of {x!r}'
    if ib.read() != t:
        return f'read_{name} did not consume exactly {n} octets'


def gen_C11_read(args, rng):
    return {**{f'b{j}': rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for j in range(8)},
            'tail': rng.randbytes(rng.randrange(4)).hex()}


def check_C11_read_short(args, inp):
    name = args[0]
    b = blob(inp.get('tail'))[:SIZE.get(name, 2) - 1]
    e, got = exc(lambda: getattr(instream(b)[1], 'read_' + name)())
    if e is None:
        return f'read_{name} with {len(b)} octets left returned {got!r}'


def gen_C11_read_short(args, rng):
    return {'tail': rng.randbytes(rng.randrange(SIZE.get((args or ['utf'])[0], 2))).hex()}


def check_C11_read_utf_short(args, inp):
    return check_C11_read_short(['utf'], inp)


gen_C11_read_utf_short = gen_C11_read_short


def check_C11_read_var(args, inp):
    name = args[0]
    body = blob(inp.get('tail'))
    if name == 'bytes':
        n = inp['n']
        ib, ist = instream(body)
        e, got = exc(lambda: ist.read_bytes(n))
    else:
        n = inp['b0'] << 8 | inp['b1']
        ib, ist = instream(bytes([inp['b0'], inp['b1']]) + body)
        e, got = exc(lambda: ist.read_utf())
    fits = 0 <= n <= len(body)
    if e:
        return f'read_{name} of {n} octets with {len(body)} left raised {e}' if fits else None
    if not fits:
        return f'read_{name} of {n} octets with {len(body)} left returned {got!r}'[:300]
    if got != body[:n] or not isinstance(got, bytes):
        return f'read_{name} of {n} octets returned {got!r}'[:300]
    if ib.read() != body[n:]:
        return f'read_{name} did not consume exactly {n} octets'


def gen_C11_read_var(args, rng):
    body = K.octets(rng, rng.randrange(30))
    n = rng.choice([0, len(body), len(body) + 1, max(0, len(body) - 1), rng.randrange(40), -1 if args[0] == 'bytes' else 0])
    return {'n': n, 'b0': n >> 8 & 255, 'b1': n & 255, 'tail': body.hex()}


# --------------------------------------------------------------------- C12 --
def bit_class(args):
    """(class, names, bits) of an own structure or a factory definition"""
    if args[0] is None:
        bits = args[1]
        M = importlib.import_module('opendis.record.bitfield')
        return (M.bitfield('B', [(f'f{j}', M.INTEGER, b) for j, b in enumerate(bits)]),
                [f'f{j}' for j in range(len(bits))], bits)
    import ctypes
    import pkgutil
    import opendis
    for m in pkgutil.walk_packages(opendis.__path__, 'opendis.'):
        try:
            M = importlib.import_module(m.name)
        except Exception:       # noqa: BLE001
            continue
        for o in list(vars(M).values()):
            if isinstance(o, type) and o.__module__.startswith('opendis') and o.__name__ == args[0]:
                for s in [o] + [x for x in vars(o).values() if isinstance(x, type)]:
                    if issubclass(s, ctypes.Structure) and hasattr(s, '_fields_'):
                        f = s._fields_
                        if [x[2] if len(x) > 2 else 8 * ctypes.sizeof(x[1]) for x in f] == list(args[1]):
                            return s, [x[0] for x in f], args[1]
    return None


def bit_pack(cls, names, bits, vs):
    n = sum(bits) // 8
    acc = 0
    for v, b in zip(vs, bits):
        acc = acc << b | v
    want = acc.to_bytes(n, 'big')
    e, o = exc(lambda: cls(*vs))
    if e:
        return f'constructing from {vs} raised {e}'
    b, st = outstream()
    e, _ = exc(lambda: o.serialize(st))
    if e:
        return f'serialize of {vs} raised {e}'
    if b.getvalue()[1:] != want:
        return f'{vs} in {list(bits)} bits are written as {b.getvalue()[1:].hex()}, {want.hex()} expected'
    e, ms = exc(o.marshalledSize)
    if e or ms != n:
        return f'marshalledSize() is {e or ms}, {n} octets are written'
    ib, ist = instream(want + bytes(255 - x for x in want) + TAIL)
    e, p = exc(lambda: cls.parse(ist))
    if e:
        return f'parse of {want.hex()} raised {e}'
    e, q = exc(lambda: cls.parse(ist))
    if e:
        return f'parse of another one raised {e}'
    if ib.read() != TAIL:
        return f'parse did not consume exactly {n} octets'
    for x, w in ((o, 'construction'), (p, 'parse')):
        got = [getattr(x, a) for a in names]
        if list(map(int, got)) != list(vs):
            return f'fields are {got} after {w}, {vs} expected'
    b, st = outstream()
    e, _ = exc(lambda: p.serialize(st))
    if e or b.getvalue()[1:] != want:
        return f'parse of {want.hex()} is written back as {e or b.getvalue()[1:].hex()}'


def bit_reject(cls, names, bits, vs):
    ok = all(0 <= v < 1 << b for v, b in zip(vs, bits))
    e, _ = exc(lambda: cls(*vs))
    if ok and e:
        return f'constructing from {vs} raised {e}'
    if not ok and not e:
        return f'{vs} are accepted although the fields have {list(bits)} bits'


def bit_assign(cls, names, bits, vs, x):
    for i, a in enumerate(names):
        e, o = exc(lambda: cls(*vs))
        if e:
            return f'constructing from {vs} raised {e}'
        e, _ = exc(setattr, o, a, x)
        for j, c in enumerate(names):
            w = x if j == i else vs[j]
            if (j != i or 0 <= x < 1 << bits[i]) and int(getattr(o, c)) != w:
                return f'{c} is {getattr(o, c)} after assigning {x} to {a} of {vs}, {w} expected' + (f' ({e})' if e else '')


def bit_rewrite(cls, names, bits, vs, ys):
    n = sum(bits) // 8

    def octs(v):
        acc = 0
        for x, b in zip(v, bits):
            acc = acc << b | x
        return acc.to_bytes(n, 'big')
    e, p = exc(lambda: cls.parse(instream(octs(vs))[1]))
    if e:
        return f'parse of {octs(vs).hex()} raised {e}'
    e, o = exc(lambda: cls(*vs))
    if e:
        return f'constructing from {vs} raised {e}'
    for how, x in (('made', o), ('parsed', p)):
        now = list(vs)
        for j in range(-1, len(names)):
            if j >= 0:
                e, _ = exc(setattr, x, names[j], ys[j])
                if e:
                    return f'assigning {ys[j]} to {names[j]} raised {e}'
                now[j] = ys[j]
            b, st = outstream()
            e, _ = exc(lambda: x.serialize(st))
            if e or b.getvalue()[1:] != octs(now):
                return (f'{how} from {vs} and assigned {ys[:j + 1]}: written as {e or b.getvalue()[1:].hex()}, '
                        f'{octs(now).hex()} expected')


def bit_octets(bits, bs):
    t = int.from_bytes(bs, 'big')
    at = sum(bits)
    out = []
    for b in bits:
        at -= b
        out.append(t >> at & (1 << b) - 1)
    return out


def check_bits(args, which, inp):
    d = bit_class(args)
    if d is None:
        return f'bit field structure of {args[0]} with {args[1]} bits not found'
    cls, names, bits = d
    m = len(bits)
    if which == 'parse_any':
        return bit_pack(cls, names, bits, bit_octets(bits, bytes(inp[f'o{j}'] for j in range(sum(bits) // 8))))
    vs = [inp[f'v{j}'] for j in range(m)]
    if which == 'rejects':
        return bit_reject(cls, names, bits, vs)
    if not all(0 <= v < 1 << b for v, b in zip(vs, bits)):
        return None
    if which == 'assign':
        return bit_assign(cls, names, bits, vs, inp['x'])
    if which == 'rewrite':
        ys = [inp[f'y{j}'] for j in range(m)]
        return bit_rewrite(cls, names, bits, vs, ys) if all(0 <= v < 1 << b for v, b in zip(ys, bits)) else None
    return bit_pack(cls, names, bits, vs)


def gen_bits(bits, which, rng):
    out = {f'o{j}': rng.randrange(256) for j in range(sum(bits) // 8)}
    for j, b in enumerate(bits):
        out[f'v{j}'] = rng.choice([0, 1, (1 << b) - 1, rng.getrandbits(b), 1 << b - 1])
        out[f'y{j}'] = rng.choice([0, 1, (1 << b) - 1, rng.getrandbits(b), 1 << b - 1])
        if which == 'rejects' and rng.random() < .2:
            out[f'v{j}'] = rng.choice([-1, 1 << b, (1 << b) + 1, -(1 << b), 1 << b + 3])
    out['x'] = rng.choice([0, 1, -1, 255, 1 << 20, (1 << min(bits)) - 1, rng.getrandbits(max(bits)), rng.getrandbits(33)])
    return out


def check_C12_own(args, inp):
    return check_bits(args[:2], args[2], inp)


def gen_C12_own(args, rng):
    return gen_bits(args[1], args[2], rng)


def check_C12_batch(args, inp):
    bits = inp['unit']
    for w in ('pack', 'parse_any', 'rejects', 'assign', 'rewrite'):
        need = [f'o{j}' for j in range(sum(bits) // 8)] if w == 'parse_any' else [f'v{j}' for j in range(len(bits))] + \
            (['x'] if w == 'assign' else [f'y{j}' for j in range(len(bits))] if w == 'rewrite' else [])
        if all(inp.get(k) is not None for k in need):
            e, r = exc(check_bits, (None, bits), w, inp)
            if e or r:
                return f'bitfield() with {bits} bits: {e or r}'


def gen_C12_batch(args, rng):
    bits = rng.choice(args[0])
    return {'unit': bits, **gen_bits(bits, rng.choice(['pack', 'rejects']), rng)}


# --------------------------------------------------------------------- C13 --
CODES = {l.sv: l.name for l in LY.all_layouts() if l.sv}
FAMS = {'StandardVariableRecord': sorted(CODES.values()),
        'VariableTransmitterParametersRecord': ['HighFidelityHAVEQUICKRadio'],
        'DamageDescriptionRecord': sorted(n for n in CODES.values() if n.startswith('DirectedEnergy'))}
CONTAINERS = {
    'StandardVariableSpecification': ('standardVariables', 'StandardVariableRecord'),
    'TransmitterPdu': ('variableTransmitterParameters', 'VariableTransmitterParametersRecord'),
    'DirectedEnergyFirePdu': ('dERecords', 'DamageDescriptionRecord'),
    'EntityDamageStatusPdu': ('damageDescriptions', 'DamageDescriptionRecord'),
}


def rec():
    return importlib.import_module('opendis.record')


def family(name):
    R = rec()
    for M in (R, R.base, R.radio, R.warfare):
        if hasattr(M, name):
            return getattr(M, name)


def parse_sv(data, fam):
    import opendis.dis7 as d
    b, st = instream(data)
    e, o = exc(lambda: d.parseStandardVariableRecord(st, family(fam)))
    return e, o, b


def check_C13_select(args, inp):
    code, fam = args
    e, c = exc(lambda: rec().getStandardVariableClass(code, family(fam)))
    if CODES[code] in FAMS[fam]:
        if e or c is not LY.find_class(CODES[code]):
            return f'record type {code} in {fam} gives {e or c}, {CODES[code]} expected'
    elif e is None:
        return f'record type {code} ({CODES[code]}) is accepted as a {fam}: {c}'


def gen_C13_select(args, rng):
    return {}


def check_C13_select_unknown(args, inp):
    x, fam = inp['rtype'], args[0]
    if x in CODES:
        return None
    e, o = exc(lambda: rec().getStandardVariableClass(x, family(fam))())
    if e or not isinstance(o, family(fam)) or o.recordType != x:
        return f'record type {x} in {fam} gives {e or o}' + ('' if e else f' of type {getattr(o, "recordType", None)}')


def gen_C13_select_unknown(args, rng):
    while True:
        x = rng.choice([rng.getrandbits(32), rng.randrange(8000), rng.choice(list(CODES)) + rng.choice([-1, 1, 1 << 16]),
                        0, 1, (1 << 32) - 1])
        if 0 <= x < 1 << 32 and x not in CODES:
            return {'rtype': x}


def check_C13_parse_unknown(args, inp):
    x, n, fam = inp['rtype'], inp['length'], args[0]
    body = blob(inp.get('body'))
    if x in CODES:
        return None
    data = x.to_bytes(4, 'big') + n.to_bytes(2, 'big') + body
    fits = n >= 6 and n % 8 == 0 and n - 6 <= len(body)
    e, o, b = parse_sv(data, fam)
    if e:
        return f'unregistered record {data.hex()[:100]} (length {n}, {len(body)} octets follow) raised {e}' if fits else None
    if not fits:
        return f'unregistered record {data.hex()[:100]} (length {n}, {len(body)} octets follow) is accepted'
    if b.read() != body[n - 6:]:
        return f'unregistered record of length {n} did not consume exactly {n} octets'
    if not isinstance(o, family(fam)) or o.recordType != x:
        return f'unregistered record of type {x} is kept as {o!r} of type {getattr(o, "recordType", None)}'
    e, w = exc(K.serialize, o)
    if e or w != data[:n]:
        return f'unregistered record {data[:n].hex()[:100]} is written back as {e or w.hex()[:100]}'
    e, m = exc(o.marshalledSize)
    if e or m != n:
        return f'unregistered record of length {n} reports size {e or m}'


def gen_C13_parse_unknown(args, rng):
    n = rng.choice([0, 1, 5, 6, 7, 8, 12, 16, 24, 64, 8 * rng.randrange(1, 40), rng.randrange(300)])
    k = rng.choice([max(0, n - 6), max(0, n - 7), n, n + 9, rng.randrange(40)])
    return {**gen_C13_select_unknown(args, rng), 'length': n, 'body': K.octets(rng, k).hex()}


def check_C13_parse_known(args, inp):
    code, fam = args
    v = K.clean(inp['view'])
    if not K.in_domain_safe(v):
        return None
    data = K.encode(v)
    e, o, b = parse_sv(data + TAIL, fam)
    if e:
        return f'{CODES[code]} {data.hex()[:120]} raised {e}'
    if type(o) is not LY.find_class(CODES[code]):
        return f'{CODES[code]} is read as a {type(o).__name__}'
    d = K.diff(K.observe(o, v), K.norm(v))
    if d:
        return f'{CODES[code]} {data.hex()[:120]}: {d}'
    if b.read() != TAIL:
        return f'{CODES[code]} did not consume exactly its {len(data)} octets'


def gen_view_of(code, rng):
    l = LY.layout(CODES[code])
    return K.gen(l, rng, None)


def gen_C13_parse_known(args, rng):
    return {'view': gen_view_of(args[0], rng)}


def check_C13_parse_wrong(args, inp):
    code, fam = args
    v = K.clean(inp['view'])
    if not K.in_domain_safe(v):
        return None
    body = K.encode(v, False)
    n = inp['length']
    if n == len(body) + 6:
        return None
    data = code.to_bytes(4, 'big') + n.to_bytes(2, 'big') + body
    e, o, b = parse_sv(data + (blob(inp['tail']) if 'tail' in inp else TAIL * 40), fam)
    if e is None:
        return f'{CODES[code]} with declared length {n} instead of {len(body) + 6} is accepted'


def gen_C13_parse_wrong(args, rng):
    v = gen_view_of(args[0], rng)
    n = len(K.encode(v))
    return {'view': v, 'length': rng.choice([0, 6, n - 1, n + 1, n - 8, n + 8, n + 16, rng.randrange(200), 65535]) & 65535}


def check_C13_sequence(args, inp):
    cont, seq = args
    attr, fam = CONTAINERS[cont]
    v = K.clean(inp['view'])
    cls = LY.find_class(cont)
    if not K.in_domain_safe(v):
        return None
    known = [n for n in FAMS[fam] if n != 'DirectedEnergyAreaAimpoint']
    items, want = [], []
    o = K.build(v)
    for j, ch in enumerate(seq):
        if ch == 'U':
            x, data = inp[f'rtype{j}'], blob(inp.get(f'data{j}'))
            if x in CODES or (len(data) + 6) % 8:
                return None
            e, u = exc(lambda: rec().getStandardVariableClass(x, family(fam))(data=data))
            if e:
                return f'an unregistered record of type {x} raised {e}'
            items.append(u)
            want.append((x, data))
        else:
            k = K.clean(inp[f'rec{j}'])
            if not K.in_domain_safe(k):
                return None
            items.append(K.build(k))
            want.append(k)
    K.put(o, attr, items)
    e, b = exc(K.serialize, o)
    what = f'{cont} with records {seq}'
    if e:
        return f'{what}: serialize raised {e}'
    p = cls()
    ib, ist = instream(b + TAIL)
    args_ = (len(b),) if K.lay_of(v).parse_len else ()
    e, _ = exc(lambda: p.parse(ist, *args_))
    if e:
        return f'{what}: parse raised {e}'
    got = K.get(p, attr)
    if len(got) != len(want):
        return f'{what}: {len(got)} records are read'
    for j, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, tuple):
            e, t = exc(lambda: (g.recordType, bytes(g.data)))
            if e or t != w:
                return f'{what}: record {j} is read as {e or t}, {w} expected'[:400]
        else:
            d = K.diff(K.observe(g, w), K.norm(w))
            if d:
                return f'{what}: record {j}: {d}'
    if ib.read() != TAIL:
        return f'{what}: parse did not stop at the end'


def gen_C13_sequence(args, rng):
    cont, seq = args
    attr, fam = CONTAINERS[cont]
    known = [n for n in FAMS[fam] if n != 'DirectedEnergyAreaAimpoint']
    v = K.gen(rng.choice([l for l in LY.L[cont] if not l.oneway]), rng, None)
    v[attr] = []
    for t in K.lay_of(v).toks:
        if t.kind == 'count' and t.store and t.lst == attr:
            v[t.store] = t.add
    out = {'view': v}
    for j, ch in enumerate(seq):
        if ch == 'U':
            out[f'rtype{j}'] = gen_C13_select_unknown(None, rng)['rtype']
            out[f'data{j}'] = K.octets(rng, 8 * rng.randrange(0, 5) + 2).hex()
        else:
            out[f'rec{j}'] = K.gen(LY.layout(known[j % len(known)]), rng, None)
    return out


# --------------------------------------------------------------------- C14 --
def marking_ok(m, text, charset, what):
    kept = [ord(c) for c in text[:11]]
    want = kept + [0] * (11 - len(kept))
    e, ch = exc(lambda: list(m.characters))
    if e or ch != want:
        return f'{what}: the characters held are {e or ch}, {want} expected'
    if m.characterSet != charset:
        return f'{what}: the character set is {m.characterSet}, {charset} expected'
    e, s = exc(m.charactersString)
    if e or s != text[:11]:
        return f'{what}: charactersString() is {e or repr(s)}, {text[:11]!r} expected'


def check_C14_set_get(args, inp):
    text = ''.join(map(chr, inp['text']))
    if any(not 0 < c < 128 for c in inp['text']):
        return None
    import opendis.dis7 as d
    m, other, p = d.EntityMarking(), d.EntityMarking(), d.EntityMarking()
    if args[1] == 'any':
        for x in (m, p):
            exc(x.setString, 'EARLIER ONE')
            exc(x.charactersString)
    m.characterSet = inp['charset']
    if args[1] == 'any':
        m.characters = [inp[f'old{j}'] for j in range(11)]
    e, _ = exc(m.setString, text)
    what = f'setString({text!r})'
    if e:
        return f'{what} raised {e}'
    r = marking_ok(m, text, inp['charset'], what)
    if r:
        return r
    e, b = exc(K.serialize, m)
    if e:
        return f'{what}: serialize raised {e}'
    if b != bytes([inp['charset']]) + text[:11].encode().ljust(11, b'\0'):
        return f'{what}: written as {b.hex()}'
    ib, ist = instream(b + TAIL)
    e, _ = exc(p.parse, ist)
    if e:
        return f'{what}: parse raised {e}'
    if ib.read() != TAIL:
        return f'{what}: parse did not consume exactly the octets written'
    r = marking_ok(p, text, inp['charset'], what + ' then parse')
    if r:
        return r
    e, _ = exc(p.setString, 'ZZ')
    r = f'raised {e}' if e else marking_ok(p, 'ZZ', inp['charset'], f"setString('ZZ') on a marking parsed as {text[:11]!r}")
    if r:
        return r
    if list(other.characters) != [0] * 11:
        return f'{what} changed another marking to {list(other.characters)}'


def gen_C14_set_get(args, rng):
    return {'text': [rng.choice([rng.randrange(1, 128), rng.randrange(32, 127), 32, 9]) for _ in range(args[0])],
            'charset': rng.randrange(256), **{f'old{j}': rng.randrange(256) for j in range(11)}}


def check_C14_read_any(args, inp):
    if any(not 0 < c < 128 for c in inp['text']):
        return None
    text = ''.join(map(chr, inp['text']))
    import opendis.dis7 as d
    p = d.EntityMarking()
    e, _ = exc(p.parse, instream(bytes([inp['charset']]) + text.encode().ljust(11, b'\0') + TAIL)[1])
    if e:
        return f'parsing the marking {text!r} raised {e}'
    r = marking_ok(p, text, inp['charset'], f'parsing the marking {text!r}')
    if r:
        return r
    q = d.EntityMarking()
    exc(q.setString, 'EARLIER ONE')
    exc(q.charactersString)
    q.characterSet = inp['charset']
    q.characters = [ord(c) for c in text] + [0] * (11 - len(text))
    return marking_ok(q, text, inp['charset'], f'assigning the characters {q.characters}')


gen_C14_read_any = gen_C14_set_get


# ------------------------------------------------------------------ search --
def run(job):
    prop, kind, args = job['prop'], job['kind'], job['args']
    if kind == 'codec':
        tried = 0
        for p in job['oracles']:
            g = K.search(p, args[0], job.get('cex', []), job['n'], job['seed'],
                         job.get('seconds', 10.0), job.get('stress', False))
            tried += g['tried']
            if g['fails']:
                return {'fails': [{**g['fails'][0], 'property': prop, 'oracle': p, 'kind': kind, 'args': args,
                                   'inputs': g['fails'][0]['view']}], 'tried': tried}
        return {'fails': [], 'tried': tried}
    fn = globals()[f'check_{prop}_{kind}'.replace('-', '_')]
    gen = globals()[f'gen_{prop}_{kind}'.replace('-', '_')]
    tried = 0

    def attempt(inp, origin):
        nonlocal tried
        tried += 1
        e, r = exc(fn, args, inp)
        if e and origin == 'verifier counterexample':
            return None                 # not a case of this contract
        if e or r:
            return {'property': prop, 'kind': kind, 'args': args, 'inputs': inp, 'what': e or r, 'origin': origin,
                    'key': f'{kind} {"definitions" if kind == "batch" else " ".join(map(str, args))}'[:120]}
    for inp in job.get('cex', []):
        f = attempt(inp, 'verifier counterexample')
        if f:
            return {'fails': [f], 'tried': tried}
    t0 = time.time()
    rng = random.Random(f'{job["seed"]}/{prop}/{kind}/{args}')
    few = [gen(args, rng) for _ in range(2)] if job.get('stress') else []
    while few and time.time() - t0 < job.get('seconds', 10.0) / 2:
        f = attempt(few[tried % len(few)], f'the same call repeated ({tried + 1} calls so far)')
        if f:
            return {'fails': [{**f, 'repeat': tried}], 'tried': tried}
    for _ in range(job['n']):
        if time.time() - t0 > job.get('seconds', 10.0):
            break
        inp = gen(args, rng)
        f = attempt(inp, 'bounded search')
        if f:
            return {'fails': [f], 'tried': tried}
        if not inp:
            break
    return {'fails': [], 'tried': tried}


def replay(path):
    d = json.load(open(path))
    r = None
    for _ in range(1 + 2 * d.get('repeat', 0)):
        if d['kind'] == 'codec':
            fn = K.o_c06_wide if d['oracle'] == 'C06' else K.ORACLES[d['oracle']]
            x = fn(d['view'])
            r = r or (x[0] if isinstance(x, tuple) else x)
        else:
            r = r or globals()[f'check_{d["property"]}_{d["kind"]}'.replace('-', '_')](d['args'], d['inputs'])
    print(d['property'], d['key'], 'FAILS: ' + r if r else 'holds')
    return 1 if r else 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    out = []
    for j in json.load(sys.stdin):
        try:
            out.append(run(j))
        except Exception:     # noqa: BLE001
            out.append({'fails': [], 'tried': 0, 'error': traceback.format_exc()[-800:]})
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
