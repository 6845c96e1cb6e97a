"""Reference codec over the same layouts, executed against the real package.

Runs under the interpreter the package is installed in and uses neither the
verifier nor a solver: it replays counterexamples found by the verifier and
performs the bounded search that stands in for an obligation the verifier could
not decide.  An oracle returns None (the property holds on this input) or a
sentence saying what failed.

A view is JSON: {'$c': class, '$v': variant, attribute: value}, floats are
{'$f': width, 'bits': n}, octet strings {'$b': hex}."""
import ast
import inspect
import io
import json
import math
import os
import random
import signal
import struct
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), os.environ.get('VERIF_REPO', '/repo')]
from contracts import layouts as LY  # noqa: E402

TAIL = b'\xa5\x5a\x0f'
CANON = {32: 0x7fc00000, 64: 0x7ff8000000000000}


# ------------------------------------------------------------------- views --
def lay_of(view):
    v = view.get('$v', '')
    for l in LY.L[view['$c']]:
        if l.variant == v:
            return l
    return LY.L[view['$c']][0]


def is_nan(w, bits):
    m = 23 if w == 32 else 52
    e = (1 << (w - 1 - m)) - 1
    return (bits >> m) & e == e and bits & ((1 << m) - 1) != 0


def clean(v):
    """canonical NaNs"""
    if isinstance(v, dict):
        if '$f' in v:
            return {'$f': v['$f'], 'bits': CANON[v['$f']]} if is_nan(v['$f'], v['bits']) else dict(v)
        return {k: clean(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clean(x) for x in v]
    return v


def value(v):
    if isinstance(v, dict):
        if '$f' in v:
            return struct.unpack('>f' if v['$f'] == 32 else '>d', v['bits'].to_bytes(v['$f'] // 8, 'big'))[0]
        if '$b' in v:
            return bytes.fromhex(v['$b'])
        return build(v)
    if isinstance(v, list):
        # equal records of a list are one object in it
        made = {}
        return [made.setdefault(json.dumps(x, sort_keys=True, default=str), value(x))
                if isinstance(x, dict) and '$c' in x else value(x) for x in v]
    return v


def put(o, a, v):
    parts = a.split('.')
    for n in parts[:-1]:
        o = getattr(o, n)
    try:
        setattr(o, parts[-1], v)
    except AttributeError:
        l = getattr(o, parts[-1])
        if not isinstance(v, list) or type(l) is not list:
            raise
        l[:] = v


def get(o, a):
    for n in a.split('.'):
        o = getattr(o, n)
    return o


def build(view):
    cls = LY.find_class(view['$c'])
    if cls is None:
        raise LookupError(f'class {view["$c"]} does not exist')
    o = cls()
    made = {}   # equal nested records are one object
    for a, v in view.items():
        if a[0] != '$':
            x = value(v)
            if isinstance(v, dict) and '$c' in v:
                x = made.setdefault(json.dumps(v, sort_keys=True, default=str), x)
            put(o, a, x)
    return o


def vget(view, p):
    ln = p[0] == '#'
    v = view
    for n in p.lstrip('#').split('.'):
        v = v[n]
    if ln:
        return len(v['$b']) // 2 if isinstance(v, dict) else len(v)
    return v


def in_domain(view):
    lay = lay_of(view)
    if lay.constraint is not None:
        try:
            if not all(lay.constraint(lambda p: vget(view, p))):
                return False
        except (KeyError, TypeError):
            return False
    for t in lay.toks:
        if t.kind == 'list' and t.bitlen and len(view[t.attr]) != (view[t.bitlen] + 7) // 8:
            return False
        if t.kind == 'count':
            if len(view[t.lst]) > LY.max_count(t):
                return False
            if t.store and view[t.store] != len(view[t.lst]) * t.mul + t.add:
                return False
        if t.kind == 'size' and view[t.of] is not None and len(encode(view[t.of])) > LY.int_range(t.w)[1]:
            return False
    return True


# ------------------------------------------------------ reference encoding --
def enc_int(v, w):
    n, s = LY.INT[w]
    return int(v).to_bytes(n, 'big', signed=s)


def enc_scalar(v, w):
    if w in LY.FLT:
        return v['bits'].to_bytes(LY.FLT[w], 'big')
    return enc_int(v, w)


def body_fields(view, path=''):
    """[(path, kind, octets)] of the body (without a standard-variable header)"""
    lay = lay_of(view)
    out = []
    start = {}
    pos = 0
    for t in lay.toks:
        p = f'{path}{t.attr}'
        if t.kind == 'scalar':
            f = [(p, 'field', enc_scalar(view[t.attr], t.w))]
        elif t.kind == 'const':
            f = [(p, 'const', enc_int(t.value, t.w))]
        elif t.kind == 'none':
            f = []
        elif t.kind == 'nested':
            f = fields(view[t.attr], p + '.')
        elif t.kind == 'count':
            f = [(f'{path}#{t.lst}', 'count', enc_int(len(view[t.lst]) * t.mul + t.add, t.w))]
        elif t.kind == 'size':
            n = 0 if view[t.of] is None else len(encode(view[t.of], False))
            f = [(f'{path}size({t.of})', 'count', enc_int(n, t.w))]
        elif t.kind == 'bits':
            acc = 0
            for n, b, isb in t.fields:
                acc = acc << b | (int(view[n]) if n != '_' else 0)
            f = [(path + '/'.join(x[0] for x in t.fields), 'field', acc.to_bytes(t.n, 'big'))]
        elif t.kind == 'fixed':
            f = [(f'{p}[{j}]', 'field', enc_scalar(x, t.w)) for j, x in enumerate(view[t.attr])]
        elif t.kind == 'bytes':
            f = [(p, 'field', bytes.fromhex(view[t.attr]['$b']))]
        elif t.kind == 'reserved':
            f = [(path + '(reserved)', 'reserved', bytes(t.n))]
        elif t.kind == 'list':
            start[t.attr] = pos
            f = []
            for j, x in enumerate(view[t.attr]):
                if t.scalar:
                    f.append((f'{p}[{j}]', 'field', enc_scalar(x, t.elem)))
                else:
                    f += fields(x, f'{p}[{j}].')
        elif t.kind == 'pad':
            base = -6 if t.lst == 'size' else start[t.lst]
            f = [(path + '(padding)', 'padding', bytes(-(pos - base) % t.mult))]
        else:
            raise ValueError(t.kind)
        out += f
        pos += sum(len(x[2]) for x in f)
    return out


def fields(view, path='', header=True):
    lay = lay_of(view)
    b = body_fields(view, path)
    if lay.sv is None or not header:
        return b
    n = sum(len(x[2]) for x in b) + 6
    return [(path + 'recordType', 'const', enc_int(lay.sv, 'u32')), (path + 'recordLength', 'count', enc_int(n, 'u16'))] + b


def encode(view, header=True):
    return b''.join(x[2] for x in fields(view, '', header))


# ---------------------------------------------------------------- observing --
def obs_scalar(v, w):
    if w in LY.FLT:
        n = 8 * LY.FLT[w]
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return repr(v)
        try:
            b = struct.pack('>f' if n == 32 else '>d', v)
        except (OverflowError, struct.error):
            return repr(v)
        if not math.isnan(v) and struct.unpack('>f' if n == 32 else '>d', b)[0] != v:
            return repr(v)                       # not a value of that width
        bits = int.from_bytes(b, 'big')
        return {'$f': n, 'bits': CANON[n] if is_nan(n, bits) else bits}
    if isinstance(v, bool):
        return int(v)
    return v if isinstance(v, int) else repr(v)


def observe(o, like):
    """the view of o, by the layout of the view like"""
    if not isinstance(like, dict) or '$c' not in like:
        return repr(o)
    cls = LY.find_class(like['$c'])
    if type(o) is not cls:
        return f'<{type(o).__name__}>'
    lay = lay_of(like)
    out = {'$c': like['$c']}
    if '$v' in like:
        out['$v'] = like['$v']
    for t in lay.toks:
        if t.kind == 'bits':
            for n, b, isb in t.fields:
                if n != '_':
                    v = get(o, n)
                    out[n] = bool(v) if isb and v in (0, 1) else v if isinstance(v, int) else repr(v)
            continue
        if t.kind == 'count' and t.store:
            out[t.store] = obs_scalar(get(o, t.store), 'u8')
        if t.attr is None:
            continue
        v = get(o, t.attr)
        if t.kind in ('scalar', 'const'):
            out[t.attr] = obs_scalar(v, t.w)
        elif t.kind == 'none':
            out[t.attr] = None if v is None else f'<{type(v).__name__}>'
        elif t.kind == 'nested':
            out[t.attr] = observe(v, like[t.attr])
        elif t.kind == 'fixed':
            out[t.attr] = [obs_scalar(x, t.w) for x in v] if isinstance(v, (list, tuple, bytes)) else repr(v)
        elif t.kind == 'bytes':
            out[t.attr] = {'$b': bytes(v).hex()} if isinstance(v, (bytes, bytearray)) else repr(v)
        elif t.kind == 'list':
            if not isinstance(v, (list, tuple)):
                out[t.attr] = repr(v)
            elif t.scalar:
                out[t.attr] = [obs_scalar(x, t.elem) for x in v]
            else:
                w = like[t.attr]
                out[t.attr] = [observe(x, w[j] if j < len(w) else {'$c': type(x).__name__}
                                       if type(x).__name__ in LY.L else None) if j < len(w) else f'<{type(x).__name__}>'
                               for j, x in enumerate(v)]
    return out


def norm(view):
    """the view as observe() would report it"""
    if isinstance(view, list):
        return [norm(x) for x in view]
    if isinstance(view, dict) and '$c' in view:
        lay = lay_of(view)
        keep = set(lay.attrs())
        return {k: norm(v) for k, v in view.items() if k[0] == '$' or k in keep}
    return view


def diff(a, b, path=''):
    if type(a) is not type(b) and not (isinstance(a, int) and isinstance(b, int)):
        return f'{path or "value"}: {short(a)} instead of {short(b)}'
    if isinstance(a, dict):
        for k in b:
            if k not in a:
                return f'{path}.{k} missing'
            d = diff(a[k], b[k], f'{path}.{k}')
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f'{path}: {len(a)} elements instead of {len(b)}'
        for j, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{j}]')
            if d:
                return d
        return None
    return None if a == b else f'{path}: {short(a)} instead of {short(b)}'


def short(v):
    s = json.dumps(v) if not isinstance(v, str) else v
    return s if len(s) < 80 else s[:77] + '...'


def streams():
    from opendis.stream import DataInputStream, DataOutputStream
    return DataInputStream, DataOutputStream


def serialize(o):
    b = io.BytesIO()
    o.serialize(streams()[1](b))
    return b.getvalue()


class ReadLimit(Exception):
    pass


class CountingIO(io.BytesIO):
    """input that bounds the number of read calls and octets asked for"""

    def __init__(self, data, limit=None):
        super().__init__(data)
        self.reads, self.limit = 0, limit

    def read(self, n=-1):
        self.reads += 1
        if self.limit is not None and self.reads > self.limit:
            raise ReadLimit(f'more than {self.limit} reads')
        return super().read(n)


def parse(view, body, tail=TAIL, limit=None):
    cls = LY.find_class(view['$c'])
    lay = lay_of(view)
    o = cls()
    st = CountingIO(body + tail, limit)
    args = ()
    if lay.sv or lay.parse_len:
        args = (len(body) + (6 if lay.sv else 0),)
    o.parse(streams()[0](st), *args)
    return o, st.tell()


def exc(f, *a):
    try:
        return None, f(*a)
    except Exception as ex:       # noqa: BLE001 - the code under test may raise anything
        return f'{type(ex).__name__}: {ex}', None


# ----------------------------------------------------------------- oracles --
def become(o, view):
    """give an object other values in place: nested records and lists stay the same objects"""
    for a, v in view.items():
        if a[0] == '$':
            continue
        cur = get(o, a)
        if isinstance(v, dict) and '$c' in v and type(cur).__name__ == v['$c']:
            become(cur, v)
        elif isinstance(v, list) and type(cur) is list:
            cur[:] = value(v)
        else:
            put(o, a, value(v))


def measures(o, lay):
    ms = getattr(o, 'marshalledSize', None)
    return ([ms()] if ms is not None else []) + [getattr(o, name) for name, _ in LY.reports(lay, type(o))]


def stale(view, sizes=False):
    """does an object that held other values earlier write (or measure) what a new one does?"""
    lay = lay_of(view)
    rng = random.Random(json.dumps(view, sort_keys=True, default=str))
    old = next((v for v in (gen(lay, rng, None) for _ in range(20)) if in_domain_safe(v)), None)
    if old is None:
        return None
    e, fresh = exc(build, view)
    if e:
        return None
    e, want = exc(serialize, fresh)
    if e:
        return None
    for how in ('parsed', 'used'):
        def earlier():
            if how == 'parsed':
                if lay.oneway:
                    return None
                return parse(old, encode(old, False))[0]
            o = build(old)
            serialize(o)
            measures(o, lay)
            return o
        e, o = exc(earlier)
        if e or o is None:
            continue
        e, _ = exc(become, o, view)
        if e or diff(observe(o, view), norm(view)):
            continue
        e, got = exc(serialize, o)
        if e or got != want:
            return f'an object {how} with other values before and then given these ' + \
                   (f'raises {e}' if e else f'writes {got.hex()[:160]}, a new one {want.hex()[:160]}')
        if sizes:
            e, m = exc(lambda: (measures(o, lay), measures(fresh, lay)))
            if not e and m[0] != m[1]:
                return f'an object {how} with other values before reports {m[0]}, a new one {m[1]}'
    return None


def o_c01(view):
    e, o = exc(build, view)
    if e:
        return f'constructing the object raised {e}'
    e, b = exc(serialize, o)
    if e:
        return f'serialize raised {e}'
    h = 6 if lay_of(view).sv else 0
    e, r = exc(parse, view, b[h:])
    if e:
        return f'parsing {b.hex()[:200]} raised {e}'
    o2, used = r
    d = diff(observe(o2, view), norm(view))
    if d:
        return f'after serialize and parse {d}'
    if used != len(b) - h:
        return f'parse consumed {used} of the {len(b) - h} octets serialized'
    return stale(view)


def locate(got, ref):
    pos = 0
    for p, k, b in ref:
        if got[pos:pos + len(b)] != b:
            return f'octets {pos}..{pos + len(b) - 1} ({p}) are {got[pos:pos + len(b)].hex() or "missing"}, ' \
                   f'the layout says {b.hex()}'
        pos += len(b)
    return f'{len(got)} octets written, the layout has {pos}' if len(got) != pos else None


def o_c02(view):
    e, o = exc(build, view)
    if e:
        return f'constructing the object raised {e}'
    e, b = exc(serialize, o)
    if e:
        return f'serialize raised {e}'
    d = locate(b, fields(view))
    if d:
        return 'serialize: ' + d
    if lay_of(view).oneway:
        return stale(view)
    ref = encode(view, False)
    e, r = exc(parse, view, ref)
    if e:
        return f'parsing {ref.hex()[:200]} raised {e}'
    d = diff(observe(r[0], view), norm(view))
    if d:
        return f'parse of {ref.hex()[:200]}: {d}'
    if r[1] != len(ref):
        return f'parse consumed {r[1]} of {len(ref)} octets'
    return stale(view)


def o_c03(view):
    ref = encode(view, False)
    e, r = exc(parse, view, ref)
    if e:
        return f'parsing {ref.hex()[:200]} raised {e}'
    e, b = exc(serialize, r[0])
    if e:
        return f'serialize after parse raised {e}'
    d = locate(b, fields(view))
    return f're-encoding {encode(view).hex()[:200]}: {d}' if d else None


def o_c05(view):
    e, o = exc(build, view)
    if e:
        return f'constructing the object raised {e}'
    e, b = exc(serialize, o)
    if e:
        return f'serialize raised {e}'
    pos = 0
    for p, k, x in fields(view):
        if k == 'count' and b[pos:pos + len(x)] != x:
            return f'{p} at octet {pos} is written as {b[pos:pos + len(x)].hex()}, {x.hex()} expected'
        pos += len(x)
    if len(b) != pos:
        return f'{len(b)} octets written although the counts call for {pos}'
    ms = getattr(o, 'marshalledSize', None)
    if ms is not None:
        e, n = exc(ms)
        if e:
            return f'marshalledSize raised {e}'
        if n != len(b):
            return f'marshalledSize() is {n}, serialize wrote {len(b)} octets'
    lay = lay_of(view)
    for name, t in LY.reports(lay, type(o)):
        if t is None:
            want = len(b)
        elif t == 0:
            want = 0
        elif t.kind == 'count':
            want = len(view[t.lst]) * t.mul + t.add
        else:
            want = len(encode(view[t.attr], False))
        e, n = exc(lambda: getattr(o, name))
        if e:
            return f'{name} raised {e}'
        if n != want:
            return f'{name} is {n}, {want} is written'
    return stale(view, True)


def out_of_range(view):
    """variants of a view with one field outside its wire domain"""
    lay = lay_of(view)
    for t in lay.toks:
        if t.kind == 'scalar' and t.w in LY.INT:
            lo, hi = LY.int_range(t.w)
            for x in (lo - 1, hi + 1, hi + 2, 2 * hi + 1, 2 * hi + 2, -hi, lo - 300):
                if not lo <= x <= hi:
                    yield t.attr, x, {**view, t.attr: x}
        elif t.kind == 'bits':
            for n, b, isb in t.fields:
                if n not in ('_', 'beamState') and not isb:
                    for x in (-1, 1 << b, (1 << b) + 1, 3 << b):
                        yield n, x, {**view, n: x}
        elif t.kind == 'fixed' and t.w in LY.INT:
            lo, hi = LY.int_range(t.w)
            for j in {0, 1, t.n // 2, t.n - 1}:
                for x in (lo - 1, hi + 1, 2 * hi + 1):
                    l = list(view[t.attr])
                    l[j] = x
                    yield f'{t.attr}[{j}]', x, {**view, t.attr: l}
        elif t.kind == 'list' and t.scalar and t.elem in LY.INT and view[t.attr]:
            lo, hi = LY.int_range(t.elem)
            for j in {0, len(view[t.attr]) - 1}:
                for x in (lo - 1, hi + 1, 2 * hi + 1):
                    l = list(view[t.attr])
                    l[j] = x
                    yield f'{t.attr}[{j}]', x, {**view, t.attr: l}
        elif t.kind == 'count':
            full = (LY.int_range(t.w)[1] - t.add) // t.mul
            if full <= 70000:
                el = view[t.lst][0] if view[t.lst] else None
                if el is None:
                    lt = next(x for x in lay.toks if x.kind == 'list' and x.attr == t.lst)
                    el = gen_scalar(random.Random(1), lt.elem, None) if lt.scalar else \
                        gen(LY.layout(lt.elem[0]), random.Random(1), None, 2)
                for n in (full + 1, full + 2):
                    w = {**view, t.lst: [el] * n}
                    if t.store:
                        w[t.store] = (n * t.mul + t.add) & LY.int_range(t.w)[1]
                    yield f'len({t.lst})', n, w


def o_c06(view):
    """called with a view whose own fields may be anything"""
    if '$oob' in view:
        cases = [(view['$oob'], '?', {k: v for k, v in view.items() if k != '$oob'})]
    else:
        cases = list(out_of_range(view))
    for name, x, w in cases:
        e, o = exc(build, w)
        if e:
            continue
        e, b = exc(serialize, o)
        if e is None:
            return f'{name}={x}: serialize returned {len(b)} octets instead of raising', w
    if cases and '$oob' not in view:
        for name, x, w in cases:
            e, b = exc(rewritten, view, w)
            if e is None and b is not None:
                return f'{name}={x} set after the object was serialized once: serialize returned {len(b)} octets ' \
                       'instead of raising', {**view, '$wide': w}
    return None


def rewritten(old, new):
    """octets written by an object serialized with one view and then given another"""
    o = build(old)
    serialize(o)
    if exc(become, o, new)[0]:
        return None
    return serialize(o)


def wide_bad(view):
    """is some own field of the view outside its wire domain?"""
    lay = lay_of(view)
    for t in lay.toks:
        if t.kind == 'scalar' and t.w in LY.INT:
            lo, hi = LY.int_range(t.w)
            if not lo <= view[t.attr] <= hi:
                return f'{t.attr}={view[t.attr]}'
        elif t.kind == 'bits':
            for n, b, isb in t.fields:
                if n not in ('_', 'beamState') and not isb and not 0 <= view[n] < 1 << b:
                    return f'{n}={view[n]}'
        elif t.kind in ('fixed', 'list') and (t.kind == 'fixed' or t.scalar):
            w = t.w if t.kind == 'fixed' else t.elem
            if w in LY.INT:
                lo, hi = LY.int_range(w)
                for j, x in enumerate(view[t.attr]):
                    if not lo <= x <= hi:
                        return f'{t.attr}[{j}]={x}'
    return None


def o_c06_wide(view):
    """a view from the wide domain (a verifier counterexample)"""
    if '$wide' in view:
        e, b = exc(rewritten, {k: v for k, v in view.items() if k != '$wide'}, view['$wide'])
        return f'{wide_bad(view["$wide"])} set after the object was serialized once: serialize returned {len(b)} octets ' \
               'instead of raising' if e is None and b is not None else None
    name = wide_bad(view)
    if name is None:
        return o_c06(view)
    e, o = exc(build, view)
    if e:
        return None
    e, b = exc(serialize, o)
    if e is None:
        return f'{name}: serialize returned {len(b)} octets instead of raising', view
    return None


def o_c07(view):
    ref = encode(view, False)
    n = len(ref)
    cuts = range(n) if n <= 600 else sorted(set(range(300)) | set(range(n - 200, n)))
    for k in cuts:
        cls = LY.find_class(view['$c'])
        o = cls()
        lay = lay_of(view)
        args = (n + (6 if lay.sv else 0),) if lay.sv or lay.parse_len else ()
        e, _ = exc(lambda: o.parse(streams()[0](io.BytesIO(ref[:k])), *args))
        if e is None:
            return f'parse accepted the first {k} of {n} octets of {ref.hex()[:200]}'
    return None


def mutable_parts(o, out, path, twice=None):
    """mutable objects reachable through declared attributes"""
    if isinstance(o, (int, float, str, bytes, bool, type(None), type)):
        return
    if id(o) in out:
        if twice is not None and type(o).__name__ in LY.L:
            twice.append((out[id(o)][0], path))
        return
    if not isinstance(o, (tuple, frozenset)):
        out[id(o)] = (path, o)
    if isinstance(o, (list, tuple, set, frozenset)):
        for j, x in enumerate(o):
            mutable_parts(x, out, f'{path}[{j}]', twice)
    elif isinstance(o, dict):
        for k, x in o.items():
            mutable_parts(x, out, f'{path}[{k!r}]', twice)
    elif type(o).__name__ in LY.L:
        for n in {a.split('.')[0] for l in LY.L[type(o).__name__] for a in l.attrs()}:
            try:
                mutable_parts(getattr(o, n), out, f'{path}.{n}', twice)
            except AttributeError:
                pass
    else:
        for k, x in list(getattr(o, '__dict__', {}).items()):
            mutable_parts(x, out, f'{path}.{k}', twice)


def parsed_apart(view):
    """do two parsed objects, or two records of one, share state?"""
    if lay_of(view).oneway:
        return None
    ref = encode(view, False)
    e, ab = exc(lambda: (parse(view, ref)[0], parse(view, ref)[0]))
    if e:
        return None
    pa, pb, twice = {}, {}, []
    mutable_parts(ab[0], pa, view['$c'], twice)
    mutable_parts(ab[1], pb, view['$c'])
    for i in pa:
        if i in pb:
            return f'two objects parsed from {ref.hex()[:80]} share {pa[i][0]} ({type(pa[i][1]).__name__})'
    if twice:
        return f'parsing {ref.hex()[:80]} makes {twice[0][0]} and {twice[0][1]} one object'
    return None


def shared(cls):
    a, b = cls(), cls()
    pa, pb = {}, {}
    mutable_parts(a, pa, cls.__name__)
    mutable_parts(b, pb, cls.__name__)
    for i in pa:
        if i in pb:
            return f'two {cls.__name__}() share {pa[i][0]} ({type(pa[i][1]).__name__})'
    return None


def o_c08(view):
    cls = LY.find_class(view['$c'])
    d = exc(shared, cls)
    if d[0] or d[1]:
        return d[0] or d[1]
    e, o = exc(build, view)
    if e:
        return f'constructing the object raised {e}'
    before = observe(o, view)
    e, b1 = exc(serialize, o)
    if e:
        return f'serialize raised {e}'
    after = observe(o, view)
    d = diff(after, before)
    if d:
        return f'serialize changed the object: {d}'
    e, b2 = exc(serialize, o)
    if e:
        return f'the second serialize raised {e}'
    if b1 != b2:
        return f'two serializations differ: {b1.hex()[:120]} / {b2.hex()[:120]}'
    e, other = exc(build, view)
    if e is None:
        e, b3 = exc(serialize, other)
        if b3 != b1:
            return 'an equal object serializes differently'
    return parsed_apart(view) or stale(view)


class Deadline(Exception):
    pass


def _alarm(*a):
    raise Deadline()


class WorkLimit(Exception):
    pass


def measured(fn, lines, memory):
    """fn() with its work counted: lines executed (limit raises WorkLimit) and the
    memory it allocates at its peak -> peak"""
    import tracemalloc
    left = [lines]

    def trace(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] < 0:
                raise WorkLimit
        return trace
    tracemalloc.start()
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        fn()
    except (WorkLimit, Deadline, ReadLimit, MemoryError, RecursionError):
        raise
    except Exception:       # noqa: BLE001 - a malformed packet may be refused
        pass
    finally:
        sys.settrace(old)
        peak = tracemalloc.get_traced_memory()[1]
        tracemalloc.stop()
    return peak


def o_c10(view):
    """view supplies a seed; octets are derived from an encoding by edits"""
    import resource
    raw = bytes.fromhex(view['$raw']) if '$raw' in view else encode(view, False)
    limit = 64 + 8 * len(raw) + 2000
    lines = 20000 + 400 * len(raw)
    memory = (1 << 18) + 4096 * len(raw)
    signal.signal(signal.SIGALRM, _alarm)
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    now = int(open('/proc/self/statm').read().split()[0]) * resource.getpagesize()
    cap = now + (1 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (cap if hard == resource.RLIM_INFINITY else min(cap, hard), hard))
    signal.setitimer(signal.ITIMER_REAL, 5.0)
    try:
        peak = measured(lambda: parse(view, raw, b'', limit), lines, memory)
        if peak > memory:
            return f'parse of {len(raw)} octets allocated {peak} bytes (limit {memory}): {raw.hex()[:200]}'
    except Deadline:
        return f'parse of {len(raw)} octets did not finish within 5 s: {raw.hex()[:200]}'
    except ReadLimit:
        return f'parse of {len(raw)} octets made more than {limit} reads: {raw.hex()[:200]}'
    except WorkLimit:
        return f'parse of {len(raw)} octets executed more than {lines} lines: {raw.hex()[:200]}'
    except (MemoryError, RecursionError) as ex:
        return f'parse of {len(raw)} octets ran out of resources: {type(ex).__name__}: {raw.hex()[:200]}'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    return None


ORACLES = {'C01': o_c01, 'C02': o_c02, 'C03': o_c03, 'C05': o_c05, 'C06': o_c06, 'C07': o_c07, 'C08': o_c08,
           'C10': o_c10}


# --------------------------------------------------------------- generator --
def mine(cls):
    """integer constants in the class's own source: interesting values"""
    out = set()
    for k in cls.__mro__[:-1]:
        try:
            tree = ast.parse(inspect.cleandoc('\n' + inspect.getsource(k)) if False else _dedent(inspect.getsource(k)))
        except (OSError, TypeError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) is int and abs(n.value) < 1 << 64:
                out |= {n.value, n.value - 1, n.value + 1}
    return sorted(out)


def _dedent(s):
    import textwrap
    return textwrap.dedent(s)


def octets(rng, n):
    """n octets: any, or of a kind code may single out (all alike, padded, text)"""
    r = rng.random()
    if r < .5:
        return rng.randbytes(n)
    if r < .65:
        return bytes(n)
    if r < .75:
        return bytes([rng.choice([255, 32, 48, 1, 128, rng.randrange(256)])]) * n
    k = rng.randint(0, n)
    if r < .85:
        return rng.randbytes(k) + bytes(n - k)
    if r < .92:
        return bytes(k) + rng.randbytes(n - k)
    return bytes(rng.randint(32, 126) for _ in range(n))


def gen_scalar(rng, w, pool):
    if w in LY.FLT:
        n = 8 * LY.FLT[w]
        c = rng.random()
        if c < 0.5:
            x = rng.choice([0.0, 1.0, -1.0, 1.5, -2.25, 3.0e5, 0.1, 1e-3, -7.0])
            bits = int.from_bytes(struct.pack('>f' if n == 32 else '>d', x), 'big')
        elif c < 0.6:
            bits = rng.choice([CANON[n], 1 << (n - 1), 0x7f800000 if n == 32 else 0x7ff << 52, 1])
        else:
            bits = rng.getrandbits(n)
        return {'$f': n, 'bits': CANON[n] if is_nan(n, bits) else bits}
    lo, hi = LY.int_range(w)
    c = rng.random()
    if c < 0.25:
        return rng.choice([lo, hi, 0, 1, min(2, hi), hi - 1, hi // 2, hi // 2 + 1])
    if c < 0.5:
        ok = [x for x in (pool or ()) if lo <= x <= hi]
        if ok:
            return rng.choice(ok)
    if c < 0.7:
        return rng.randint(0, min(hi, 12))
    return rng.randint(lo, hi)


def gen_len(rng, cap, depth, pool=None, most=3000):
    c = rng.random()
    if depth == 0 and pool and c > 0.8:
        ok = [x for x in pool if 3 < x <= min(cap, most)]
        if ok:
            return rng.choice(ok)
    if c < 0.15:
        n = 0
    elif c < 0.9 or depth > 0:
        n = rng.randint(0, 3)
    elif c < 0.97:
        n = rng.randint(4, 40)
    else:
        n = rng.choice([127, 128, 255, 256, 257, 300])
    return min(n, cap)


def gen1(lay, rng, pool, depth=0):
    v = {'$c': lay.name}
    if lay.variant:
        v['$v'] = lay.variant
    caps = {t.lst: LY.max_count(t) for t in lay.toks if t.kind == 'count'}
    for t in lay.toks:
        if t.kind == 'scalar':
            bit = next((x for x in lay.toks if x.kind == 'list' and x.bitlen == t.attr), None)
            far = [x for x in (pool or ()) if 300 < x <= 200000] if bit and depth == 0 and rng.random() < 0.2 else None
            v[t.attr] = rng.choice(far) + rng.randint(0, 9) if far else \
                rng.choice([0, 1, 7, 8, 9, 31, 32, 33, 56, 57, 63, 64, 65, 72, 120, 128, rng.randint(0, 300)]) \
                if bit else gen_scalar(rng, t.w, pool)
        elif t.kind == 'const':
            v[t.attr] = t.value
        elif t.kind == 'none':
            v[t.attr] = None
        elif t.kind == 'nested':
            like = [x for x in v.values() if isinstance(x, dict) and x.get('$c') == t.cls]
            v[t.attr] = rng.choice(like) if like and rng.random() < .1 else gen(LY.layout(t.cls), rng, pool, depth + 1)
        elif t.kind == 'bits':
            for n, b, isb in t.fields:
                if n != '_':
                    v[n] = bool(rng.getrandbits(1)) if isb else \
                        rng.choice([0, (1 << b) - 1, 1 << (b - 1), rng.getrandbits(b)])
        elif t.kind == 'fixed':
            v[t.attr] = [gen_scalar(rng, t.w, pool) for _ in range(t.n)]
        elif t.kind == 'bytes':
            v[t.attr] = {'$b': octets(rng, rng.choice([0, 1, 2, 15, 16, 17, 39, 40, 41, rng.randint(0, 200)])).hex()}
    for t in lay.toks:
        if t.kind == 'list':
            n = (v[t.bitlen] + 7) // 8 if t.bitlen else \
                gen_len(rng, caps.get(t.attr, 3), depth, pool, 20000 if t.scalar else 2000)
            v[t.attr] = [gen_scalar(rng, t.elem, pool) if t.scalar else
                         gen(LY.layout(rng.choice(t.elem)), rng, pool, depth + 1) for _ in range(n)]
            if n > 1 and not t.scalar and rng.random() < .2:
                j = rng.randrange(n)
                v[t.attr][j] = v[t.attr][j - 1]
    for t in lay.toks:
        if t.kind == 'count' and t.store:
            v[t.store] = len(v[t.lst]) * t.mul + t.add
    return v


def gen(lay, rng, pool, depth=0):
    for _ in range(400):
        v = gen1(lay, rng, pool, depth)
        if in_domain(v):
            return v
    return v


def corrupt(rng, b):
    b = bytearray(b)
    for _ in range(rng.randint(0, 4)):
        c = rng.random()
        if b and c < 0.6:
            b[rng.randrange(len(b))] = rng.choice([0, 1, 255, 127, 128, rng.getrandbits(8)])
        elif b and c < 0.8:
            del b[rng.randrange(len(b)):]
        else:
            b += rng.randbytes(rng.randint(0, 40))
    return bytes(b)


def hostile(b):
    """every place of an encoding read as a count of 255, 2^16-1 or 2^32-1, with and
    without the octets after it"""
    out = []
    for p in range(len(b)):
        for w in (4, 2, 1):
            for tail in (b'', b[p + w:]):
                if p + w <= len(b):
                    out.append(b[:p] + bytes([255]) * w + tail)
    return out


def search(prop, key, cex, n, seed, seconds=10.0, stress=False):
    """-> {'fails': [{view, what, origin}], 'tried': n}; stress: the code keeps state between calls, so half of
    the time goes to the same few views again and again"""
    lay = next(l for l in LY.all_layouts() if l.key == key)
    oracle = ORACLES[prop]
    rng = random.Random(f'{seed}/{prop}/{key}')
    tried = 0
    t0 = time.time()

    def attempt(view, origin, fn=oracle):
        nonlocal tried
        tried += 1
        try:
            r = fn(view)
        except RecursionError:
            r = 'recursion limit exceeded'
        except Exception as ex:     # noqa: BLE001 - the observed object is not even readable
            r = f'{type(ex).__name__}: {ex}'
        if r:
            if isinstance(r, tuple):
                r, view = r
            return {'property': prop, 'key': key, 'view': view, 'what': r, 'origin': origin}
        return None

    for v in cex:
        if v is None or v.get('$c') != lay.name:
            continue
        v = clean(v)
        if prop == 'C06':
            f = attempt(v, 'verifier counterexample', o_c06_wide)
        elif in_domain_safe(v):
            f = attempt(v, 'verifier counterexample')
        else:
            continue
        if f:
            return {'fails': [f], 'tried': tried}
    cls = LY.find_class(lay.name)
    if cls is None:
        return {'fails': [{'property': prop, 'key': key, 'view': {'$c': lay.name}, 'origin': 'lookup',
                           'what': f'class {lay.name} does not exist'}], 'tried': 1}
    pool = mine(cls)
    if stress:
        few = [v for v in (gen(lay, rng, None) for _ in range(12)) if in_domain_safe(v)]
        few = sorted(few, key=lambda v: len(json.dumps(v, default=str)))[:2]
        j = 0
        while few and time.time() - t0 < seconds / 2:
            f = attempt(few[j % len(few)], f'the same call repeated ({tried + 1} calls so far)')
            j += 1
            if f:
                return {'fails': [{**f, 'repeat': tried}], 'tried': tried}
    for j in range(n):
        if time.time() - t0 > seconds:
            break
        v = gen(lay, rng, pool if j % 2 else None)
        if not in_domain_safe(v):
            continue
        raws = [None]
        if prop == 'C10':
            b = encode(v, False)
            raws = [corrupt(rng, b)] + [b for b in hostile(b[:400]) if n > 10 and j < 4]
        for b in raws:
            if time.time() - t0 > seconds:
                break
            f = attempt(v if b is None else {**v, '$raw': b.hex()}, 'bounded search')
            if f:
                return {'fails': [f], 'tried': tried}
    return {'fails': [], 'tried': tried}


def in_domain_safe(v):
    try:
        encode(v)
        return in_domain(v)
    except (KeyError, TypeError, OverflowError, ValueError, AttributeError):
        return False


def replay(path):
    d = json.load(open(path))
    v = d['view']
    fn = ORACLES[d['property']] if d['property'] != 'C06' else o_c06_wide
    r = None
    for _ in range(1 + 2 * d.get('repeat', 0)):
        try:
            r = r or fn(v)
        except Exception as ex:     # noqa: BLE001
            r = f'{type(ex).__name__}: {ex}'
    print(d['property'], d['key'], 'FAILS: ' + str(r[0] if isinstance(r, tuple) else r) if r else 'holds')
    return 1 if r else 0


# ------------------------------------------------------ recorded findings --
def k_system_identifier():
    import opendis.dis7 as d
    o = d.SystemIdentifier(1, 2, 3)
    e, b = exc(serialize, o)
    if e is None and len(b) == 6 and b[:5] == bytes([0, 1, 0, 2, 3]):
        return None
    return f'SystemIdentifier(1, 2, 3) serializes to {b.hex() if b else e}: systemMode takes two octets and the ' \
           'change/options octet is not written (expected 0001000203xx)'


def k_point_object():
    import opendis.dis7 as d
    b = [serialize(d.PointObjectStatePdu(objectAppearance=x)) for x in (0, 1)]
    at = [j for j in range(min(map(len, b))) if b[0][j] != b[1][j]]
    if at and b[1][at[0]:at[0] + 2] == b'\x3f\xf0':
        return f'PointObjectStatePdu(objectAppearance=1) writes the appearance as the double 1.0 at octet {at[0]} ' \
               '(expected a 32-bit specific and a 16-bit general appearance record)'
    return None


def k_false_targets():
    import opendis.dis7 as d
    b = serialize(d.FalseTargetsAttribute())
    n = int.from_bytes(b[4:6], 'big')
    return f'FalseTargetsAttribute announces recordLength {n} and writes {len(b)} octets' if n != len(b) else None


def k_ua_pdu():
    import opendis.dis7 as d
    b = bytearray(serialize(d.UaPdu()))
    b[-3] = 1
    b += bytes(8)
    e, _ = exc(lambda: d.UaPdu().parse(streams()[0](io.BytesIO(bytes(b)))))
    return f'parsing a UaPdu with one shaft raises {e} (the element records do not exist)' \
        if e and e.startswith('NameError') else None


KNOWN = {'system-identifier': k_system_identifier, 'point-object-appearance': k_point_object,
         'false-targets-length': k_false_targets, 'ua-pdu-lists': k_ua_pdu}


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--known':
        e, r = exc(KNOWN[sys.argv[2]])
        print(e or r or '')
        return
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    out = []
    for j in json.load(sys.stdin):
        try:
            out.append(search(j['prop'], j['key'], j.get('cex', []), j['n'], j['seed'], j.get('seconds', 10.0),
                              j.get('stress', False)))
        except Exception as ex:     # noqa: BLE001
            import traceback
            out.append({'fails': [], 'tried': 0, 'error': traceback.format_exc()[-800:]})
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
