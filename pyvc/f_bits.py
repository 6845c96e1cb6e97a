"""C12: contracts of the classes made by opendis.record.bitfield.bitfield():
fields packed most significant first, no overlap, inverse parse, rejection of
values that do not fit, independence of assignments."""
import importlib
import random
import z3
from .sym import (SymInt, CStruct, InBuf, OutBuf, W, mk_int, to_bv, norm_byte, PyExc, is_byte, byte_term, Unsupported)
from . import sym
from .funcs import FRun, BV8, BVW
from .codec import in_range
from .f_stream import sink, source, call


def bf():
    return importlib.import_module('opendis.record.bitfield')


def definition(bits):
    """the class the factory makes for these widths (real code, run natively)"""
    M = bf()
    return M.bitfield('B', [(f'f{j}', M.INTEGER, b) for j, b in enumerate(bits)])


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


def sample(tier, seed):
    """definitions: every one of 8 bits; of 16 and 32 bits every one of few fields and random ones"""
    out = list(compositions(8))
    rng = random.Random(f'bits/{seed}')
    few16 = [c for k in (1, 2, 3) for c in parts(16, k)]
    few32 = [c for k in (1, 2) for c in parts(32, k)]
    n = 60 if tier == 'quick' else 1500
    rnd = set()
    while len(rnd) < 2 * n:
        tot = 16 if len(rnd) < n else 32
        cut = sorted(rng.sample(range(1, tot), rng.randint(2, min(12, tot - 1))))
        rnd.add(tuple(b - a for a, b in zip([0] + cut, cut + [tot])))
    if tier != 'quick':
        few32 += list(parts(32, 3))
    return out + few16 + few32 + sorted(rnd - set(few16) - set(few32))


def parts(n, k):
    if k == 1:
        if n <= 32:
            yield (n,)
        return
    for a in range(1, n - k + 2):
        for r in parts(n - a, k - 1):
            yield (a,) + r


def word(vals, bits):
    t = z3.BitVecVal(0, W)
    for v, b in zip(vals, bits):
        t = (t << b) | to_bv(v)
    return t


def octets(t, n):
    return [norm_byte(z3.Extract(8 * j + 7, 8 * j, t)) for j in range(n - 1, -1, -1)]


def pack(bits, budget=30.0, cls=None, names=None):
    """cls(*v).serialize writes the big-endian word; parse gives v back, twice over"""
    r = FRun(key_of(bits, names), 'pack and parse', budget)
    e, S = r.e, r.S
    n = sum(bits) // 8

    def fn():
        r.inputs['unit'] = ('const', list(bits))
        vs = [r.int_(f'v{j}', 0, (1 << b) - 1) for j, b in enumerate(bits)]
        c = cls or definition(bits)
        o = r.I.call(c, tuple(vs))
        size = r.I.call(r.I.getattr(o, 'marshalledSize'))
        buf, st = sink(r)
        before = list(buf.chunks)
        call_on(r, o, 'serialize', st)
        tail = r.tail()
        more = [r.octet(f'o{j}') for j in range(n)]
        ib, ist = source(r, buf.chunks[1:] + more + [tail])
        p = r.I.call(r.I.getattr(c, 'parse'), (ist,))
        q = r.I.call(r.I.getattr(c, 'parse'), (ist,))       # another one: p must not notice
        return vs, o, size, buf, before, p, ib, tail

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail('in-range values are packed and parsed without an exception', repr(val)[:200])
        vs, o, size, buf, before, p, ib, tail = val
        r.check(size == n if isinstance(size, int) else z3.BoolVal(False), 'marshalledSize')
        r.posts(lambda: S.chunks_eq(buf.chunks, before + octets(word(vs, bits), n), 'octets written'))
        names_ = names or [f'f{j}' for j in range(len(bits))]
        r.posts(lambda: S.chunks_eq(ib.chunks, [tail], 'octets consumed'))
        for x, what in ((o, 'after construction'), (p, 'after parse')):
            for a, v in zip(names_, vs):
                got = r.I.getattr(x, a)
                r.check(to_bv(got) == to_bv(v), f'field {a} {what}')
    r.explore(fn, outcome)
    return r.result()


def call_on(r, o, name, *a):
    return r.I.call(r.I.getattr(o, name), a)


def parse_any(bits, budget=30.0, cls=None, names=None):
    """parse takes every octet pattern, each field from its own bits; serialize returns the octets"""
    r = FRun(key_of(bits, names), 'every octet pattern', budget)
    e, S = r.e, r.S
    n = sum(bits) // 8
    names_ = names or [f'f{j}' for j in range(len(bits))]

    def fn():
        r.inputs['unit'] = ('const', list(bits))
        bs = [r.octet(f'o{j}') for j in range(n)]
        c = cls or definition(bits)
        ib, ist = source(r, bs + [r.tail()])
        p = r.I.call(r.I.getattr(c, 'parse'), (ist,))
        buf, st = sink(r)
        before = list(buf.chunks)
        call_on(r, p, 'serialize', st)
        return bs, p, buf, before

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail('octets are parsed without an exception', repr(val)[:200])
        bs, p, buf, before = val
        t = z3.ZeroExt(W - 8 * n, z3.Concat(*bs) if n > 1 else bs[0])
        at = 8 * n
        for a, b in zip(names_, bits):
            at -= b
            r.check(to_bv(r.I.getattr(p, a)) == z3.ZeroExt(W - b, z3.Extract(at + b - 1, at, t)), f'field {a}')
        r.posts(lambda: S.chunks_eq(buf.chunks, before + bs, 'octets written back'))
    r.explore(fn, outcome)
    return r.result()


def rejects(bits, budget=30.0, cls=None, names=None):
    """a constructor argument that does not fit its bits is rejected"""
    r = FRun(key_of(bits, names), 'range', budget)
    e = r.e

    def fn():
        r.inputs['unit'] = ('const', list(bits))
        vs = [r.int_(f'v{j}', -(1 << 40), 1 << 40) for j in range(len(bits))]
        c = cls or definition(bits)
        try:
            r.I.call(c, tuple(vs))
        except PyExc as ex:
            return vs, ex.exc
        return vs, None

    def outcome(kind, val):
        if kind == 'exc':
            return r.fail('setup', repr(val))
        r.completed += 1
        vs, ex = val
        ok = z3.And([in_range(v, 0, (1 << b) - 1) for v, b in zip(vs, bits)])
        if ex is None:
            r.prove(ok, 'values that do not fit are rejected')
        else:
            r.prove(z3.Not(ok), 'values that fit are accepted')
    r.explore(fn, outcome)
    return r.result()


def assign(bits, budget=30.0, cls=None, names=None):
    """assigning one field (any value) leaves every other field as it was"""
    r = FRun(key_of(bits, names), 'assignment', budget)
    e, S = r.e, r.S
    n = sum(bits) // 8
    names_ = names or [f'f{j}' for j in range(len(bits))]

    def fn():
        r.inputs['unit'] = ('const', list(bits))
        vs = [r.int_(f'v{j}', 0, (1 << b) - 1) for j, b in enumerate(bits)]
        x = r.int_('x', -(1 << 40), 1 << 40)
        c = cls or definition(bits)
        out = []
        for i, a in enumerate(names_):
            o = r.I.call(c, tuple(vs))
            try:
                r.I.setattr(o, a, x)
            except PyExc:
                pass
            out.append((i, o))
        return vs, x, out

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail('assignment', repr(val)[:200])
        vs, x, out = val
        for i, o in out:
            for j, a in enumerate(names_):
                if j != i:
                    r.check(to_bv(r.I.getattr(o, a)) == to_bv(vs[j]), f'{a} after assigning {names_[i]}')
                else:
                    fits = in_range(x, 0, (1 << bits[i]) - 1)
                    r.check(z3.Implies(fits, to_bv(r.I.getattr(o, a)) == to_bv(x)), f'{a} after assigning it')
    r.explore(fn, outcome)
    return r.result()


def key_of(bits, names):
    return ('-'.join(map(str, bits)) if not names else ','.join(f'{a}.{b}' for a, b in zip(names, bits)))


def package_structs():
    """bit field structures the package defines: [(owner, class, names, bits)]"""
    import ctypes
    import pkgutil
    import opendis
    found = {}
    for m in list(pkgutil.walk_packages(opendis.__path__, 'opendis.')):
        try:
            M = importlib.import_module(m.name)
        except Exception:       # noqa: BLE001
            continue
        for o in vars(M).values():
            if isinstance(o, type) and o.__module__.startswith('opendis'):
                for s in [o] + [x for x in vars(o).values() if isinstance(x, type)]:
                    if issubclass(s, ctypes.Structure) and hasattr(s, '_fields_'):
                        found[id(s)] = (o.__name__, s)
    out = []
    for owner, s in found.values():
        out.append((owner, s, [f[0] for f in s._fields_],
                    tuple(f[2] if len(f) > 2 else 8 * ctypes.sizeof(f[1]) for f in s._fields_)))
    return sorted(out, key=lambda x: (x[0], x[3]))


def rewrite(bits, budget=30.0, cls=None, names=None):
    """a bit field parsed (or made) and written, then assigned field by field, is written with its present values"""
    r = FRun(key_of(bits, names), 'assign and write', budget)
    S = r.S
    n = sum(bits) // 8
    names_ = names or [f'f{j}' for j in range(len(bits))]

    def written(o):
        buf, st = sink(r)
        k = len(buf.chunks)
        call_on(r, o, 'serialize', st)
        return buf.chunks[k:]

    def fn():
        r.inputs['unit'] = ('const', list(bits))
        vs = [r.int_(f'v{j}', 0, (1 << b) - 1) for j, b in enumerate(bits)]
        ys = [r.int_(f'y{j}', 0, (1 << b) - 1) for j, b in enumerate(bits)]
        c = cls or definition(bits)
        ib, ist = source(r, octets(word(vs, bits), n) + [r.tail()])
        out = []
        for how, o in (('made', r.I.call(c, tuple(vs))), ('parsed', r.I.call(r.I.getattr(c, 'parse'), (ist,)))):
            now = list(vs)
            out.append((how, list(now), written(o)))
            for j, a in enumerate(names_):
                r.I.setattr(o, a, ys[j])
                now[j] = ys[j]
                out.append((f'{how}, after assigning {a}', list(now), written(o)))
        return out

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail('in-range values are assigned and written without an exception', repr(val)[:200])
        for what, now, got in val:
            r.posts(lambda: S.chunks_eq(got, octets(word(now, bits), n), f'octets written: {what}'))
    r.explore(fn, outcome)
    return r.result()


RUNS = {'pack': pack, 'parse_any': parse_any, 'rejects': rejects, 'assign': assign, 'rewrite': rewrite}


def run(kind, args, budget):
    if kind == 'own':                   # a structure of the package
        owner, bits, which = args
        for o, s, names, b in package_structs():
            if o == owner and b == tuple(bits):
                d = RUNS[which](bits, budget, s, names)
                d['class'] = owner
                return d
        raise Unsupported(f'structure of {owner} not found')
    if kind == 'batch':                 # many definitions in one job
        return merge([RUNS[w](b, budget) for b in args[0] for w in RUNS], f'{len(args[0])} definitions', 'bit field factory')
    return RUNS[kind](*args, budget=budget)


def merge(ds, key, name):
    bad = [d for d in ds if d['status'] != 'proved']
    out = dict(bad[0] if bad else ds[0])
    out['n'] = sum(d['n'] for d in ds)
    out['discharged'] = sum(d['discharged'] for d in ds)
    bk = {}
    for d in ds:
        for k, v in d['backends'].items():
            bk[k] = bk.get(k, 0) + v
    out['backends'] = bk
    for k in ('paths', 'solver_s', 'secs', 'queries'):
        out[k] = sum(d[k] for d in ds)
    out['functions'] = sorted({f for d in ds for f in d['functions']})
    if not bad:
        out['class'], out['run'] = key, name
    return out
