"""C14: EntityMarking.setString and charactersString."""
import z3
from .sym import SymInt, SymStr, W, to_bv, norm_byte, mk_str, PyExc, ivl
from . import sym
from .funcs import FRun
from .f_stream import sink, source, call

N = 11
LENGTHS = list(range(0, 25)) + [31, 64]


def text(r, n):
    cps = []
    for j in range(n):
        t = r.e.fresh(f'c{j}', z3.BitVecSort(7))
        r.e.assume(t != 0)
        cps.append(sym.mk_int(z3.ZeroExt(W - 7, t), 0, 127))
    s = mk_str(cps)
    r.inputs['text'] = ('str', SymStr(cps))
    return s, cps


def same_text(r, got, cps, label):
    if isinstance(got, str):
        got = SymStr([ord(c) for c in got])
    if not isinstance(got, SymStr):
        return r.fail(label, f'returned {type(got).__name__}')
    if len(got.cps) != len(cps):
        return r.fail(label, f'{len(got.cps)} characters instead of {len(cps)}')
    return r.check(z3.And([to_bv(a) == to_bv(b) for a, b in zip(got.cps, cps)]) if cps else True, label)


def chars(r, m, want, label):
    got = r.I.getattr(m, 'characters')
    try:
        got = r.I.concrete_items(got)
    except PyExc as ex:
        return r.fail(label, repr(ex.exc))
    if len(got) != N:
        return r.fail(label, f'{len(got)} characters are held')
    if any(isinstance(x, bool) or not isinstance(x, (int, SymInt)) for x in got):
        return r.fail(label, 'not all characters are numbers')
    return r.check(z3.And([to_bv(a) == to_bv(b) for a, b in zip(got, want)]), label)


def used(r):
    """a marking that held another text, which was read"""
    m = r.I.instantiate(r.S.cls_of('EntityMarking'), (), {})
    call(r, m, 'setString', 'EARLIER ONE')
    call(r, m, 'charactersString')
    return m


def marking(r, content):
    m = used(r) if content == 'any' else r.I.instantiate(r.S.cls_of('EntityMarking'), (), {})
    cs = r.octet('charset')
    cset = sym.mk_int(z3.ZeroExt(W - 8, cs), 0, 255)
    r.I.setattr(m, 'characterSet', cset)
    if content == 'any':
        old = [sym.mk_int(z3.ZeroExt(W - 8, r.octet(f'old{j}')), 0, 255) for j in range(N)]
        r.I.setattr(m, 'characters', r.e.born(list(old)))
    return m, cset


def set_get(n, content, budget=60.0):
    """setString(t): the first 11 characters then zeros; read back before and after a round trip"""
    r = FRun(f'text of {n}', f'setString on {content} marking', budget)
    e, S, I = r.e, r.S, r.I

    def fn():
        r.inputs['unit'] = ('const', ['set', content])
        m, cset = marking(r, content)
        t, cps = text(r, n)
        other = I.instantiate(S.cls_of('EntityMarking'), (), {})
        call(r, m, 'setString', t)
        read = call(r, m, 'charactersString')
        buf, st = sink(r)
        call(r, m, 'serialize', st)
        out = buf.chunks[1:]
        tail = r.tail()
        ib, ist = source(r, out + [tail])
        p = used(r) if content == 'any' else I.instantiate(S.cls_of('EntityMarking'), (), {})
        call(r, p, 'parse', ist)
        read2 = call(r, p, 'charactersString')
        call(r, p, 'setString', 'ZZ')
        return m, cset, cps, read, out, p, read2, ib, tail, other, call(r, p, 'charactersString')

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail('setting, reading and the round trip raise nothing', repr(val)[:200])
        m, cset, cps, read, out, p, read2, ib, tail, other, read3 = val
        kept = cps[:N]
        want = kept + [0] * (N - len(kept))
        chars(r, m, want, 'characters held')
        r.check(to_bv(I.getattr(m, 'characterSet')) == to_bv(cset), 'character set kept')
        same_text(r, read, kept, 'text read back')
        octs = [norm_byte(z3.Extract(7, 0, to_bv(c))) for c in [cset] + want]
        r.posts(lambda: S.chunks_eq(out, octs, 'octets written'))
        chars(r, p, [90, 90] + [0] * (N - 2), 'characters held after setting another text')
        same_text(r, read3, [90, 90], 'text read back after setting another text')
        same_text(r, read2, kept, 'text read back after the round trip')
        r.posts(lambda: S.chunks_eq(ib.chunks, [tail], 'octets consumed'))
        chars(r, other, [0] * N, 'another marking')
    r.explore(fn, outcome)
    return r.result()


def read_any(n, budget=60.0):
    """any stored text of n characters followed by zeros, parsed, is returned"""
    r = FRun(f'text of {n}', 'parse and read', budget)
    S, I = r.S, r.I

    def fn():
        r.inputs['unit'] = ('const', ['parse', ''])
        t, cps = text(r, n)
        octs = [norm_byte(z3.Extract(7, 0, to_bv(c))) for c in cps] + [0] * (N - n)
        ib, ist = source(r, [r.octet('charset')] + octs + [r.tail()])
        p = I.instantiate(S.cls_of('EntityMarking'), (), {})
        call(r, p, 'parse', ist)
        q = used(r)
        I.setattr(q, 'characters', r.e.born(cps + [0] * (N - n)))
        return cps, call(r, p, 'charactersString'), call(r, q, 'charactersString'), p

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail('parsing and reading raise nothing', repr(val)[:200])
        chars(r, val[3], val[0] + [0] * (N - n), 'characters parsed')
        same_text(r, val[1], val[0], 'text read back')
        same_text(r, val[2], val[0], 'text read back from assigned characters')
    r.explore(fn, outcome)
    return r.result()


def jobs():
    return [('set_get', n, c) for n in LENGTHS for c in ('new', 'any')] + [('read_any', n) for n in range(N + 1)]


def run(kind, args, budget):
    return {'set_get': set_get, 'read_any': read_any}[kind](*args, budget=budget)
