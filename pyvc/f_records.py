"""C13: dispatch of standard variable records by record type, exact use of the
declared length, and preservation of the records that are not recognised."""
import importlib
import z3
from .sym import (SymInt, SymBytes, Blob, Seg, Rec, Rest, W, to_bv, norm_byte, PyExc, Unsupported, mk_int, mk_bytes,
                  bytes_chunks, byte_term)
from . import sym
from .funcs import FRun
from .spec import Mismatch
from .views import View, LView
from .codec import empty
from .f_stream import sink, source, call, be
from contracts import layouts as LY

CODES = {l.sv: l.name for l in LY.all_layouts() if l.sv}
BASES = {'StandardVariableRecord': sorted(CODES.values()),
         'VariableTransmitterParametersRecord': ['HighFidelityHAVEQUICKRadio'],
         'DamageDescriptionRecord': sorted(n for n in CODES.values() if n.startswith('DirectedEnergy'))}


def rec():
    return importlib.import_module('opendis.record')


def dis7():
    return importlib.import_module('opendis.dis7')


def family(name):
    R = rec()
    for M in (R, R.base, R.radio, R.warfare):
        if hasattr(M, name):
            return getattr(M, name)
    raise Unsupported(f'{name} not found')


def sym_type(r, name='rtype'):
    t = r.e.fresh(name, z3.BitVecSort(32))
    r.e.assume(z3.And([t != c for c in CODES]))
    x = mk_int(z3.ZeroExt(W - 32, t), 0, (1 << 32) - 1)
    r.inputs[name] = ('int', x)
    return x


def is_registered_any(r, x):
    return x


# --------------------------------------------------------- class selection --
def select(code, fam, budget=30.0):
    """a registered type designates its class; outside its family it is rejected"""
    name = CODES[code]
    r = FRun(f'{code} as {fam}', 'class of a registered type', budget)
    S = r.S

    def fn():
        r.inputs['unit'] = ('const', ['select', code, fam])
        return r.I.call(rec().getStandardVariableClass, (code, family(fam)))

    def outcome(kind, val):
        r.completed += 1
        if name in BASES[fam]:
            if kind == 'exc':
                return r.fail('the class registered for the type', repr(val)[:200])
            return r.check(val is S.cls_of(name), 'the class registered for the type', repr(val)[:200])
        r.check(kind == 'exc', 'a type outside the family is rejected', repr(val)[:200])
    r.explore(fn, outcome)
    return r.result()


def select_unknown(fam, budget=30.0):
    r = FRun(f'unregistered as {fam}', 'class of an unregistered type', budget)

    def fn():
        r.inputs['unit'] = ('const', ['select-unknown', fam])
        x = sym_type(r)
        f = family(fam)
        c = r.I.call(rec().getStandardVariableClass, (x, f))
        o = r.I.call(c, ())
        return x, f, o

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail('an unregistered type is accepted', repr(val)[:200])
        x, f, o = val
        r.check(isinstance(o, f), 'the placeholder is a record of the family')
        r.check(to_bv(r.I.getattr(o, 'recordType')) == to_bv(x), 'the placeholder has the record type')
    r.explore(fn, outcome)
    return r.result()


# ------------------------------------------------------------ one record ----
def parse_unknown(fam, budget=60.0):
    """returns iff the declared length is a multiple of 8, covers its header and is
    there; then holds exactly those octets, consumes exactly them, and writes them back"""
    r = FRun(f'unregistered as {fam}', 'parse an unregistered record', budget)
    e, S, I = r.e, r.S, r.I

    def fn():
        r.inputs['unit'] = ('const', ['parse-unknown', fam])
        x = sym_type(r)
        n = r.int_('length', 0, 65535)
        body = r.tail('body', 1 << 17)
        hdr = be(to_bv(x), 4) + be(to_bv(n), 2)
        buf, st = source(r, hdr + [body])
        try:
            o = I.call(dis7().parseStandardVariableRecord, (st, family(fam)))
        except PyExc as ex:
            return ex.exc, None, x, n, body, buf, hdr, None, None
        size = call(r, o, 'marshalledSize')
        out, so = sink(r)
        call(r, o, 'serialize', so)
        return None, o, x, n, body, buf, hdr, size, out

    def outcome(kind, val):
        if kind == 'exc':
            r.completed += 1
            return r.fail('writing a record that was read raises nothing', repr(val)[:200])
        r.completed += 1
        ex, o, x, n, body, buf, hdr, size, out = val
        fits = z3.And(to_bv(n) >= 6, z3.URem(to_bv(n), z3.BitVecVal(8, W)) == 0, to_bv(n) - 6 <= to_bv(body.len))
        if ex is not None:
            return r.prove(z3.Not(fits), 'a well-formed unregistered record is accepted', repr(ex)[:200])
        if not r.prove(fits, 'a malformed declared length is rejected'):
            return
        first = Blob(body.base, body.off, n - 6)
        rest = Blob(body.base, body.off + (n - 6), body.len - (n - 6))
        r.posts(lambda: S.chunks_eq(buf.chunks, [rest], 'octets left for what follows'))
        r.check(isinstance(o, family(fam)), 'the record is one of the family')
        r.check(to_bv(I.getattr(o, 'recordType')) == to_bv(x), 'record type kept')
        r.check(to_bv(size) == to_bv(n), 'marshalledSize')
        r.posts(lambda: S.chunks_eq(out.chunks[1:], hdr + [first], 'octets written back'))
    r.explore(fn, outcome)
    return r.result()


def parse_known(code, fam, budget=60.0):
    """a registered record with its declared length: class, values, octets consumed"""
    name = CODES[code]
    r = FRun(f'{name} as {fam}', 'parse a registered record', budget, codec=True)
    e, S, I = r.e, r.S, r.I
    lay = LY.layout(name)

    def fn():
        r.inputs['unit'] = ('const', ['parse-known', code, fam])
        v = S.sym_view(lay)
        for c in S.constraints(lay, v):
            e.assume(c)
        r.inputs['view'] = ('view', v)
        tail = r.tail()
        buf, st = source(r, S.sv_header(v) + [Rec(v.cls, v), tail])
        return v, I.call(dis7().parseStandardVariableRecord, (st, family(fam))), buf, tail

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail('a well-formed registered record is accepted', repr(val)[:200])
        v, o, buf, tail = val
        if type(o) is not v.cls:
            return r.fail('class of the record', type(o).__name__)

        def post():
            try:
                got = S.abstract(o)
            except Mismatch as ex:
                return e.fail('field values', str(ex))
            a = S.veq(got, v, 'field values')
            return S.chunks_eq(buf.chunks, [tail], 'octets consumed') and a
        r.posts(post)
    r.explore(fn, outcome)
    return r.result()


def parse_wrong(code, fam, budget=60.0):
    """a declared length that is not the length of the record's encoding is rejected"""
    name = CODES[code]
    r = FRun(f'{name} as {fam}', 'declared length that does not match', budget, codec=True)
    e, S, I = r.e, r.S, r.I
    lay = LY.layout(name)

    def fn():
        r.inputs['unit'] = ('const', ['parse-wrong', code, fam])
        v = S.sym_view(lay)
        for c in S.constraints(lay, v):
            e.assume(c)
        r.inputs['view'] = ('view', v)
        n = r.int_('length', 0, 65535)
        e.assume(to_bv(n) != to_bv(I.models.chunks_len(S.enc(v)) + 6))
        buf, st = source(r, be(z3.BitVecVal(code, W), 4) + be(to_bv(n), 2) + S.enc(v) + [r.tail()])
        o = I.call(dis7().parseStandardVariableRecord, (st, family(fam)))
        return o

    def outcome(kind, val):
        r.completed += 1
        r.check(kind == 'exc', 'a declared length that does not match is rejected', 'accepted')
    r.explore(fn, outcome)
    return r.result()


# ------------------------------------------------------------ sequences -----
CONTAINERS = {
    'StandardVariableSpecification': ('standardVariables', 'StandardVariableRecord'),
    'TransmitterPdu': ('variableTransmitterParameters', 'VariableTransmitterParametersRecord'),
    'DirectedEnergyFirePdu': ('dERecords', 'DamageDescriptionRecord'),
    'EntityDamageStatusPdu': ('damageDescriptions', 'DamageDescriptionRecord'),
}
SEQS = ['U', 'UK', 'KU', 'UUK', 'KUK', 'UKKU']


def sequence(cont, seq, budget=90.0):
    """records of both kinds in a container: written, parsed, all kept in order"""
    attr, fam = CONTAINERS[cont]
    r = FRun(f'{cont} {seq}', 'mixed records round trip', budget, codec=True)
    e, S, I = r.e, r.S, r.I
    cls = S.cls_of(cont)
    r.C.target = cls
    lay = LY.layout(cont)
    known = [n for n in BASES[fam] if n != 'DirectedEnergyAreaAimpoint']

    def fn():
        r.inputs['unit'] = ('const', ['sequence', cont, seq])
        v = S.sym_view(lay)
        for c in S.constraints(lay, v):
            e.assume(c)
        v.attrs[attr] = LView([])
        r.inputs['view'] = ('view', v)
        o = S.realize(v)
        items = []
        want = []
        for j, ch in enumerate(seq):
            if ch == 'U':
                x = sym_type(r, f'rtype{j}')
                b = r.tail(f'data{j}', 4096)
                e.assume(z3.URem(to_bv(b.len) + 6, z3.BitVecVal(8, W)) == 0)
                c = I.call(rec().getStandardVariableClass, (x, family(fam)))
                u = I.call(c, (), {'data': mk_bytes([b])})
                items.append(u)
                want.append(('U', x, b))
            else:
                k = S.sym_view(LY.layout(known[j % len(known)]), path=f'rec{j}')
                for cc in S.constraints(LY.layout(known[j % len(known)]), k):
                    e.assume(cc)
                r.inputs[f'rec{j}'] = ('view', k)
                items.append(S.realize(k))
                want.append(('K', k, None))
        I.setattr(o, attr, e.born(items))
        out, so = sink(r)
        call(r, o, 'serialize', so)
        tail = r.tail()
        buf, st = source(r, out.chunks[1:] + [tail])
        p = I.instantiate(cls, (), {})
        call(r, p, 'parse', st)
        return v, want, p, buf, tail

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail('writing and reading the records raises nothing', repr(val)[:200])
        v, want, p, buf, tail = val
        got = I.concrete_items(I.getattr(p, attr))
        if len(got) != len(want):
            return r.fail('number of records', f'{len(got)} instead of {len(want)}')
        for j, (g, (k, a, b)) in enumerate(zip(got, want)):
            if k == 'U':
                r.check(to_bv(I.getattr(g, 'recordType')) == to_bv(a), f'record {j}: type')
                r.posts(lambda: S.chunks_eq(bytes_chunks(I.getattr(g, 'data')), [b], f'record {j}: octets'))
            elif type(g) is not a.cls:
                r.fail(f'record {j}: class', type(g).__name__)
            else:
                r.posts(lambda: S.veq(S.abstract(g), a, f'record {j}'))
        r.posts(lambda: S.chunks_eq(buf.chunks, [tail], 'octets left'))
    r.explore(fn, outcome)
    return r.result()


RUNS = {'select': select, 'select_unknown': select_unknown, 'parse_unknown': parse_unknown,
        'parse_known': parse_known, 'parse_wrong': parse_wrong, 'sequence': sequence}


def jobs():
    out = []
    for f in BASES:
        out += [('select_unknown', f), ('parse_unknown', f)]
        for c, n in CODES.items():
            out.append(('select', c, f))
            if n in BASES[f]:
                out += [('parse_known', c, f), ('parse_wrong', c, f)]
    return out + [('sequence', c, s) for c in CONTAINERS for s in SEQS]


def run(kind, args, budget):
    return RUNS[kind](*args, budget=budget)
