"""C09: constructor contracts.  For every class and every choice of which
arguments are given: each given argument is the value of the attribute it
names, each omitted one has its documented default (contracts/ctors.json)."""
import itertools
import z3
from .sym import (SymInt, SymFloat, SymBool, SymBytes, Seg, Blob, W, to_bv, PyExc, Unsupported, mk_int, mk_bytes)
from . import sym
from .funcs import FRun
from .spec import Mismatch, Ref, const_or_fun
from .views import View, LView
from contracts import layouts as LY
from contracts.ctors import CT, REQUIRED, BASES, kind_of

class Thing:
    """a caller's object of a kind the layouts do not describe"""


def is_ref(k):
    return k[0] not in ('scalar', 'bits')


def argument(r, S, name, p, k):
    """(value to pass, view)"""
    e = r.e
    path = f'{name}({p})'
    if k[0] == 'scalar':
        x = S.sym_scalar(path, k[1])
        r.inputs[p] = ('view', x)
        return x, x
    if k[0] == 'bits':
        x = SymBool(const_or_fun(path, (), 1) == 1) if k[2] else \
            mk_int(z3.ZeroExt(W - k[1], const_or_fun(path, (), k[1])), 0, (1 << k[1]) - 1)
        r.inputs[p] = ('view', x)
        return x, x
    if k[0] == 'nested':
        v = S.sym_view(LY.layout(k[1]), path)
        for c in S.constraints(LY.layout(k[1]), v):
            e.assume(c)
        r.inputs[p] = ('view', v)
        return S.realize(v), v
    if k[0] == 'list':
        v = S.sym_list(k[1], path)
        r.inputs[p] = ('view', v)
        return S.real_value(v), v
    if k[0] == 'fixed':
        v = LView([S.sym_scalar(f'{path}[{j}]', k[1].w) for j in range(k[1].n)])
        r.inputs[p] = ('view', v)
        return S.real_value(v), v
    if k[0] == 'bytes':
        b = r.tail(p, 4096)
        v = mk_bytes([b])
        return v, v
    if k[0] == 'things':
        l = e.born([Thing(), Thing()])
        r.inputs[p] = ('const', ['$things'])
        return l, None
    t = Thing()
    r.inputs[p] = ('const', '$thing')
    return t, None


def patterns(ps, refs, req):
    """sets of parameters to give"""
    if len(refs) <= 6:
        sub = [frozenset(c) for m in range(len(refs) + 1) for c in itertools.combinations(refs, m)]
        scal = frozenset(p for p in ps if p not in refs)
        out = [s | scal for s in sub]
    else:
        out = [frozenset(ps) - {p} for p in refs] + [frozenset({p}) for p in refs]
    out += [frozenset(ps), frozenset()]
    out += [frozenset({p}) for p in ps] + [frozenset(ps) - {p} for p in ps]
    return sorted({s | frozenset(req) for s in out}, key=lambda s: (len(s), sorted(s)))


def default_ok(r, S, o, attr, d, label):
    try:
        got = r.I.getattr(o, attr)
    except PyExc as ex:
        return r.fail(label, repr(ex.exc))
    if isinstance(d, dict) and 'class' in d:
        cls = S.cls_of(d['class'])
        if type(got) is not cls:
            return r.fail(label, f'a {type(got).__name__} instead of a {d["class"]}')
        if cls not in S.cls_layouts:
            return r.ok(label)
        want = S.abstract(r.I.instantiate(cls, (), {}))

        def post():
            try:
                return S.veq(S.abstract(got), want, label)
            except Mismatch as ex:
                return r.e.fail(label, str(ex))
        return r.posts(post)
    if isinstance(d, dict):
        d = bytes.fromhex(d['bytes'])
    if isinstance(d, list):
        if not isinstance(got, (list, tuple)):
            return r.fail(label, f'{type(got).__name__} instead of a list')
        got = list(got)
    if sym.has_sym([got]):
        return r.fail(label, 'depends on another argument')
    return r.check(type(got) in (type(d), bool, int, float) and got == d and
                   (d is not None or got is None), label, f'{got!r} instead of {d!r}')


def given_ok(r, S, o, attr, arg, view, label):
    try:
        got = r.I.getattr(o, attr)
    except PyExc as ex:
        return r.fail(label, repr(ex.exc))
    if got is arg:
        return r.ok(label)
    if view is None:
        if isinstance(arg, list) and isinstance(got, list):
            return r.check(len(got) == len(arg) and all(a is b for a, b in zip(got, arg)), label, 'other elements')
        return r.fail(label, f'{got!r} instead of the argument'[:200])

    def post():
        try:
            return S.veq(S.abs_value(got), view, label)
        except Mismatch as ex:
            return r.e.fail(label, str(ex))
    return r.posts(post)


def target(S, name):
    if name in BASES:
        return base_class(S, name)
    return S.cls_of(name)


def base_class(S, name):
    """these are abstract: a subclass that adds only its type"""
    import opendis.dis7 as d
    return type('Concrete' + name, (getattr(d, name),), {'pduType': 200, 'protocolFamily': 100,
                                                       '__module__': 'opendis.dis7'})


def ctor(name, budget=60.0):
    r = FRun(name, 'constructor', budget)
    S, e, I = r.S, r.e, r.I
    c = CT[name]
    cls = target(S, name)
    ps = [p for p, _ in c['params']]
    attr = dict(map(tuple, c['params']))
    kinds = {p: kind_of(name, attr[p], c['defaults'].get(attr[p])) for p in ps}
    refs = [p for p in ps if is_ref(kinds[p])]
    req = REQUIRED.get(name, ())
    for pat in patterns(ps, refs, req):
        def fn():
            r.inputs['unit'] = ('const', name)
            args = {p: argument(r, S, name, p, kinds[p]) for p in ps if p in pat}
            return args, I.instantiate(cls, (), {p: a for p, (a, v) in args.items()})

        def outcome(kind, val):
            r.completed += 1
            if kind == 'exc':
                return r.fail(f'{name}({", ".join(sorted(pat))}) is accepted', repr(val)[:200])
            args, o = val
            for p in ps:
                if p in pat:
                    given_ok(r, S, o, attr[p], *args[p], f'{name}({p}=...).{attr[p]}')
                elif attr[p] in c['defaults']:
                    default_ok(r, S, o, attr[p], c['defaults'][attr[p]], f'{name}().{attr[p]}')
        r.explore(fn, outcome)
        if r.reason:
            break
    return r.result()


def missing(name, budget=20.0):
    """PduSuperclass needs a type and a family from somewhere"""
    r = FRun(name, 'required arguments', budget)
    for drop in REQUIRED[name]:
        def fn():
            r.inputs['unit'] = ('const', name)
            return r.I.instantiate(r.S.cls_of(name), (), {p: 1 for p in REQUIRED[name] if p != drop})

        def outcome(kind, val):
            r.completed += 1
            r.check(kind == 'exc', f'{name}() without {drop} is rejected')
        r.explore(fn, outcome)
    return r.result()


def jobs():
    return [('ctor', n) for n in CT] + [('missing', n) for n in REQUIRED]


def run(kind, args, budget):
    return {'ctor': ctor, 'missing': missing}[kind](*args, budget=budget)
