"""Frozen object views: the abstraction of a heap object used in loop segments,
record chunks and postconditions."""
import z3
from . import sym
from .attrs import attrs, has_attrs
from .sym import (Unsupported, SymInt, SymBool, SymFloat, SymBytes, SymStr, Seg, OpaqueSeg, Rec, Blob, Rest,
                  Poison, CStruct, SymReal, W, mk_int, mk_bool, is_byte, norm_byte, to_bv)


class View:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def __repr__(self):
        return f'<View {self.cls.__name__} {self.attrs}>'


class LView:
    __slots__ = ('items', 'tp')

    def __init__(self, items, tp=list):
        self.items, self.tp = items, tp


class Ref:
    """reference to an object that existed before (identity matters)"""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj


def _atomic(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, SymInt, SymBool, SymFloat, SymBytes,
                                       SymStr, Poison, SymReal, type, complex))


def freeze(interp, v, since=None, depth=0):
    """since: only objects born after this serial are frozen by value; older
    ones become Ref"""
    if depth > 12:
        raise Unsupported('object graph too deep')
    if _atomic(v):
        return v
    e = interp.e
    if since is not None and e.born_at(v) <= since and not isinstance(v, tuple):
        if e.born_at(v) == 0 and type(v).__name__ in ('Gen', 'IFunc', 'BoundModel', 'method', 'SymSet', 'SymArray',
                                                      'partial', 'ListIter'):
            raise Unsupported(f'{type(v).__name__} of one iteration kept')
        return Ref(v)
    if isinstance(v, (list, tuple)):
        return LView([x if isinstance(x, Seg) else freeze(interp, x, since, depth + 1) for x in v], type(v))
    if isinstance(v, CStruct):
        return View(v.cls, dict(v.vals))
    if isinstance(v, (View, LView, Ref)):
        return v
    if interp.in_package(type(v)) and has_attrs(v):
        return View(type(v), {k: freeze(interp, x, since, depth + 1) for k, x in attrs(v).items()})
    if since is not None:
        raise Unsupported(f'{type(v).__name__} of one iteration kept')
    return Ref(v)


def thaw(interp, v):
    e = interp.e
    if isinstance(v, Ref):
        return v.obj
    if isinstance(v, LView):
        out = [x if isinstance(x, Seg) else thaw(interp, x) for x in v.items]
        return tuple.__new__(v.tp, out) if issubclass(v.tp, tuple) else e.born(out)
    if isinstance(v, View):
        import ctypes
        if issubclass(v.cls, ctypes.Structure):
            return e.born(CStruct(v.cls, dict(v.attrs)))
        o = e.born(object.__new__(v.cls))
        d = attrs(o)
        for k, x in v.attrs.items():
            d[k] = thaw(interp, x)
        return o
    return v


def subst(v, k, t):
    if k is None or (z3.is_expr(t) and t.eq(k)):
        return v
    if isinstance(v, SymInt):
        return mk_int(z3.substitute(v.t, (k, t)), v.lo, v.hi)
    if isinstance(v, SymBool):
        return mk_bool(z3.substitute(v.t, (k, t)))
    if isinstance(v, SymFloat):
        return SymFloat(z3.simplify(z3.substitute(v.bits, (k, t))))
    if isinstance(v, SymBytes):
        return sym.mk_bytes([subst_chunk(c, k, t) for c in v.chunks])
    if isinstance(v, SymStr):
        return SymStr([subst(c, k, t) for c in v.cps])
    if isinstance(v, View):
        return View(v.cls, {n: subst(x, k, t) for n, x in v.attrs.items()})
    if isinstance(v, LView):
        return LView([subst_seg(x, k, t) if isinstance(x, Seg) else subst(x, k, t) for x in v.items], v.tp)
    return v


def mentions(t, v):
    from .engine import mentions as m
    return m(t, v)


def _alpha(seg, k, t):
    """rename seg's bound variable if substituting t would capture it"""
    if seg.k is None or not (z3.is_expr(t) and mentions(t, seg.k)):
        return seg
    d = 1
    while True:
        nk = z3.BitVec(f'k@{d}', W)
        if not mentions(t, nk) and not nk.eq(k):
            break
        d += 1
    return Seg(seg.n, nk, [(z3.substitute(c, (seg.k, nk)),
                            [subst_chunk(x, seg.k, nk) for x in p] if isinstance(p, list) else subst(p, seg.k, nk))
                           for c, p in seg.cases])


def subst_seg(s, k, t):
    """substitute in a list segment (payload = frozen element) or a chunk segment"""
    n = subst(s.n, k, t)
    if isinstance(s, OpaqueSeg):
        return OpaqueSeg(n)
    if s.k.eq(k):
        return s if n is s.n else type(s)(n, s.k, s.cases)
    s2 = _alpha(s, k, t)
    return Seg(n, s2.k, [(z3.substitute(c, (k, t)),
                          [subst_chunk(x, k, t) for x in p] if isinstance(p, list) else subst(p, k, t))
                         for c, p in s2.cases])


def subst_chunk(c, k, t):
    if isinstance(c, int):
        return c
    if is_byte(c):
        return norm_byte(z3.substitute(c, (k, t)))
    if isinstance(c, Seg):
        return subst_seg(c, k, t)
    if isinstance(c, Rec):
        return Rec(c.cls, subst(c.view, k, t))
    if isinstance(c, Blob):
        return Blob(c.base if not isinstance(c.base, KBase) else c.base.subst(k, t), subst(c.off, k, t),
                    subst(c.len, k, t))
    return c


class KBase:
    """byte array family indexed by outer loop variables: base(k.., i)"""

    def __init__(self, f, idx):
        self.f, self.idx = f, tuple(idx)

    def __call__(self, i):
        return self.f(*self.idx, i)

    def subst(self, k, t):
        return KBase(self.f, [z3.substitute(x, (k, t)) for x in self.idx])

    def __repr__(self):
        return f'{self.f}({self.idx})'


def select_case(interp, seg, idx):
    e = interp.e
    if len(seg.cases) == 1:
        return seg.cases[0][1]
    for cond, p in seg.cases[:-1]:
        if e.decide(z3.substitute(cond, (seg.k, idx)) if not idx.eq(seg.k) else cond):
            return p
    return seg.cases[-1][1]


def materialize(interp, seg, idx):
    """element idx of a list segment as a (fresh copy of the) object"""
    if isinstance(seg, OpaqueSeg):
        raise Unsupported('element of a list whose contents are not known here')
    p = select_case(interp, seg, idx)
    p = subst(p, seg.k, idx)
    v = thaw(interp, p)
    mark_materialized(interp, v)
    return v


def mark_materialized(interp, v):
    if has_attrs(v) and not isinstance(v, type):
        interp.e.flags.setdefault('materialized', {})[id(v)] = v
        for x in attrs(v).values():
            mark_materialized(interp, x)
    elif isinstance(v, list):
        interp.e.flags.setdefault('materialized', {})[id(v)] = v
        for x in v:
            if not isinstance(x, Seg):
                mark_materialized(interp, x)
