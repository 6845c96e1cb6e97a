"""Specification side of the contracts: abstract views of records and PDUs, the
abstract encoding enc(view) derived from contracts/layouts.py, and structural
equality of views and encodings (which generates the proof obligations)."""
import z3
from . import sym
from .sym import (Unsupported, PyExc, SymInt, SymBool, SymFloat, SymBytes, SymStr, Seg, OpaqueSeg, Rec, Blob, Rest,
                  Poison, CStruct, SymReal, W, mk_int, mk_bool, mk_bytes, is_byte, norm_byte, to_bv, ivl, byte_term,
                  byte_to_int, int_to_byte, bytes_chunks, to_z3bool)
from .views import View, LView, Ref, KBase, freeze, thaw, subst, subst_chunk, _alpha
from contracts import layouts as LY

BV = z3.BitVecSort
TRUE = z3.BoolVal(True)
WIDE = 72


class Mismatch(Exception):
    pass


def const_or_fun(name, kargs, bits):
    if not kargs:
        return z3.BitVec(name, bits)
    f = z3.Function(name, *([BV(W)] * len(kargs)), BV(bits))
    return f(*kargs)


class Spec:
    def __init__(self, interp):
        self.i = interp
        self.e = interp.e
        self.cls_layouts = {}
        for name, ls in LY.L.items():
            c = LY.find_class(name)
            if c is not None:
                self.cls_layouts[c] = ls
        self.count_loops = 0
        self.nocap = False
        self._real_cache = {}
        interp.expand_rec = self.expand_rec

    # ------------------------------------------------------------- symbols --
    def cls_of(self, name):
        c = LY.find_class(name)
        if c is None:
            raise Unsupported(f'class {name} not found')
        return c

    def sym_int(self, name, w, kargs=(), wide=False):
        n, s = LY.INT[w]
        if wide:
            t = const_or_fun(name, kargs, WIDE)
            return mk_int(z3.SignExt(W - WIDE, t), -(1 << (WIDE - 1)), (1 << (WIDE - 1)) - 1)
        t = const_or_fun(name, kargs, 8 * n)
        lo, hi = LY.int_range(w)
        return mk_int((z3.SignExt if s else z3.ZeroExt)(W - 8 * n, t), lo, hi)

    def sym_scalar(self, name, w, kargs=(), wide=False):
        if w in LY.FLT:
            return SymFloat(const_or_fun(name, kargs, 8 * LY.FLT[w]))
        return self.sym_int(name, w, kargs, wide)

    def sym_len(self, name, cap, kargs=()):
        """a length in 0..cap"""
        b = max(cap.bit_length(), 1)
        t = z3.ZeroExt(W - b, const_or_fun(name, kargs, b))
        if cap != (1 << b) - 1:
            t = z3.If(z3.UGT(t, z3.BitVecVal(cap, W)), z3.BitVecVal(cap, W), t)
        return mk_int(t, 0, cap)

    # --------------------------------------------------------------- views --
    def sym_view(self, lay, path=None, kargs=(), depth=0, wide=False, inwide=False):
        """an arbitrary in-domain view (wide: own integer fields unrestricted)"""
        path = path or lay.name
        cls = self.cls_of(lay.name)
        A = {}
        caps = {}
        for t in lay.toks:
            if t.kind == 'count':
                caps[t.lst] = ((1 << 34) if wide else LY.max_count(t, self.nocap), t)
        late = []
        for t in lay.toks:
            p = f'{path}.{t.attr}'
            if t.kind == 'scalar':
                A[t.attr] = self.sym_scalar(p, t.w, kargs, wide)
            elif t.kind == 'const':
                A[t.attr] = t.value
            elif t.kind == 'none':
                A[t.attr] = None
            elif t.kind == 'nested':
                A[t.attr] = self.sym_view(LY.layout(t.cls), p, kargs, depth, False, inwide or wide)
            elif t.kind == 'bits':
                for name, bits, isb in t.fields:
                    if name == '_':
                        continue
                    if isb:
                        A[name] = SymBool(const_or_fun(f'{path}.{name}', kargs, 1) == 1)
                    elif wide:
                        A[name] = self.sym_int(f'{path}.{name}', 'u8', kargs, True)
                    else:
                        x = const_or_fun(f'{path}.{name}', kargs, bits)
                        A[name] = mk_int(z3.ZeroExt(W - bits, x), 0, (1 << bits) - 1)
            elif t.kind == 'fixed':
                A[t.attr] = LView([self.sym_scalar(f'{p}[{j}]', t.w, kargs, wide) for j in range(t.n)])
            elif t.kind == 'bytes':
                cap = (1 << 24) - 1 if (inwide or wide) else 65535
                n = self.sym_len(f'{p}#', cap, kargs)
                base = z3.Function(f'{p}[]', *([BV(W)] * (len(kargs) + 1)), BV(8))
                A[t.attr] = SymBytes([Blob(KBase(base, kargs) if kargs else base, 0, n)])
            elif t.kind == 'list':
                late.append(t)
        for t in late:
            p = f'{path}.{t.attr}'
            if t.bitlen:
                n = A[t.bitlen]
                if wide:
                    n = mk_int(z3.If(n.t < 0, 0, z3.If(n.t > z3.BitVecVal(1 << 34, W), z3.BitVecVal(1 << 34, W),
                                                       n.t)), 0, 1 << 34)
                n = (n + 7) // 8
            else:
                n = self.sym_len(f'{p}#', caps[t.attr][0], kargs)
            k = z3.BitVec(f'k@{depth}', W)
            if t.scalar:
                A[t.attr] = LView([Seg(n, k, [(TRUE, self.sym_scalar(f'{p}[]', t.elem, kargs + (k,), wide))])])
            else:
                cases = []
                for j, en in enumerate(t.elem):
                    v = self.sym_view(LY.layout(en), f'{p}[]' + (f'<{en}>' if len(t.elem) > 1 else ''),
                                      kargs + (k,), depth + 1)
                    if len(t.elem) > 1:
                        kind = z3.Function(f'{p}[]?', *([BV(W)] * (len(kargs) + 1)), BV(8))(*kargs, k)
                        last = j == len(t.elem) - 1
                        c = z3.UGE(kind, j) if last else kind == j
                    else:
                        c = TRUE
                    cases.append((c, v))
                A[t.attr] = LView([Seg(n, k, cases)])
        for t in lay.toks:
            if t.kind == 'count' and t.store:
                A[t.store] = self.list_len(A[t.lst]) * t.mul + t.add
        return View(cls, A)

    def sym_list(self, t, path):
        """an arbitrary list for a list token"""
        n = self.sym_len(f'{path}#', 4096)
        k = z3.BitVec('k@0', W)
        if t.scalar:
            return LView([Seg(n, k, [(TRUE, self.sym_scalar(f'{path}[]', t.elem, (k,)))])])
        return LView([Seg(n, k, [(TRUE, self.sym_view(LY.layout(t.elem[0]), f'{path}[]', (k,), 1))])])

    def constraints(self, lay, view):
        if lay.constraint is None:
            return []
        return [to_z3bool(c) for c in lay.constraint(lambda p: self.path(view, p))]

    def path(self, view, p):
        ln = p[0] == '#'
        v = view
        for n in p.lstrip('#').split('.'):
            v = v.attrs[n]
        return self.i.models.length(v) if ln else v

    def list_len(self, v):
        if isinstance(v, LView):
            return self.i.models.length(v.items)
        if isinstance(v, (bytes, bytearray)):
            return len(v)
        return self.i.models.length(v)

    def layout_for(self, cls, attrs):
        ls = self.cls_layouts.get(cls)
        if ls is None:
            return None
        for l in ls:
            ok = True
            for t in l.toks:
                if t.kind == 'none' and attrs.get(t.attr) is not None:
                    ok = False
                if t.kind == 'nested' and (not isinstance(attrs.get(t.attr), View) or
                                           attrs[t.attr].cls.__name__ != t.cls):
                    ok = False
            if ok:
                return l
        return None

    # ------------------------------------------------------------- realize --
    def realize(self, view, target_attrs=None):
        """a heap object (built by the class's own constructor) with this view"""
        I = self.i
        o = I.instantiate(view.cls, (), {})
        self.fill(o, view)
        return o

    def fill(self, o, view):
        for a, v in view.attrs.items():
            self.put(o, a, self.real_value(v))

    def real_value(self, v):
        if isinstance(v, View):
            return self.realize(v)
        if isinstance(v, LView):
            return self.e.born(self.real_items(v.items))
        return v

    def real_items(self, items):
        out = []
        for x in items:
            if isinstance(x, Seg):
                out.append(Seg(x.n, x.k, [(c, self.heap_view(p)) for c, p in x.cases]))
            else:
                out.append(self.real_value(x))
        return out

    def heap_view(self, p):
        if isinstance(p, View):
            hit = self._real_cache.get(id(p))
            if hit is not None and hit[0] is p:
                return hit[1]
            d = self.e.kdepth
            hv = freeze(self.i, self.realize(p))
            self._real_cache[id(p)] = (p, hv)
            return hv
        return p

    def put(self, o, a, v):
        I = self.i
        parts = a.split('.')
        for n in parts[:-1]:
            o = I.getattr(o, n)
        n = parts[-1]
        try:
            I.setattr(o, n, v)
        except PyExc as ex:
            if isinstance(v, list) and isinstance(ex.exc, AttributeError):
                l = I.getattr(o, n)
                if type(l) is list:
                    I.snapshot(l)
                    l[:] = v
                    return
            raise

    def get(self, o, a):
        for n in a.split('.'):
            o = self.i.getattr(o, n)
        return o

    # ------------------------------------------------------------ abstract --
    def abstract(self, o):
        """declared-attribute view of a heap object"""
        cls = type(o)
        ls = self.cls_layouts.get(cls)
        if ls is None:
            return Ref(o)
        A = {}
        names = []
        for l in ls:
            for a in l.attrs():
                if a not in names:
                    names.append(a)
        for a in names:
            try:
                v = self.get(o, a)
            except PyExc as ex:
                raise Mismatch(f'{cls.__name__} has no attribute {a}: {ex.exc!r}')
            A[a] = self.abs_value(v)
        return View(cls, A)

    def abs_value(self, v):
        if type(v) in (list, tuple):
            return LView([self.abs_seg(x) if isinstance(x, Seg) else self.abs_value(x) for x in v])
        if type(v) in self.cls_layouts:
            return self.abstract(v)
        if isinstance(v, bytearray):
            return bytes(v)
        return v

    def abs_seg(self, s):
        if isinstance(s, OpaqueSeg):
            raise Unsupported('opaque list')
        out = []
        for c, p in s.cases:
            if isinstance(p, (View, LView, Ref)):
                o = thaw(self.i, p)
                out.append((c, self.abs_value(o)))
            else:
                out.append((c, p))
        return Seg(s.n, s.k, out)

    # ------------------------------------------------------------- checks --
    def well_typed(self, view, top=True):
        """True if every field of the view is of the declared kind and in range"""
        lay = self.layout_for(view.cls, view.attrs)
        if lay is None:
            return False
        caps = {t.lst: LY.max_count(t, self.nocap) for t in lay.toks if t.kind == 'count'}
        for t in lay.toks:
            v = view.attrs.get(t.attr) if t.attr else None
            if t.kind == 'scalar':
                if not self.scalar_ok(v, t.w):
                    return False
            elif t.kind == 'const':
                if not (isinstance(v, int) and v == t.value):
                    return False
            elif t.kind == 'nested':
                if not isinstance(v, View) or not self.well_typed(v, False):
                    return False
            elif t.kind == 'bits':
                for name, bits, isb in t.fields:
                    if name == '_':
                        continue
                    x = view.attrs.get(name)
                    if isb and not isinstance(x, (bool, SymBool)):
                        return False
                    if not isb and not (isinstance(x, (int, SymInt)) and self.within(x, 0, (1 << bits) - 1)):
                        return False
            elif t.kind == 'fixed':
                if not isinstance(v, LView) or len(v.items) != t.n or \
                        not all(self.scalar_ok(x, t.w) for x in v.items):
                    return False
            elif t.kind == 'bytes':
                if not isinstance(v, (bytes, SymBytes)):
                    return False
            elif t.kind == 'list':
                if not isinstance(v, LView):
                    return False
                n = self.list_len(v)
                if t.attr in caps and not self.within(n, 0, caps[t.attr]):
                    return False
                if t.bitlen and not self.i.models._eq(n, (view.attrs[t.bitlen] + 7) // 8):
                    return False
                for x in v.items:
                    for y in ([p for _, p in x.cases] if isinstance(x, Seg) else [x]):
                        if t.scalar:
                            if not self.scalar_ok(y, t.elem):
                                return False
                        elif not isinstance(y, View) or y.cls.__name__ not in t.elem or not self.well_typed(y, False):
                            return False
        for t in lay.toks:
            if t.kind == 'size':
                v = view.attrs.get(t.of)
                n = 0 if v is None else self.i.models.chunks_len(self.enc(v))
                if not self.within(n, 0, LY.int_range(t.w)[1]):
                    return False
        if lay.constraint is not None:
            if not all(self.e.implied(c) for c in self.constraints(lay, view)):
                return False
        return True

    def within(self, v, lo, hi):
        a, b = ivl(v)
        if lo <= a and b <= hi:
            return True
        if isinstance(v, SymInt) and not (b < lo or a > hi):
            return self.e.implied(z3.And(v.t >= z3.BitVecVal(lo, W), v.t <= z3.BitVecVal(hi, W)))
        return False

    def scalar_ok(self, v, w):
        if w in LY.FLT:
            if isinstance(v, SymFloat):
                return v.width == 8 * LY.FLT[w]
            if type(v) in (int, float):
                import struct
                try:
                    return struct.unpack('>f', struct.pack('>f', v))[0] == v if w == 'f32' else True
                except Exception:
                    return False
            return False
        if isinstance(v, bool) or not isinstance(v, (int, SymInt)):
            return False
        return self.within(v, *LY.int_range(w))

    # ------------------------------------------------------------ encoding --
    def enc_int(self, v, w):
        n = LY.SIZE[w]
        if isinstance(v, SymBool):
            v = v.as_int()
        t = to_bv(v)
        return [norm_byte(z3.Extract(8 * j + 7, 8 * j, t)) for j in range(n - 1, -1, -1)]

    def enc_scalar(self, v, w):
        if w in LY.FLT:
            return self.i.models.pack_float(v, LY.FLT[w])
        return self.enc_int(v, w)

    def enc(self, view):
        """chunks of the (body) encoding of a view"""
        lay = self.layout_for(view.cls, view.attrs)
        if lay is None:
            raise Unsupported(f'no layout for {view.cls.__name__}')
        A = view.attrs
        M = self.i.models
        out = []
        marks = {}
        for t in lay.toks:
            if t.kind == 'scalar':
                out += self.enc_scalar(A[t.attr], t.w)
            elif t.kind == 'const':
                out += self.enc_int(t.value, t.w)
            elif t.kind == 'nested':
                out += self.rec_chunks(A[t.attr])
            elif t.kind == 'count':
                out += self.enc_int(self.list_len(A[t.lst]) * t.mul + t.add, t.w)
            elif t.kind == 'size':
                v = A[t.of]
                n = 0 if v is None else M.chunks_len(self.enc(v))
                out += self.enc_int(n, t.w)
            elif t.kind == 'bits':
                acc, tot, used = 0, 8 * t.n, 0
                for name, bits, isb in t.fields:
                    used += bits
                    if name == '_':
                        continue
                    x = A[name]
                    if isinstance(x, SymBool):
                        x = x.as_int()
                    acc = acc | (int(x) if isinstance(x, bool) else x) << (tot - used)
                out += [norm_byte(z3.Extract(8 * j + 7, 8 * j, to_bv(acc))) for j in range(t.n - 1, -1, -1)]
            elif t.kind == 'fixed':
                for x in A[t.attr].items:
                    out += self.enc_scalar(x, t.w)
            elif t.kind == 'bytes':
                out += bytes_chunks(A[t.attr])
            elif t.kind == 'reserved':
                out += [0] * t.n
            elif t.kind == 'list':
                marks[t.attr] = len(out)
                for x in A[t.attr].items:
                    if isinstance(x, Seg):
                        out.append(Seg(x.n, x.k, [(c, self.enc_scalar(p, t.elem) if t.scalar else
                                                   self.elem_chunks(p)) for c, p in x.cases]))
                    else:
                        out += self.enc_scalar(x, t.elem) if t.scalar else self.elem_chunks(x)
            elif t.kind == 'pad':
                if t.lst == 'size':
                    n = M.chunks_len(out) + (6 if lay.sv else 0)
                else:
                    n = M.chunks_len(out[marks[t.lst]:])
                pad = (-n) % t.mult
                if isinstance(pad, int):
                    out += [0] * pad
                else:
                    out.append(Seg(pad, z3.BitVec(f'k@{self.e.kdepth + 8}', W), [(TRUE, [0])]))
        return out

    def elem_chunks(self, v):
        return self.sv_header(v) + [Rec(v.cls, v)]

    def rec_chunks(self, v):
        return self.sv_header(v) + [Rec(v.cls, v)]

    def sv_type(self, cls):
        ls = self.cls_layouts.get(cls)
        return ls[0].sv if ls else None

    def sv_header(self, v):
        t = self.sv_type(v.cls)
        if t is None:
            return []
        n = self.i.models.chunks_len(self.enc(v)) + 6
        return self.enc_int(t, 'u32') + self.enc_int(n, 'u16')

    def expand_rec(self, r):
        return self.enc(r.view)

    # ------------------------------------------------------------- equality --
    def veq(self, got, want, label, func=''):
        """prove got == want (view level); returns True iff all obligations hold"""
        e = self.e
        if isinstance(want, View):
            if not isinstance(got, View) or got.cls is not want.cls:
                return e.fail(label, f'{label}: expected a {want.cls.__name__}, found {short(got)}', func)
            ok = True
            for a, w in want.attrs.items():
                if a not in got.attrs:
                    ok &= e.fail(f'{label}.{a}', 'attribute missing', func)
                    continue
                ok &= self.veq(got.attrs[a], w, f'{label}.{a}', func)
            return ok
        if want is None:
            return e.ok(label, func) if got is None else e.fail(label, f'expected None, found {short(got)}', func)
        if isinstance(want, LView):
            if not isinstance(got, LView):
                if isinstance(got, (SymBytes, bytes)):
                    got = LView(self.i.loops.parts(got))
                else:
                    return e.fail(label, f'expected a list, found {short(got)}', func)
            return self.items_eq(list(got.items), list(want.items), label, func)
        if isinstance(want, (SymBytes, bytes)):
            if isinstance(got, LView):
                got = mk_bytes(self.i.models.seq_to_chunks(got.items))
            if not isinstance(got, (SymBytes, bytes)):
                return e.fail(label, f'expected bytes, found {short(got)}', func)
            return self.chunks_eq(bytes_chunks(got), bytes_chunks(want), label, func)
        if isinstance(want, (SymFloat, float)) and not isinstance(want, bool):
            return self.float_eq(got, want, label, func)
        if isinstance(want, (SymInt, int, SymBool)):
            if isinstance(got, Poison):
                raise Unsupported(f'{label}: {got.why}')
            if not isinstance(got, (int, SymInt, SymBool)):
                return e.fail(label, f'expected an integer, found {short(got)}', func)
            isb = isinstance(want, (bool, SymBool))
            if isb and isinstance(got, (bool, SymBool)):
                return e.prove(to_z3bool(got) == to_z3bool(want), label, func)
            g, w = (x.as_int() if isinstance(x, SymBool) else x for x in (got, want))
            r = (g == w)
            return e.prove(r, label, func)
        if isinstance(want, Ref):
            return e.ok(label, func) if isinstance(got, Ref) and got.obj is want.obj else \
                e.fail(label, 'identity', func)
        raise Unsupported(f'comparison with {want!r}')

    def float_eq(self, got, want, label, func):
        e = self.e
        if isinstance(got, Poison):
            raise Unsupported(f'{label}: {got.why}')
        if isinstance(got, SymFloat) and isinstance(want, SymFloat):
            if got.width == want.width:
                return e.prove(got.bits == want.bits, label, func)
            return e.prove(z3.fpToIEEEBV(got.fp()) == z3.fpToIEEEBV(want.fp()), label, func)
        if type(got) in (float, int) and isinstance(want, float):
            return e.prove(z3.BoolVal(float(got) == want), label, func)
        if type(got) in (float, int) and isinstance(want, SymFloat):
            return e.prove(want.fp() == z3.FPVal(float(got), sym.F64), label, func)
        if isinstance(got, SymFloat) and isinstance(want, float):
            return e.prove(got.fp() == z3.FPVal(want, sym.F64), label, func)
        return e.fail(label, f'expected a float, found {short(got)}', func)

    def items_eq(self, G, Wn, label, func):
        e = self.e
        j = 0
        while G or Wn:
            G = self.drop_empty(G)
            Wn = self.drop_empty(Wn)
            if not G and not Wn:
                break
            if not G or not Wn:
                rest = G or Wn
                if isinstance(rest[0], Seg) and not isinstance(rest[0], OpaqueSeg):
                    return e.prove(to_bv(rest[0].n) == 0, f'{label} length', func)
                return e.fail(f'{label} length', 'different number of elements', func)
            g, w = G[0], Wn[0]
            if isinstance(g, Seg) and isinstance(w, Seg):
                if not self.seg_eq(g, w, f'{label}[]', func, False):
                    return False
            elif not isinstance(g, Seg) and not isinstance(w, Seg):
                if not self.veq(g, w, f'{label}[{j}]', func):
                    return False
            else:
                raise Unsupported(f'{label}: list shapes differ')
            G, Wn = G[1:], Wn[1:]
            j += 1
        return e.ok(f'{label} length', func)

    def drop_empty(self, cs):
        while cs and isinstance(cs[0], Seg) and (cs[0].n == 0 if isinstance(cs[0].n, int) else
                                                 cs[0].n.lo == 0 and self.e.implied(to_bv(cs[0].n) == 0)):
            cs = cs[1:]
        while cs and isinstance(cs[0], Blob) and (cs[0].len == 0 if isinstance(cs[0].len, int) else
                                                  self.e.implied(to_bv(cs[0].len) == 0)):
            cs = cs[1:]
        return cs

    def seg_eq(self, g, w, label, func, chunks):
        e = self.e
        if isinstance(g, OpaqueSeg) or isinstance(w, OpaqueSeg):
            raise Unsupported('opaque segment')
        if not e.prove(to_bv(g.n) == to_bv(w.n), f'{label} count', func):
            return False
        k = z3.BitVec(f'k@{e.kdepth}', W)
        # a bound variable of a nested segment never occurs free here, so the
        # canonical variable of the current depth can serve as the index
        fk = e.fresh('ix', BV(W))
        gs = self._at(g, fk, chunks)
        ws = self._at(w, fk, chunks)
        ok = True
        for gc, gp in gs:
            for wc, wp in ws:
                e.solver.push()
                n0 = len(e.pc)
                try:
                    for c in (fk >= 0, fk < to_bv(g.n), gc, wc):
                        e.pc.append(c)
                        e.solver.add(c)
                    if e.check() == z3.unsat:
                        continue
                    if chunks:
                        ok &= self.chunks_eq(gp, wp, label, func)
                    else:
                        ok &= self.veq(gp, wp, label, func)
                finally:
                    e.solver.pop()
                    del e.pc[n0:]
        if ok:
            e.ok(label + ' (all elements)', func)
        return ok

    def _at(self, s, t, chunks):
        return [(z3.substitute(c, (s.k, t)),
                 [subst_chunk(x, s.k, t) for x in p] if chunks else subst(p, s.k, t)) for c, p in s.cases]

    def chunks_eq(self, G, Wn, label, func=''):
        """prove that two chunk lists denote the same byte string"""
        e = self.e
        G, Wn = list(G), list(Wn)
        pos = 0
        pend = []

        def flush():
            nonlocal pend
            if not pend:
                return True
            lo = pend[0][2]
            gs = [z3.Not(byte_term(a) == byte_term(b)) for a, b, _ in pend]
            p, pend = pend, []
            goal = z3.And([byte_term(a) == byte_term(b) for a, b, _ in p])
            return e.prove(goal, f'{label} octets {lo}..{p[-1][2]}', func)
        while True:
            G, Wn = self.drop_empty(G), self.drop_empty(Wn)
            if not G and not Wn:
                r = flush()
                return e.ok(f'{label} (extent)', func) if r else False
            if G and Wn:
                g, w = G[0], Wn[0]
                if is_byte(g) and is_byte(w):
                    pend.append((g, w, pos))
                    pos += 1
                    G, Wn = G[1:], Wn[1:]
                    continue
                if isinstance(g, Rest) and isinstance(w, Rest):
                    if g.name == w.name:
                        G, Wn = G[1:], Wn[1:]
                        continue
                if isinstance(g, Rec) and isinstance(w, Rec) and g.cls is w.cls:
                    if not flush():
                        return False
                    if not self.veq(g.view, w.view, f'{label}@{pos}:{g.cls.__name__}', func):
                        return False
                    G, Wn = G[1:], Wn[1:]
                    pos = f'{pos}+{g.cls.__name__}' if not isinstance(pos, int) else pos
                    continue
                if isinstance(g, Rec):
                    G = self.expand_rec(g) + G[1:]
                    continue
                if isinstance(w, Rec):
                    Wn = self.expand_rec(w) + Wn[1:]
                    continue
                if isinstance(g, Seg) and isinstance(w, Seg):
                    if not flush():
                        return False
                    if not self.seg_eq(g, w, f'{label}@{pos}[]', func, True):
                        return False
                    G, Wn = G[1:], Wn[1:]
                    continue
                if isinstance(g, Blob) and isinstance(w, Blob):
                    if not flush():
                        return False
                    if not e.prove(to_bv(g.len) == to_bv(w.len), f'{label} length', func):
                        return False
                    ix = e.fresh('bx', BV(W))
                    if not e.prove(z3.Implies(z3.And(ix >= 0, ix < to_bv(g.len)),
                                              byte_term(g.byte(ix)) == byte_term(w.byte(ix))), f'{label} octets', func):
                        return False
                    G, Wn = G[1:], Wn[1:]
                    continue
                if isinstance(g, Blob) and isinstance(w, Seg):
                    g2 = self.blob_seg(g)
                    G = [g2] + G[1:]
                    continue
                if isinstance(w, Blob) and isinstance(g, Seg):
                    Wn = [self.blob_seg(w)] + Wn[1:]
                    continue
                # a variable part against fixed octets: split on emptiness
                x = g if not is_byte(g) else w
                n = x.n if isinstance(x, Seg) else x.len if isinstance(x, Blob) else None
                if n is None:
                    raise Unsupported(f'{label}: cannot align {short(g)} with {short(w)}')
                if not flush():
                    return False
                if e.decide(to_bv(n) == 0):
                    continue
                first, tail = self.uncons(x)
                if not is_byte(g):
                    G = first + [tail] + G[1:]
                else:
                    Wn = first + [tail] + Wn[1:]
                self.count_loops += 1
                if self.count_loops > 200:
                    raise Unsupported(f'{label}: alignment')
                continue
            if not flush():
                return False
            x = (G or Wn)[0]
            if isinstance(x, (Seg, Blob)):
                n = x.n if isinstance(x, Seg) else x.len
                if not e.prove(to_bv(n) == 0, f'{label} (extent)', func):
                    return False
                G, Wn = (G[1:], Wn) if G else (G, Wn[1:])
                continue
            if isinstance(x, Rec) and not self.expand_rec(x):
                G, Wn = (G[1:], Wn) if G else (G, Wn[1:])
                continue
            return e.fail(f'{label} (extent)', f'{"extra" if G else "missing"} output after octet {pos}: {short(x)}',
                          func)

    def blob_seg(self, b):
        k = z3.BitVec(f'k@{self.e.kdepth + 9}', W)
        return Seg(b.len, k, [(TRUE, [norm_byte(b.byte(k))])])

    def uncons(self, x):
        M = self.i.models
        if isinstance(x, Blob):
            return [norm_byte(x.byte(z3.BitVecVal(0, W)))], Blob(x.base, x.off + 1, x.len - 1)
        return M.seg_at(x, z3.BitVecVal(0, W)), M.seg_tail(x)

    # -------------------------------------------------------- counterexample --
    def concretize(self, v, m, maxlen=70000):
        """plain JSON-able value of a view in model m"""
        def ev(t):
            return m.eval(t, model_completion=True)
        if isinstance(v, View):
            d = {'$c': v.cls.__name__}
            lay = self.layout_for(v.cls, v.attrs)
            if lay is not None and lay.variant:
                d['$v'] = lay.variant
            for a, x in v.attrs.items():
                d[a] = self.concretize(x, m, maxlen)
            return d
        if isinstance(v, LView):
            out = []
            for x in v.items:
                if isinstance(x, Seg):
                    n = ev(to_bv(x.n)).as_signed_long()
                    n = max(0, min(n, maxlen))

                    def at(j):
                        jv = z3.BitVecVal(j, W)
                        for c, p in x.cases:
                            if z3.is_true(ev(z3.substitute(c, (x.k, jv)))):
                                break
                        else:
                            p = x.cases[-1][1]
                        return self.concretize(subst(p, x.k, jv), m, maxlen // 64)
                    some = range(n) if n <= 200 else sorted(
                        {j for j in self.indices(m) if 0 <= j < n} | set(range(8)) | {n - 1, n - 2})[:600]
                    own = {j: at(j) for j in some}
                    # the elements the model says nothing about are all alike
                    rest = at(next(j for j in range(n) if j not in own)) if len(own) < n else None
                    out += [own[j] if j in own else rest for j in range(n)]
                else:
                    out.append(self.concretize(x, m, maxlen))
            return out
        if isinstance(v, SymInt):
            return ev(v.t).as_signed_long()
        if isinstance(v, SymBool):
            return z3.is_true(ev(v.t))
        if isinstance(v, SymFloat):
            return {'$f': v.width, 'bits': ev(v.bits).as_long()}
        if isinstance(v, float):
            import struct
            return {'$f': 64, 'bits': int.from_bytes(struct.pack('>d', v), 'big')}
        if isinstance(v, (SymBytes, bytes)):
            out = bytearray()
            for c in bytes_chunks(v):
                if isinstance(c, int):
                    out.append(c)
                elif is_byte(c):
                    out.append(ev(c).as_long())
                elif isinstance(c, Blob):
                    n = ev(to_bv(c.len)).as_signed_long()
                    for j in range(min(n, 70000)):
                        b = c.byte(z3.BitVecVal(j, W))
                        out.append(b if isinstance(b, int) else ev(b).as_long())
            return {'$b': bytes(out).hex()}
        if v is None or isinstance(v, (int, bool, str)):
            return v
        return None

    def indices(self, m):
        """the numbers a model mentions: element indices it distinguishes"""
        out = set()
        for d in m.decls():
            v = m[d]
            if isinstance(v, z3.FuncInterp):
                for i in range(min(v.num_entries(), 2000)):
                    for j in range(v.entry(i).num_args()):
                        a = v.entry(i).arg_value(j)
                        if z3.is_bv_value(a):
                            out.add(a.as_signed_long())
            elif z3.is_bv_value(v):
                out.add(v.as_signed_long())
        return out | {j + d for j in out for d in (-1, 1)}

    def lengths(self, v):
        """length terms inside a view (to ask for small counterexamples)"""
        out = []
        if isinstance(v, View):
            for x in v.attrs.values():
                out += self.lengths(x)
        elif isinstance(v, LView):
            for x in v.items:
                if isinstance(x, Seg):
                    out.append((x.n, None))
                    for _, p in x.cases:
                        out += [(n, x.k) for n, _ in self.lengths(p)]
        elif isinstance(v, SymBytes):
            out += [(c.len, None) for c in v.chunks if isinstance(c, Blob)]
        return out


def short(x):
    if isinstance(x, View):
        return f'a {x.cls.__name__}'
    if isinstance(x, LView):
        return f'list of {len(x.items)} part(s)'
    return repr(x)[:120]
