"""Verification of the codec contracts, class by class.

For a class C with layout enc_C the contract is
   serialize:  requires  self's view v in the domain of C
               ensures   the stream received exactly enc_C(v), v unchanged
               raises    if some integer field does not fit its wire width
   parse:      requires  a freshly constructed object, input enc_C(v) ++ rest
               ensures   view(self) = v, rest left unread
               raises    if the input is a proper prefix of enc_C(v)
Calls to serialize/parse of other classes are replaced by their contracts
(the callee's octets are an opaque Rec chunk); every contract assumed anywhere
is itself discharged for its own class in the same run."""
import time
import traceback
import z3
from .attrs import attrs
from . import sym
from .sym import (Unsupported, PyExc, SymInt, SymBool, SymFloat, SymBytes, Seg, Rec, Blob, Rest, InBuf, OutBuf, W,
                  mk_bytes, is_byte, to_bv, ivl, to_z3bool, bytes_chunks)
from .engine import Engine, Dead, Stop, Budget
from .interp import Interp
from .spec import Spec, Mismatch, short
from .views import View, LView, Ref, freeze
from contracts import layouts as LY

TRUE = z3.BoolVal(True)


def stream_classes():
    from opendis.stream import DataInputStream, DataOutputStream
    return DataInputStream, DataOutputStream


def havocable(lays):
    """classes whose parse of arbitrary input yields a well-typed object (an
    obligation of their own 'arbitrary' run)"""
    return len(lays) == 1 and lays[0].constraint is None and \
        not any(t.kind in ('const', 'none', 'size', 'bytes') for t in lays[0].toks) and \
        all(havocable(LY.L[t.cls]) for t in lays[0].toks if t.kind == 'nested') and \
        all(havocable(LY.L[x]) for t in lays[0].toks
            if t.kind == 'list' and not t.scalar for x in t.elem) and \
        not any(LY.L[x][0].sv for t in lays[0].toks if t.kind == 'list' and not t.scalar for x in t.elem)


class Contracts:
    """call-by-contract handlers for every class with a layout except target"""

    def __init__(self, spec, target, mode='full'):
        self.spec, self.target, self.mode = spec, target, mode
        self.used = set()
        I = spec.i
        for cls in spec.cls_layouts:
            for name, h in (('serialize', self.serialize), ('parse', self.parse)):
                f = cls.__dict__.get(name)
                if callable(f):
                    I.contracts[f] = h

    def serialize(self, I, args, kwargs):
        S = self.spec
        if kwargs or len(args) != 2:
            return NotImplemented
        o, st = args
        cls = type(o)
        if cls is self.target or cls not in S.cls_layouts or self.mode in ('arb', 'none'):
            return NotImplemented
        try:
            buf = I.getattr(st, 'stream')
            if not isinstance(buf, OutBuf):
                return NotImplemented
            view = S.abstract(o)
        except (Mismatch, PyExc):
            return NotImplemented
        if not S.well_typed(view):
            return NotImplemented
        self.used.add(cls.__name__)
        I.models.out_write(buf, SymBytes(S.elem_chunks(view)))
        return None

    def parse(self, I, args, kwargs):
        S = self.spec
        if self.mode == 'none' or len(args) < 2:
            return NotImplemented
        o, st = args[:2]
        cls = type(o)
        if cls is self.target or cls not in S.cls_layouts:
            return NotImplemented
        try:
            buf = I.getattr(st, 'stream')
        except PyExc:
            return NotImplemented
        if not isinstance(buf, InBuf):
            return NotImplemented
        if self.mode == 'arb':
            return self.parse_arb(o, cls, buf)
        lay = S.cls_layouts[cls][0]
        extra = list(args[2:]) + ([kwargs['bytelength']] if 'bytelength' in kwargs else [])
        if len(extra) != (1 if lay.sv or lay.parse_len else 0) or len(kwargs) > len(extra):
            return NotImplemented
        if not buf.chunks or not isinstance(buf.chunks[0], Rec) or buf.chunks[0].cls is not cls:
            return NotImplemented
        rec = buf.chunks[0]
        if extra:
            n = I.models.chunks_len(S.enc(rec.view)) + (6 if lay.sv else 0)
            if not isinstance(extra[0], (int, SymInt)) or not I.models._eq(extra[0], n):
                return NotImplemented
        for t in lay.toks:
            if t.kind == 'list':
                try:
                    l = S.get(o, t.attr)
                except PyExc:
                    return NotImplemented
                if type(l) is not list or l:
                    return NotImplemented
        self.used.add(cls.__name__)
        if self.mode == 'trunc' and self.spec.enc(rec.view):
            if self.spec.e.choose() is False:
                raise PyExc(EOFError('truncated'))
        I.models.take(buf, [rec], buf.chunks[1:])
        for a, v in rec.view.attrs.items():
            v = S.real_value(v)
            if type(v) is list:
                l = S.get(o, a)
                if type(l) is list and l is not v:
                    I.snapshot(l)
                    l[:] = v
                    continue
            S.put(o, a, v)
        return None


    def parse_arb(self, o, cls, buf):
        """on arbitrary input parse raises, or returns having consumed at least
        min_size octets; nothing is known about the attributes"""
        S, e, M = self.spec, self.spec.e, self.spec.i.models
        if len(buf.chunks) != 1 or not isinstance(buf.chunks[0], Rest):
            return NotImplemented
        self.used.add(cls.__name__)
        if e.choose() is False:
            raise PyExc(EOFError('end of input'))
        lo = min(LY.min_size(l) for l in S.cls_layouts[cls])
        m = e.fresh('arb', z3.BitVecSort(W))
        e.assume(z3.And(m >= lo, m < (1 << 40)))
        f = z3.Function(e.fresh_name('arbb'), z3.BitVecSort(W), z3.BitVecSort(8))
        M.take(buf, [Blob(f, 0, sym.mk_int(m, lo, 1 << 40))], buf.chunks)
        lays = S.cls_layouts[cls]
        if havocable(lays):
            v = S.sym_view(lays[0], e.fresh_name('havoc'), tuple(M.kargs()), e.kdepth)
            for a, x in v.attrs.items():
                S.put(o, a, S.real_value(x))
            return None
        for lay in lays:
            for a in lay.attrs():
                S.put(o, a, sym.Poison(f'{cls.__name__}.{a} after a parse of arbitrary input'))
        return None


class Run:
    """one exploration; gathers obligations and counterexamples"""

    def __init__(self, name, lay, mode='full', budget=60.0, contracts=True):
        self.name, self.lay, self.mode = name, lay, mode
        self.e = Engine(time_budget=budget, name=f'{lay.key}.{name}')
        self.I = Interp(self.e)
        self.S = Spec(self.I)
        self.cls = self.S.cls_of(lay.name)
        if self.cls is None:
            raise Unsupported(f'class {lay.name} not found')
        self.C = Contracts(self.S, self.cls, mode if contracts else 'none')
        self.cex = []
        self.view = None
        self.reason = None
        self.completed = 0

    # helpers -------------------------------------------------------------
    def record_cex(self, label, cond=None, detail='', extra=None):
        e = self.e
        if len(self.cex) >= 6:
            return
        # prefer a counterexample with short lists
        e.solver.push()
        try:
            if cond is not None:
                e.solver.add(cond)
            m = None
            for lim in (2, 8, 70, 500, 9000, 66000, None):
                e.solver.push()
                if lim is not None and self.view is not None:
                    for n, k in self.S.lengths(self.view):
                        if isinstance(n, SymInt):
                            if k is None:
                                e.solver.add(to_bv(n) <= lim)
                            else:
                                for j in range(2):
                                    e.solver.add(z3.substitute(to_bv(n), (k, z3.BitVecVal(j, W))) <= lim)
                r = e.check()
                if r == z3.sat:
                    m = e.solver.model()
                    e.solver.pop()
                    break
                e.solver.pop()
            if m is None:
                return
            self.cex.append({'label': label, 'detail': detail,
                             'view': self.S.concretize(self.view, m) if self.view is not None else None,
                             **(extra(m) if extra else {})})
        except (Unsupported, z3.Z3Exception) as ex:
            self.cex.append({'label': label, 'detail': f'{detail} (no model: {ex})', 'view': None})
        finally:
            e.solver.pop()

    def on_raise(self, cond, exc):
        self.e.fail_at = None
        self.e.obligations.append(_ob(f'{self.name}: no exception', 'refuted', self.lay.key, repr(exc)[:200]))
        self.record_cex('no exception', cond, repr(exc)[:200])

    def explore(self, fn, outcome, on_raise='default'):
        t0 = time.time()
        try:
            self.e.run_paths(fn, outcome, self.on_raise if on_raise == 'default' else on_raise)
        except Unsupported as ex:
            self.reason = f'{type(ex).__name__}: {ex}'
        except z3.Z3Exception as ex:
            self.reason = f'Z3: {ex}'
        except RecursionError:
            self.reason = 'recursion'
        except Exception as ex:
            self.reason = 'internal: ' + traceback.format_exc()[-900:]
        self.secs = time.time() - t0

    def wrap_refuted(self):
        """called with a live path after obligations: attach counterexamples"""

    def result(self):
        self.e.frame_obligation(f'{self.lay.key}.{self.name}')
        obs = self.e.obligations
        bad = [o for o in obs if o.status != 'discharged']
        st = 'proved'
        if any(o.status == 'refuted' for o in obs):
            st = 'refuted'
        elif self.reason or bad:
            st = 'undecided'
        elif not obs or not self.completed:
            st = 'undecided'
            self.reason = 'no execution completes'
        return {'class': self.lay.key, 'run': self.name, 'status': st, 'reason': self.reason,
                'n': len(obs), 'discharged': sum(o.status == 'discharged' for o in obs),
                'backends': _count(o.backend for o in obs if o.status == 'discharged'),
                'failed': [{'label': o.label, 'status': o.status, 'detail': str(o.detail)[:300]} for o in bad][:8],
                'cex': self.cex, 'paths': self.e.paths, 'solver_s': round(self.e.solver_time, 3),
                'secs': round(getattr(self, 'secs', 0), 3), 'queries': self.e.n_queries,
                'functions': sorted(self.I.inlined), 'contracts': sorted(self.C.used),
                'flags': [k for k in ('unproductive_loop', 'unpaid_work', 'read_all') if self.e.flags.get(k)]}

    def prove_with_cex(self, fn, label):
        """fn() -> bool posts obligations; on failure take a counterexample"""
        n0 = len(self.e.obligations)
        ok = fn()
        if not ok:
            for o in self.e.obligations[n0:]:
                if o.status == 'refuted':
                    goal = getattr(o, 'goal', None)
                    self.record_cex(o.label, o.neg, o.detail)
        return ok

    def out_stream(self):
        b = self.e.born(OutBuf())
        return b, self.I.instantiate(stream_classes()[1], (b,), {})

    def in_stream(self, chunks):
        b = self.e.born(InBuf(chunks))
        return b, self.I.instantiate(stream_classes()[0], (b,), {})

    def expected(self, view):
        return self.S.sv_header(view) + self.S.enc(view)

    def call_parse(self, o, st, view):
        lay = self.lay
        args = (st,)
        if lay.sv or lay.parse_len:
            n = self.I.models.chunks_len(self.S.enc(view)) + (6 if lay.sv else 0)
            args = (st, n)
        return self.I.call(self.I.getattr(o, 'parse'), args)


def _ob(label, status, func='', detail=''):
    from .engine import Obligation
    return Obligation(label, status, func, detail=detail)


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def setup_view(r, wide=False):
    v = r.S.sym_view(r.lay, wide=wide)
    for c in r.S.constraints(r.lay, v):
        r.e.assume(c)
    r.view = v
    return v


def run_ser(lay, **kw):
    """serialize ensures: output = enc(view), no exception in the domain"""
    r = Run('serialize', lay, **kw)

    def fn():
        v = setup_view(r)
        o = r.S.realize(v)
        buf, st = r.out_stream()
        mark, r.mark_serial = len(r.e.journal), r.e.serial
        r.mark = mark
        r.I.call(r.I.getattr(o, 'serialize'), (st,))
        return o, v, buf

    def outcome(kind, val):
        if kind == 'exc':
            return r.on_raise(TRUE, val)
        o, v, buf = val
        r.completed += 1
        pure = [(k, type(ob).__name__, key) for k, ob, key, _ in r.e.journal[r.mark:]
                if ob is not buf and k in ('attr', 'list', 'dict', 'set', 'global') and
                r.e.born_at(ob) <= r.mark_serial]
        if pure:
            r.impure = pure
        r.prove_with_cex(lambda: r.S.chunks_eq(buf.chunks, r.expected(v), f'{lay.key}.serialize'), 'enc')
    r.impure = None
    r.explore(fn, outcome)
    d = r.result()
    d['impure'] = r.impure
    return d


def run_parse(lay, **kw):
    """parse ensures: view(self) = v and exactly enc(v) consumed"""
    r = Run('parse', lay, **kw)

    def fn():
        v = setup_view(r)
        o = r.I.instantiate(r.cls, (), {})
        buf, st = r.in_stream(r.S.enc(v) + [Rest('tail')])
        r.mark, r.mark_serial = len(r.e.journal), r.e.serial
        r.call_parse(o, st, v)
        return o, v, buf

    def outcome(kind, val):
        if kind == 'exc':
            return r.on_raise(TRUE, val)
        o, v, buf = val
        r.completed += 1

        def post():
            try:
                got = r.S.abstract(o)
            except Mismatch as ex:
                return r.e.fail(f'{lay.key}.parse', str(ex))
            a = r.S.veq(got, v, f'{lay.key}.parse')
            b = r.S.chunks_eq(buf.chunks, [Rest('tail')], f'{lay.key}.parse consumes exactly its encoding')
            return a and b
        r.prove_with_cex(post, 'view')
    r.explore(fn, outcome)
    return r.result()


def run_rt(lay, **kw):
    """parse(serialize(v)) = v directly (used when the layout obligations fail)"""
    r = Run('roundtrip', lay, **kw)

    def fn():
        v = setup_view(r)
        o = r.S.realize(v)
        buf, st = r.out_stream()
        r.I.call(r.I.getattr(o, 'serialize'), (st,))
        o2 = r.I.instantiate(r.cls, (), {})
        ch = buf.chunks
        if lay.sv:
            if len(ch) < 6 or not all(is_byte(c) for c in ch[:6]):
                raise Unsupported('record header')
            ch = ch[6:]
        ib, ist = r.in_stream(ch + [Rest('tail')])
        r.call_parse(o2, ist, v)
        return o2, v, ib

    def outcome(kind, val):
        if kind == 'exc':
            return r.on_raise(TRUE, val)
        o, v, buf = val
        r.completed += 1

        def post():
            try:
                got = r.S.abstract(o)
            except Mismatch as ex:
                return r.e.fail(f'{lay.key}.roundtrip', str(ex))
            return r.S.veq(got, v, f'{lay.key}.roundtrip') and \
                r.S.chunks_eq(buf.chunks, [Rest('tail')], f'{lay.key}.roundtrip consumes all')
        r.prove_with_cex(post, 'view')
    r.explore(fn, outcome)
    return r.result()


def run_rerender(lay, **kw):
    """serialize(parse(enc(v))) = enc(v) directly"""
    r = Run('reencode', lay, **kw)

    def fn():
        v = setup_view(r)
        o = r.I.instantiate(r.cls, (), {})
        ib, ist = r.in_stream(r.S.enc(v) + [Rest('tail')])
        r.call_parse(o, ist, v)
        buf, st = r.out_stream()
        r.I.call(r.I.getattr(o, 'serialize'), (st,))
        return o, v, buf

    def outcome(kind, val):
        if kind == 'exc':
            return r.on_raise(TRUE, val)
        o, v, buf = val
        r.completed += 1
        r.prove_with_cex(lambda: r.S.chunks_eq(buf.chunks, r.expected(v), f'{lay.key}.reencode'), 'enc')
    r.explore(fn, outcome)
    return r.result()


def become(r, o, v):
    """give an object other values in place: nested records and lists stay the same objects"""
    for a, x in v.attrs.items():
        cur = r.S.get(o, a)
        if isinstance(x, View) and type(cur) is x.cls:
            become(r, cur, x)
            continue
        new = r.S.real_value(x)
        if type(new) is list and type(cur) is list:
            r.I.snapshot(cur)
            cur[:] = new
        else:
            r.S.put(o, a, new)


def earlier_view(r):
    v0 = r.S.sym_view(r.lay, path=r.lay.name + '~')
    for c in r.S.constraints(r.lay, v0):
        r.e.assume(c)
    return v0


def run_rewide(lay, **kw):
    return run_wide(lay, used=True, **kw)


def run_wide(lay, used=False, **kw):
    """serialize raises whenever an integer field does not fit: a normal return
    implies every field was in its domain; used: also when the object was written before
    with other values"""
    r = Run('rerange' if used else 'range', lay, **kw)

    def fn():
        v = setup_view(r, wide=True)
        if used:
            v0 = earlier_view(r)
            o = r.S.realize(v0)
            r.I.call(r.I.getattr(o, 'serialize'), (r.out_stream()[1],))
            become(r, o, v)
        else:
            o = r.S.realize(v)
        buf, st = r.out_stream()
        r.I.call(r.I.getattr(o, 'serialize'), (st,))
        return o, v, buf

    def outcome(kind, val):
        if kind == 'exc':
            return
        o, v, buf = val
        r.completed += 1
        e, S = r.e, r.S
        conds = []
        A = v.attrs
        for t in lay.toks:
            if t.kind == 'scalar' and t.w in LY.INT:
                conds.append((t.attr, in_range(A[t.attr], *LY.int_range(t.w))))
            elif t.kind == 'fixed' and t.w in LY.INT:
                for j, x in enumerate(A[t.attr].items):
                    conds.append((f'{t.attr}[{j}]', in_range(x, *LY.int_range(t.w))))
            elif t.kind == 'bits':
                for n, b, isb in t.fields:
                    if n != '_' and not isb:
                        conds.append((n, in_range(A[n], 0, (1 << b) - 1)))
            elif t.kind == 'count':
                n = S.list_len(A[t.lst])
                conds.append((f'len({t.lst})', in_range(n * t.mul + t.add, *LY.int_range(t.w))))
            elif t.kind == 'size' and A[t.of] is not None:
                n = r.I.models.chunks_len(S.enc(A[t.of]))
                conds.append((f'size({t.of})', in_range(n, *LY.int_range(t.w))))
        e.ok(f'{lay.key}.range examined')
        for name, c in conds:
            if name == 'beamState':
                continue
            r.prove_with_cex(lambda: e.prove(c, f'{lay.key}.range {name}'), name)
        # elements: every octet segment emitted for a scalar list carries, in its
        # per-iteration conditions, the fact that the element fitted
        for t in lay.toks:
            if t.kind == 'list' and t.scalar and t.elem in LY.INT:
                sg = A[t.attr].items[0]
                segs = [c for c in flat_segs(buf.chunks) if not isinstance(c.n, int) and
                        e.implied(to_bv(c.n) == to_bv(sg.n))]
                ix = e.fresh('ex', z3.BitVecSort(W))
                from .views import subst
                x = subst(sg.cases[0][1], sg.k, ix)
                goal = in_range(x, *LY.int_range(t.elem))
                facts = []
                for s in segs:
                    facts.append(z3.Or([z3.substitute(c, (s.k, ix)) for c, _ in s.cases]))
                g = z3.Implies(z3.And([ix >= 0, ix < to_bv(sg.n)] + facts), to_z3bool(goal))
                r.prove_with_cex(lambda: e.prove(g, f'{lay.key}.range {t.attr}[]'), t.attr)
    r.explore(fn, outcome, lambda c, x: None)
    d = r.result()
    if r.completed == 0 and not r.reason:
        d['status'] = 'proved' if not d['failed'] else d['status']
    return d


def flat_segs(cs):
    return [c for c in cs if isinstance(c, Seg)]


def in_range(x, lo, hi):
    if isinstance(x, int):
        return z3.BoolVal(lo <= x <= hi)
    return z3.And(x.t >= z3.BitVecVal(lo, W), x.t <= z3.BitVecVal(hi, W))


def run_trunc(lay, **kw):
    """no proper prefix of enc(v) is accepted"""
    r = Run('truncated', lay, mode='trunc', **kw)
    I, e = r.I, r.e
    orig = I.models.in_read

    def in_read(buf, n=-1):
        if buf.__dict__.get('trunc') and (not isinstance(n, int) or n > 0):
            if e.flags.get('eof'):
                return b''
            lo, hi = ivl(n)
            if lo >= 0:
                if lo == 0 and not isinstance(n, int) and not e.decide(to_bv(n) > 0):
                    return b''
                if e.choose() is False:
                    e.flags['eof'] = True
                    e.log('winflag', buf, None, lambda: e.flags.pop('eof', None))
                    m = e.fresh('cut', z3.BitVecSort(W))
                    e.assume(z3.And(m >= 0, m < to_bv(n)))
                    I.models.log_in(buf)
                    buf.chunks = []
                    f = z3.Function(e.fresh_name('cutb'), z3.BitVecSort(W), z3.BitVecSort(8))
                    return mk_bytes([Blob(f, 0, sym.mk_int(m, 0, max(hi - 1, 0)))])
        return orig(buf, n)
    I.models.in_read = in_read

    def fn():
        v = setup_view(r)
        o = r.I.instantiate(r.cls, (), {})
        buf, st = r.in_stream(r.S.enc(v))
        buf.trunc = True
        r.call_parse(o, st, v)
        return o, v, buf

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            e.ok(f'{lay.key}.truncated input raises')
            return
        if not e.flags.get('eof'):
            return
        e.fail(f'{lay.key}.truncated input raises', 'returned normally after a short read')
        r.record_cex('truncated', None, 'parse returned normally although a read was cut short')
    def raised(c, x):
        r.completed += 1
        e.ok(f'{lay.key}.truncated input raises')
    if LY.min_size(lay) == 0 and not lay.toks:
        r.completed = 1
        e.ok(f'{lay.key}: the encoding is empty and has no proper prefix')
        return r.result()
    r.explore(fn, outcome, raised)
    return r.result()


def run_arb(lay, budget=60.0):
    d = run_arb1(lay, mode='arb', budget=budget)
    if d['status'] != 'proved' and d['contracts']:
        d2 = run_arb1(lay, contracts=False, budget=budget)
        if d2['status'] == 'proved':
            return d2
    return d


def run_arb1(lay, **kw):
    """arbitrary input: terminates, and every loop of symbolic length consumes
    input in each iteration (so work is bounded by the input length)"""
    r = Run('arbitrary', lay, **kw)
    e = r.e
    r.S.nocap = True
    e.any_raise = True
    lo = min(LY.min_size(l) for l in r.S.cls_layouts[r.cls])

    def fn():
        o = r.I.instantiate(r.cls, (), {})
        buf, st = r.in_stream([Rest('input')])
        e.arb_in = buf
        args = (st,)
        if lay.sv or lay.parse_len:
            n = z3.ZeroExt(W - 16, z3.BitVec('bytelength', 16))
            args = (st, sym.mk_int(n, 0, 65535))
        r.I.call(r.I.getattr(o, 'parse'), args)
        return o, buf

    def outcome(kind, val):
        r.completed += 1
        if kind == 'ok':
            o, val = val
            if havocable(r.S.cls_layouts[r.cls]):
                try:
                    ok = r.S.well_typed(r.S.abstract(o))
                except (Mismatch, Unsupported) as ex:
                    ok = False
                (e.ok if ok else e.fail)(f'{lay.key}.parse leaves a well-typed object')
            n = sum(1 if is_byte(c) else ivl(r.I.models.chunk_len(c))[0] for c in val.past)
            if n >= lo:
                e.ok(f'{lay.key}.parse consumes at least {lo} octets')
            else:
                e.fail(f'{lay.key}.parse consumes at least {lo} octets', f'only {n} certain')
        if e.flags.get('unproductive_loop'):
            e.fail(f'{lay.key}.every loop iteration consumes input', 'a counted loop may run without reading')
        else:
            e.ok(f'{lay.key}.every loop iteration consumes input')
        if e.flags.get('unpaid_work'):
            e.fail(f'{lay.key}.work without reading is bounded by what was read',
                   'a loop or allocation of a size taken from the packet consumes no input')
        else:
            e.ok(f'{lay.key}.work without reading is bounded by what was read')
    r.explore(fn, outcome, None)
    return r.result()


def run_size(lay, **kw):
    """marshalledSize() = number of octets serialize writes; the counts and lengths an object
    gives of its parts are those written"""
    r = Run('size', lay, **kw)
    sized = callable(getattr(r.cls, 'marshalledSize', None))
    reps = LY.reports(lay, r.cls)
    if not sized and not reps:
        r.completed = 1
        r.e.ok(f'{lay.key} offers no marshalledSize')
        return r.result()

    def fn():
        v = setup_view(r)
        o = r.S.realize(v)
        return v, r.I.call(r.I.getattr(o, 'marshalledSize'), ()) if sized else None, \
            [r.I.getattr(o, name) for name, _ in reps]

    def outcome(kind, val):
        if kind == 'exc':
            return r.on_raise(TRUE, val)
        v, n, got = val
        r.completed += 1
        M = r.I.models

        def written(t):
            if t is None:
                return M.chunks_len(r.expected(v))
            if t == 0:
                return 0
            if t.kind == 'count':
                return r.S.list_len(v.attrs[t.lst]) * t.mul + t.add
            return M.chunks_len(r.S.enc(v.attrs[t.attr]))
        facts = ([('marshalledSize', n, None)] if sized else []) + [(a, x, t) for (a, t), x in zip(reps, got)]

        def post():
            done = True
            for name, x, t in facts:
                if isinstance(x, bool) or not isinstance(x, (int, SymInt)):
                    return r.e.fail(f'{lay.key}.{name}', f'returned {x!r}')
                done = r.e.prove(to_bv(x) == to_bv(written(t)), f'{lay.key}.{name}') and done
            return done
        r.prove_with_cex(post, 'size')
    r.explore(fn, outcome)
    return r.result()


def is_num(v):
    return isinstance(v, (int, SymInt, SymFloat)) and not isinstance(v, bool)


def run_again(lay, **kw):
    """serialize is a function of the view: a second call, and a call on another
    object with the same view, write the same octets; the view is unchanged"""
    r = Run('again', lay, **kw)

    def kept(obj, name, old, new):
        """a record of one of the object's lists is written to: with what it held"""
        if r.e.on_raise != r.on_raise:       # not yet with the loop's invariant
            return True
        if is_num(old) and is_num(new):
            r.prove_with_cex(lambda: r.S.veq(new, old, f'{lay.key}.serialize leaves its records unchanged: '
                                                       f'{type(obj).__name__}.{name}'), 'again')
            return True
        return False

    def fn():
        v = setup_view(r)
        o = r.S.realize(v)
        b1, s1 = r.out_stream()
        r.e.flags['element_write'] = kept
        r.I.call(r.I.getattr(o, 'serialize'), (s1,))
        got = r.S.abstract(o)
        b2, s2 = r.out_stream()
        r.I.call(r.I.getattr(o, 'serialize'), (s2,))
        o3 = r.S.realize(v)
        b3, s3 = r.out_stream()
        r.I.call(r.I.getattr(o3, 'serialize'), (s3,))
        return v, got, b1, b2, b3

    def outcome(kind, val):
        if kind == 'exc':
            return r.on_raise(TRUE, val)
        v, got, b1, b2, b3 = val
        r.completed += 1

        def post():
            a = r.S.veq(got, v, f'{lay.key}.serialize leaves the object unchanged')
            b = r.S.chunks_eq(b2.chunks, b1.chunks, f'{lay.key}.serialize again')
            c = r.S.chunks_eq(b3.chunks, b1.chunks, f'{lay.key}.serialize of an equal object')
            return a and b and c
        r.prove_with_cex(post, 'again')
    r.explore(fn, outcome)
    return r.result()


def run_alias(lay, **kw):
    """serialize when one record object stands in several places: every nested attribute of the
    same class is the same object, every list of records holds one object twice; it writes what an
    object with equal, separate records does"""
    r = Run('alias', lay, **kw)
    S = r.S

    def fn():
        v = setup_view(r)
        first, A = {}, v.attrs
        for t in lay.toks:
            if t.kind == 'nested':
                A[t.attr] = first.setdefault(t.cls, A[t.attr])
            elif t.kind == 'list' and not t.scalar and not t.bitlen:
                x = S.sym_view(LY.layout(t.elem[0]), f'{lay.name}.{t.attr}&')
                for c in S.constraints(LY.layout(t.elem[0]), x):
                    r.e.assume(c)
                A[t.attr] = LView([x, x])
        for t in lay.toks:
            if t.kind == 'count' and t.store:
                A[t.store] = S.list_len(A[t.lst]) * t.mul + t.add
        for c in S.constraints(lay, v):
            r.e.assume(c)
        made = {}

        def real(x):
            if isinstance(x, View):
                if id(x) not in made:
                    made[id(x)] = S.realize(x)
                return made[id(x)]
            if isinstance(x, LView) and any(isinstance(y, View) for y in x.items):
                return r.e.born([real(y) for y in x.items])
            return S.real_value(x)
        o = r.I.instantiate(r.cls, (), {})
        for a, x in A.items():
            S.put(o, a, real(x))
        buf, st = r.out_stream()
        r.I.call(r.I.getattr(o, 'serialize'), (st,))
        apart, st = r.out_stream()
        r.I.call(r.I.getattr(S.realize(v), 'serialize'), (st,))
        return apart, buf

    def outcome(kind, val):
        if kind == 'exc':
            return r.on_raise(TRUE, val)
        apart, buf = val
        r.completed += 1
        r.prove_with_cex(lambda: S.chunks_eq(buf.chunks, apart.chunks, f'{lay.key}.serialize of shared records'), 'enc')
    n = [t.cls for t in lay.toks if t.kind == 'nested']
    if len(n) == len(set(n)) and not any(t.kind == 'list' and not t.scalar for t in lay.toks):
        r.completed = 1
        r.e.ok(f'{lay.key} has no two records of one class')
        return r.result()
    r.explore(fn, outcome)
    return r.result()


def run_fresh(lay, **kw):
    """two objects built by the constructor share no mutable state"""
    r = Run('fresh', lay, **kw)

    def fn():
        return r.I.instantiate(r.cls, (), {}), r.I.instantiate(r.cls, (), {}), r.e.serial

    def outcome(kind, val):
        if kind == 'exc':
            return r.on_raise(TRUE, val)
        a, b, _ = val
        r.completed += 1
        pa, pb = {}, {}
        heap_parts(r.S, a, pa, '')
        heap_parts(r.S, b, pb, '')
        sh = [p for i, (p, o) in pa.items() if i in pb]
        (r.e.fail if sh else r.e.ok)(f'{lay.key}() twice: separate state', *([f'shared: {sh[:3]}'] if sh else []))
    r.explore(fn, outcome)
    return r.result()


def run_history(lay, **kw):
    """what an object held earlier leaves no trace: one that was parsed, or filled, serialized and
    measured, and then given other values in place, writes and measures what a new object with
    those values does"""
    r = Run('history', lay, **kw)
    I, S, e = r.I, r.S, r.e

    def measure(o):
        return ([I.call(I.getattr(o, 'marshalledSize'), ())] if callable(getattr(r.cls, 'marshalledSize', None)) else []) + \
            [I.getattr(o, name) for name, _ in LY.reports(lay, r.cls)]

    def write(o):
        b, st = r.out_stream()
        I.call(I.getattr(o, 'serialize'), (st,))
        return b

    def fn():
        v0 = earlier_view(r)
        v = setup_view(r)
        if lay.oneway or e.choose() is False:
            o = S.realize(v0)
            write(o)
            measure(o)
        else:
            o = I.instantiate(r.cls, (), {})
            ib, ist = r.in_stream(S.enc(v0) + [Rest('tail')])
            r.call_parse(o, ist, v0)
        become(r, o, v)
        b1, m1 = write(o), measure(o)
        o2 = S.realize(v)
        return b1, m1, write(o2), measure(o2)

    def outcome(kind, val):
        if kind == 'exc':
            return r.on_raise(TRUE, val)
        b1, m1, b2, m2 = val
        r.completed += 1

        def post():
            done = S.chunks_eq(b1.chunks, b2.chunks, f'{lay.key}.serialize after an earlier use')
            for x, y in zip(m1, m2):
                if isinstance(x, bool) or not isinstance(x, (int, SymInt)) or not isinstance(y, (int, SymInt)):
                    return e.fail(f'{lay.key}.size after an earlier use', f'returned {x!r}')
                done = e.prove(to_bv(x) == to_bv(y), f'{lay.key}.size after an earlier use') and done
            return done
        r.prove_with_cex(post, 'history')
    r.explore(fn, outcome)
    return r.result()


def run_parsed(lay, **kw):
    """two parsed objects share no mutable state, and no record stands in two places of one"""
    r = Run('parsed', lay, **kw)
    S = r.S

    def fn():
        out = []
        for p in (None, lay.name + '~'):
            v = S.sym_view(lay, path=p)
            for c in S.constraints(lay, v):
                r.e.assume(c)
            if p is None:
                r.view = v
            o = r.I.instantiate(r.cls, (), {})
            buf, st = r.in_stream(S.enc(v) + [Rest('tail')])
            r.call_parse(o, st, v)
            out.append(o)
        return out

    def outcome(kind, val):
        if kind == 'exc':
            return r.on_raise(TRUE, val)
        r.completed += 1
        pa, pb, twice = {}, {}, []
        heap_parts(S, val[0], pa, '', twice)
        heap_parts(S, val[1], pb, '')
        sh = [p for i, (p, o) in pa.items() if i in pb] + twice
        if sh:
            r.e.fail(f'{lay.key} parsed twice: separate state', f'shared: {sh[:3]}')
            r.record_cex(f'{lay.key} parsed twice: separate state')
        else:
            r.e.ok(f'{lay.key} parsed twice: separate state')
    r.explore(fn, outcome)
    return r.result()


def heap_parts(S, o, out, path, twice=None):
    """mutable objects reachable through declared attributes"""
    if isinstance(o, (Seg, View, LView, Ref)):
        for x in ([p for _, p in o.cases] if isinstance(o, Seg) else o.attrs.values() if isinstance(o, View) else
                  o.items if isinstance(o, LView) else [o.obj]):
            heap_parts(S, x, out, path + '[]', twice)
        if isinstance(o, Ref) and twice is not None and type(o.obj) in S.cls_layouts:
            twice.append(path)
        return
    if twice is not None and id(o) in out and type(o) in S.cls_layouts:
        twice.append(path)
    if id(o) in out or isinstance(o, (int, float, str, bytes, type(None), type, SymInt, SymBool, SymFloat,
                                      sym.CStruct)):
        if isinstance(o, sym.CStruct):
            out[id(o)] = (path, o)
        return
    if not isinstance(o, (tuple, frozenset)):
        out[id(o)] = (path, o)
    if isinstance(o, (list, tuple, set, frozenset)):
        for j, x in enumerate(o):
            heap_parts(S, x, out, f'{path}[{j}]', twice)
    elif isinstance(o, dict):
        for k, x in o.items():
            heap_parts(S, x, out, f'{path}[{k!r}]', twice)
    elif type(o) in S.cls_layouts:
        for n in {a.split('.')[0] for l in S.cls_layouts[type(o)] for a in l.attrs()}:
            try:
                heap_parts(S, S.i.getattr(o, n), out, f'{path}.{n}', twice)
            except PyExc:
                pass
    else:
        for k, x in (attrs(o).items() if S.i.in_package(type(o)) else getattr(o, '__dict__', {}).items()):
            heap_parts(S, x, out, f'{path}.{k}', twice)


RUNS = {'parsed': run_parsed, 'alias': run_alias, 'history': run_history, 'size': run_size, 'again': run_again, 'fresh': run_fresh, 'serialize': run_ser, 'parse': run_parse, 'range': run_wide, 'rerange': run_rewide, 'truncated': run_trunc, 'arbitrary': run_arb,
        'roundtrip': run_rt, 'reencode': run_rerender}


def verify(key_run):
    key, run, budget = key_run
    lay = next(l for l in LY.all_layouts() if l.key == key)
    t0 = time.time()
    try:
        d = RUNS[run](lay, budget=budget)
    except Unsupported as ex:
        d = empty(key, run, f'{type(ex).__name__}: {ex}')
    except Exception:
        d = empty(key, run, 'internal: ' + traceback.format_exc()[-900:])
    d['wall'] = round(time.time() - t0, 3)
    return d


def differential(job):
    """interpret serialize and parse on one concrete view and compare with
    CPython executing the same source; None if they agree"""
    import io
    import random
    key, seed = job
    from contracts import concrete as CC
    lay = next(l for l in LY.all_layouts() if l.key == key)
    v = CC.gen(lay, random.Random(f'{seed}/{key}'), None)
    try:
        want = CC.exc(lambda: CC.serialize(CC.build(v)))
        e = Engine(time_budget=20.0, name='diff')
        I = Interp(e)
        got = []

        def fn():
            o = CC.build(v)
            b = e.born(OutBuf())
            st = I.instantiate(stream_classes()[1], (b,), {})
            I.call(I.getattr(o, 'serialize'), (st,))
            return b

        def outcome(kind, val):
            got.append((f'{type(val).__name__}: {val}', None) if kind == 'exc' else (None, val.chunks))
        e.run_paths(fn, outcome, None)
        if len(got) != 1:
            return f'{key}: {len(got)} outcomes on a concrete input'
        ge, gb = got[0]
        if (ge is None) != (want[0] is None):
            return f'{key}: interpreter {ge}, CPython {want[0]}'
        if gb is not None and bytes(gb) != want[1]:
            return f'{key}: interpreter wrote {bytes(gb).hex()[:80]}, CPython {want[1].hex()[:80]}'
    except Unsupported as ex:
        return f'{key}: unsupported on a concrete input: {ex}' if False else None
    except Exception as ex:
        return f'{key}: {type(ex).__name__}: {ex}'
    return None


def empty(key, run, reason):
    return {'class': key, 'run': run, 'status': 'undecided', 'reason': reason, 'n': 0, 'discharged': 0,
            'backends': {}, 'failed': [], 'cex': [], 'paths': 0, 'solver_s': 0, 'secs': 0, 'queries': 0,
            'functions': [], 'contracts': [], 'flags': []}
