"""Function-level contracts outside the per-class codec contracts: the PDU
factory, constructors, stream primitives, bit fields, record dispatch and
entity markings."""
import importlib
import time
import traceback
import z3
from . import sym
from .sym import (Unsupported, PyExc, SymInt, SymBool, SymFloat, SymBytes, SymStr, Seg, Blob, Rest, InBuf, OutBuf, W,
                  CStruct, mk_int, mk_bytes, is_byte, to_bv, ivl, byte_term, int_to_byte, to_z3bool)
from .engine import Engine, Obligation
from .interp import Interp
from .spec import Spec, Mismatch
from .views import View, LView
from .codec import Run, Contracts, _ob, _count, empty, setup_view, TRUE, stream_classes, in_range
from contracts import layouts as LY

BV8 = z3.BitVecSort(8)
BVW = z3.BitVecSort(W)


class FRun:
    """exploration of one function contract; cex carries concrete inputs"""

    def __init__(self, key, name, budget=60.0, codec=False, target=None):
        self.key, self.name = key, name
        self.e = Engine(time_budget=budget, name=f'{key}.{name}')
        self.I = Interp(self.e)
        self.S = Spec(self.I)
        self.C = Contracts(self.S, target, 'full') if codec else None
        self.cex = []
        self.reason = None
        self.completed = 0
        self.inputs = {}

    def tail(self, name='tail', cap=1 << 16):
        """any octets"""
        n = self.e.fresh(name + '#', BVW)
        self.e.assume(z3.And(n >= 0, n <= cap))
        f = z3.Function(self.e.fresh_name(name), BVW, BV8)
        b = Blob(f, 0, mk_int(n, 0, cap))
        self.inputs[name] = ('blob', b)
        return b

    def octet(self, name):
        t = self.e.fresh(name, BV8)
        self.inputs[name] = ('int', mk_int(z3.ZeroExt(W - 8, t), 0, 255))
        return t

    def int_(self, name, lo, hi):
        t = self.e.fresh(name, BVW)
        self.e.assume(z3.And(t >= z3.BitVecVal(lo, W), t <= z3.BitVecVal(hi, W)))
        x = mk_int(t, lo, hi)
        self.inputs[name] = ('int', x)
        return x

    def concretize(self, m):
        out = {}
        for k, (kind, v) in self.inputs.items():
            try:
                if kind == 'int':
                    out[k] = m.eval(to_bv(v), model_completion=True).as_signed_long() if not isinstance(v, int) else v
                elif kind == 'float':
                    out[k] = {'f': m.eval(v.t, model_completion=True).as_long(), 'bits': v.t.size()}
                elif kind == 'bits':
                    out[k] = {'bits': m.eval(v, model_completion=True).as_long(), 'width': v.size()}
                elif kind == 'bool':
                    out[k] = z3.is_true(m.eval(v, model_completion=True))
                elif kind == 'view':
                    out[k] = self.S.concretize(v, m)
                elif kind == 'blob':
                    n = v.len if isinstance(v.len, int) else m.eval(to_bv(v.len), model_completion=True).as_long()
                    n = min(n, 4096)
                    out[k] = bytes(m.eval(byte_term(v.byte(z3.BitVecVal(j, W))), model_completion=True).as_long()
                                   for j in range(n)).hex()
                elif kind == 'str':
                    out[k] = [c if isinstance(c, int) else m.eval(to_bv(c), model_completion=True).as_long()
                              for c in v.cps]
                else:
                    out[k] = v
            except Exception as ex:     # noqa: BLE001
                out[k] = None
        return out

    def take_cex(self, label, cond=None, detail=''):
        if len(self.cex) >= 4:
            return
        e = self.e
        e.solver.push()
        try:
            if cond is not None:
                e.solver.add(cond)
            # prefer short tails
            for lim in (4, None):
                e.solver.push()
                if lim is not None:
                    for k, (kind, v) in self.inputs.items():
                        if kind == 'blob' and not isinstance(v.len, int):
                            e.solver.add(to_bv(v.len) <= lim)
                r = e.check()
                m = e.solver.model() if r == z3.sat else None
                e.solver.pop()
                if m is not None:
                    self.cex.append({'label': label, 'detail': str(detail)[:300], 'inputs': self.concretize(m)})
                    return
        finally:
            e.solver.pop()

    def prove(self, goal, label, detail=''):
        n0 = len(self.e.obligations)
        ok = self.e.prove(goal, label)
        if not ok:
            o = self.e.obligations[-1]
            if o.status == 'refuted':
                self.take_cex(label, o.neg, detail or o.detail)
        return ok

    def posts(self, fn):
        """fn posts obligations through e / S; a counterexample for each refuted one"""
        n0 = len(self.e.obligations)
        ok = fn()
        if not ok:
            for o in self.e.obligations[n0:]:
                if o.status == 'refuted':
                    self.take_cex(o.label, o.neg, o.detail)
        return ok

    def ok(self, label):
        self.e.ok(label)

    def fail(self, label, detail=''):
        r = self.e.fail(label, detail)
        if not r:
            self.take_cex(label, None, detail)
        return r

    def check(self, cond, label, detail=''):
        """a plain boolean, or a term"""
        if isinstance(cond, bool):
            return self.ok(label) if cond else self.fail(label, detail)
        return self.prove(cond if not isinstance(cond, SymBool) else cond.t, label, detail)

    def explore(self, fn, outcome, on_raise=None):
        t0 = time.time()
        try:
            def go():
                self.inputs = {}
                return fn()
            self.e.run_paths(go, outcome, on_raise)
        except Unsupported as ex:
            self.reason = f'{type(ex).__name__}: {ex}'
        except z3.Z3Exception as ex:
            self.reason = f'Z3: {ex}'
        except RecursionError:
            self.reason = 'recursion'
        except Exception as ex:     # noqa: BLE001
            self.reason = 'internal: ' + traceback.format_exc()[-900:]
        self.secs = time.time() - t0

    def result(self):
        self.e.frame_obligation(f'{self.key}.{self.name}')
        obs = self.e.obligations
        bad = [o for o in obs if o.status != 'discharged']
        st = 'proved'
        if any(o.status == 'refuted' for o in obs):
            st = 'refuted'
        elif self.reason or bad:
            st = 'undecided'
        elif not obs or not self.completed:
            st = 'undecided'
            self.reason = self.reason or 'no execution completes'
        return {'class': self.key, 'run': self.name, 'status': st, 'reason': self.reason,
                'n': len(obs), 'discharged': sum(o.status == 'discharged' for o in obs),
                'backends': _count(o.backend for o in obs if o.status == 'discharged'),
                'failed': [{'label': o.label, 'status': o.status, 'detail': str(o.detail)[:300]} for o in bad][:8],
                'cex': self.cex, 'paths': self.e.paths, 'solver_s': round(self.e.solver_time, 3),
                'secs': round(getattr(self, 'secs', 0), 3), 'queries': self.e.n_queries,
                'functions': sorted(self.I.inlined), 'contracts': sorted(self.C.used) if self.C else [], 'flags': []}


def guarded(key, run, f, *a, **k):
    t0 = time.time()
    try:
        d = f(*a, **k)
    except Unsupported as ex:
        d = empty(key, run, f'{type(ex).__name__}: {ex}')
    except Exception:       # noqa: BLE001
        d = empty(key, run, 'internal: ' + traceback.format_exc()[-900:])
    d['wall'] = round(time.time() - t0, 3)
    return d


# ------------------------------------------------------------------- C04 ----
def fac():
    return importlib.import_module('opendis.PduFactory')


def factory_known(lay, via='createPdu', budget=60.0):
    """createPdu(enc(v) ++ tail) is an instance of the class of v's PDU type with view v"""
    r = FRun(lay.key, via, budget, codec=True)
    S, e, I = r.S, r.e, r.I
    cls = S.cls_of(lay.name)
    r.C.target = cls
    ptype = LY.PDU_TYPE[lay.name]

    def fn():
        v = S.sym_view(lay)
        for c in S.constraints(lay, v):
            e.assume(c)
        e.assume(to_bv(v.attrs['pduType']) == ptype)
        r.inputs['view'] = ('view', v)
        chunks = S.enc(v) + [r.tail()]
        return v, call_factory(r, via, chunks)

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail(f'{lay.key}: {via} raises nothing', repr(val)[:200])
        v, o = val
        if type(o) is not cls:
            return r.fail(f'{lay.key}: class of the result', f'{type(o).__name__} instead of {cls.__name__}')
        r.ok(f'{lay.key}: class of the result')

        def post():
            try:
                got = S.abstract(o)
            except Mismatch as ex:
                return e.fail(f'{lay.key}: field values', str(ex))
            return S.veq(got, v, f'{lay.key}: field values')
        r.posts(post)
    r.explore(fn, outcome)
    return r.result()


PATH = '/scratch/packet.raw'


def call_factory(r, via, chunks):
    M = fac()
    if via == 'createPdu':
        return r.I.call(M.createPdu, (mk_bytes(chunks),))
    if via == 'createPduFromFilePath':
        r.I.models.files[PATH] = chunks
        return r.I.call(M.createPduFromFilePath, (PATH,))
    b = r.e.born(InBuf(chunks))
    st = r.I.instantiate(stream_classes()[0], (b,), {})
    return r.I.call(M.getPdu, (st,))


def factory_unknown(via='createPdu', budget=60.0):
    """a type octet that designates no implemented PDU gives None"""
    r = FRun('unregistered type', via, budget)
    known = sorted(set(LY.PDU_TYPE.values()))

    def fn():
        h = [r.octet('o0'), r.octet('o1'), r.octet('type')]
        r.e.assume(z3.And([h[2] != k for k in known]))
        r.inputs['rest'] = ('int', 0)
        return call_factory(r, via, h + [r.tail()])

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail(f'{via} raises nothing', repr(val)[:200])
        r.check(val is None, f'{via} returns None', f'returned {val!r}'[:200])
    r.explore(fn, outcome)
    return r.result()


def factory_default(name, budget=20.0):
    """a newly constructed PDU carries the type and family of its class, and no
    two implemented types name one class"""
    r = FRun(name, 'type of a new PDU', budget)

    def fn():
        return r.I.instantiate(r.S.cls_of(name), (), {})

    def outcome(kind, val):
        r.completed += 1
        if kind == 'exc':
            return r.fail(f'{name}() raises nothing', repr(val)[:200])
        for a, want in (('pduType', LY.PDU_TYPE[name]), ('protocolFamily', LY.FAMILY[name])):
            try:
                got = r.I.getattr(val, a)
            except PyExc as ex:
                got = ex.exc
            r.check(isinstance(got, int) and got == want, f'{name}().{a}', f'{got!r}, DIS 7 says {want}')
    r.explore(fn, outcome)
    return r.result()


def dispatch(job):
    """picklable entry: (kind, args..., budget)"""
    kind, args, budget = job
    lay = None
    if kind in ('factory', 'factory-file'):
        lay = next(l for l in LY.all_layouts() if l.key == args[0])
        via = 'createPdu' if kind == 'factory' else 'createPduFromFilePath'
        return guarded(lay.key, via, factory_known, lay, via, budget)
    if kind == 'factory-none':
        return guarded('unregistered type', args[0], factory_unknown, args[0], budget)
    if kind == 'factory-default':
        return guarded(args[0], 'type of a new PDU', factory_default, args[0], budget)
    raise ValueError(kind)
