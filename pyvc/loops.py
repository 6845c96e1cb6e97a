"""Loops.  Bounded-by-constant loops are unrolled (completely: every iteration is
executed).  A loop whose trip count is symbolic is verified with an invariant:
the loop body is executed once from an arbitrary iteration k of an inductive
candidate state, and the state after it must be the candidate state for k+1.
Candidates are inferred (append-only output stream, element-wise consumption of
the input stream, one append per iteration to a list, affine / prefix-sum
integer accumulators) but never trusted: each is re-established by execution."""
import ast
import types
import z3
from . import sym
from .attrs import attrs
from .sym import (Unsupported, PyExc, Poison, raised, SymInt, SymBool, SymFloat, SymBytes, SymStr, Seg, OpaqueSeg, Rec,
                  Blob, Rest, Wall, InBuf, OutBuf, CStruct, W, mk_int, mk_bool, is_byte, byte_to_int, ivl, to_bv,
                  bytes_chunks)
from .engine import Dead, mentions
from .views import freeze, materialize, subst_chunk, View, LView, Ref

UNROLL = 512
FEW = 8
BYHAND = 40


class InvFail(Unsupported):
    """no inductive invariant found for a loop"""


class Loops:
    def __init__(self, interp):
        self.i = interp
        self.e = interp.e

    # -- iterables ------------------------------------------------------------
    def parts(self, v):
        """list of concrete elements and Seg (payload = frozen element)"""
        from .models import SymRange, Plan
        m = self.i.models
        if isinstance(v, Poison):
            raise Unsupported('iteration over poisoned value')
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, SymRange):
            n = m.range_len(v)
            if isinstance(n, int):
                return [v.start + j * v.step for j in range(n)]
            k = m.kvar()
            return [Seg(n, k, [(z3.BoolVal(True), self._kint(k, n) * v.step + v.start)])]
        if isinstance(v, ListIter):
            return v.rest()
        if isinstance(v, (SymBytes, sym.SymArray)):
            out = []
            for c in v.chunks:
                if is_byte(c):
                    out.append(byte_to_int(c))
                elif isinstance(c, Blob):
                    k = m.kvar()
                    out.append(Seg(c.len, k, [(z3.BoolVal(True), byte_to_int(sym.norm_byte(c.byte(k))))]))
                elif isinstance(c, Seg) and all(len(p) == 1 and is_byte(p[0]) for _, p in c.cases):
                    out.append(Seg(c.n, c.k, [(cd, byte_to_int(p[0])) for cd, p in c.cases]))
                elif isinstance(c, Rec):
                    out.extend(self.parts(SymBytes(self.i.expand_rec(c))))
                else:
                    raise Unsupported('iteration over structured bytes')
            return out
        if isinstance(v, SymStr):
            return [sym.mk_str([c]) for c in v.cps]
        if isinstance(v, Plan):
            return self.plan_parts(v)
        if isinstance(v, (SymInt, SymBool, SymFloat)):
            raise PyExc(TypeError('object is not iterable'))
        if isinstance(v, Gen):
            out = self.e.born([])
            if v.consume(lambda x: self.i.models.l_append(out, x)) is not None:
                raise Unsupported('generator left')
            return list(out)
        d = getattr(type(v), '__iter__', None)
        if isinstance(d, types.FunctionType) and self.i.in_package(d):
            r = self.i.call(d, (v,))
            return self.parts(self.stepped(r) if self.steps(r) else r)
        if hasattr(v, '__next__') and self.e.born_at(v) == 0:
            self.e.outside.add(f'takes elements of a {type(v).__name__}')
        try:
            return list(v)
        except (Unsupported, PyExc):
            raise
        except Exception as ex:
            raise raised(ex)

    def steps(self, v):
        d = getattr(type(v), '__next__', None)
        return isinstance(d, types.FunctionType) and self.i.in_package(d) and d

    def stepped(self, v):
        """an iterator object of the package, as a generator"""
        def run(emit):
            for _ in range(UNROLL):
                try:
                    x = self.i.call(self.steps(v), (v,))
                except PyExc as ex:
                    if isinstance(ex.exc, StopIteration):
                        return
                    raise
                emit(x)
            raise Unsupported('iterator of many elements')
        return Gen(self.i, run)

    def _kint(self, k, n):
        return mk_int(k, 0, max(ivl(n)[1] - 1, 0)) if True else None

    def plan_parts(self, v):
        m = self.i.models
        if v.kind == 'enumerate':
            out, pos = [], v.args[1]
            for p in self.parts(v.args[0]):
                if isinstance(p, Seg):
                    if isinstance(p, OpaqueSeg):
                        raise Unsupported('enumerate opaque list')
                    out.append(Seg(p.n, p.k, [(c, LView([self._kint(p.k, p.n) + pos, x], tuple))
                                              for c, x in p.cases]))
                    pos = pos + p.n
                else:
                    out.append((pos, p))
                    pos = pos + 1
            return out
        if v.kind == 'zip':
            seqs = [self.parts(a) for a in v.args]
            if any(isinstance(x, Seg) for s in seqs for x in s):
                if all(len(s) == 1 and isinstance(s[0], Seg) and len(s[0].cases or []) == 1 for s in seqs):
                    s0 = seqs[0][0]
                    if all(m._eq(s[0].n, s0.n) for s in seqs):
                        from .views import subst
                        return [Seg(s0.n, s0.k, [(z3.BoolVal(True), LView(
                            [subst(s[0].cases[0][1], s[0].k, s0.k) for s in seqs], tuple))])]
                raise Unsupported('zip of symbolic lists')
            if v.strict and len({len(x) for x in seqs}) > 1:
                raise PyExc(ValueError('zip() arguments differ in length'))
            return list(zip(*seqs))
        if v.kind == 'reversed':
            ps = self.parts(v.args[0])
            if any(isinstance(x, Seg) for x in ps):
                if len(ps) == 1 and ps[0].cases is not None:
                    from .views import subst
                    s = ps[0]
                    r = to_bv(s.n) - 1 - s.k
                    return [Seg(s.n, s.k, [(z3.simplify(z3.substitute(c, (s.k, r))), subst(x, s.k, r))
                                           for c, x in s.cases])]
                raise Unsupported('reversed symbolic list')
            return ps[::-1]
        raise Unsupported(v.kind)

    # -- statements -----------------------------------------------------------
    def for_stmt(self, s, fr):
        it = self.i.ev(s.iter, fr)
        r = self.iterate(it, s.target, fr, lambda: self.i.block(s.body, fr), s)
        if r is not None and r.kind == 'break':
            return None
        if r is not None:
            return r
        if s.orelse:
            return self.i.block(s.orelse, fr)
        return None

    def iterate(self, it, target, fr, body, node=None):
        """returns a control signal (break/return) or None"""
        d = getattr(type(it), '__iter__', None)
        if isinstance(d, types.FunctionType) and not isinstance(it, Gen) and self.i.in_package(d):
            it = self.i.call(d, (it,))
            if self.steps(it):
                it = self.stepped(it)
        if isinstance(it, Gen):
            if getattr(it, 'guarded', False):
                raise Unsupported(f'generator {it.guarded} yields inside try or with')

            def emit(v):
                self.i.assign(target, v, fr)
                return body()
            return it.consume(emit)
        while isinstance(it, ListIter) and it.near():
            r = it.step()
            if r is None:
                return None
            self.i.assign(target, r[0], fr)
            r = body()
            if r is not None and r.kind in ('break', 'return'):
                return r
        live_list = it if type(it) is list else None
        parts = self.parts(it)
        idx = 0
        for p in parts:
            if isinstance(p, Seg):
                r = self.sym_loop(p, target, fr, body, live_list)
            else:
                n0 = len(live_list) if live_list is not None else None
                self.i.assign(target, p, fr)
                r = body()
                if n0 is not None and len(live_list) != n0:
                    raise Unsupported('list modified while iterating')
            if r is not None:
                if r.kind in ('break', 'return'):
                    return r
            idx += 1
        return None

    def each(self, it, fr, f):
        """f of every element, as it is produced; the signal with which f leaves"""
        box = [None]

        def take(v):
            box[0] = v
        return self.iterate(it, take, fr, lambda: f(box[0]))

    def pure(self, g):
        """the elements of a generator that only looks: when it runs does not matter"""
        e = self.e
        mark, serial = len(e.journal), e.serial
        ps = self.parts(g)
        for kind, obj, _, _ in e.journal[mark:]:
            if kind not in ('local', 'gen') and not kind.startswith('win') and e.born_at(obj) <= serial:
                raise Unsupported('generator with effects consumed in step with another')
        return ps

    def zip_iter(self, its, strict):
        """zip where one of the iterables is an iterator other code holds too"""
        M = self.i.models
        src = [x if isinstance(x, ListIter) else M.m_iter(x) for x in its]
        if strict or not all(isinstance(x, ListIter) for x in src):
            raise Unsupported('zip of an iterator')

        def run(emit):
            while True:
                row = []
                for x in src:
                    r = x.step()
                    if r is None:
                        return
                    row.append(r[0])
                emit(tuple(row))
        return Gen(self.i, run)

    def zip_gen(self, its, strict):
        """zip where one of the iterables is a generator with effects"""
        gens = [j for j, x in enumerate(its) if isinstance(x, Gen)]
        seqs = [None if j == gens[0] else self.pure(x) if isinstance(x, Gen) else self.parts(x)
                for j, x in enumerate(its)]
        g = gens[0]
        if strict or any(isinstance(y, Seg) for s in seqs if s for y in s):
            raise Unsupported('zip of a generator')
        before = min([len(s) for s in seqs[:g]], default=None)
        after = min([len(s) for s in seqs[g + 1:]], default=None)
        depth = self.e.kdepth

        def run(emit):
            n = [0]
            if before == 0:
                return

            def f(v):
                if self.e.kdepth != depth:
                    raise Unsupported('zip of a generator')
                j = n[0]
                n[0] += 1
                if after is not None and j >= after:
                    return BREAK
                emit(tuple(v if s is None else s[j] for s in seqs))
                return BREAK if n[0] == before else None
            self.each(its[g], None, f)
        return Gen(self.i, run)

    def while_stmt(self, s, fr):
        n = byhand = 0
        while True:
            mark, nob = len(self.e.journal), len(self.e.obligations)
            t = self.i.ev(s.test, fr)
            if isinstance(t, (SymBool, SymInt)) or n > UNROLL:
                z = t.t if isinstance(t, SymBool) else (t.t != 0) if isinstance(t, SymInt) else None
                if z is None or not (self.e.implied(z) or self.e.implied(z3.Not(z))):
                    if n > UNROLL or byhand > BYHAND:
                        raise Unsupported('loop bound')
                    self.e.rollback(mark)
                    del self.e.obligations[nob:]
                    if not byhand:
                        cx = _LoopState()
                        try:
                            return self.sym_while(s, fr, cx)
                        except Unsupported:
                            # no invariant: iteration by iteration, on the paths that take them
                            if cx.committed or self.e.kdepth:
                                raise
                        self.e.rollback(mark)
                        del self.e.obligations[nob:]
                    t = self.i.ev(s.test, fr)
                    byhand += 1
            if not self.i.truth(t):
                break
            n += 1
            r = self.i.block(s.body, fr)
            if r is not None:
                if r.kind == 'break':
                    return None
                if r.kind == 'return':
                    return r
        if s.orelse:
            return self.i.block(s.orelse, fr)
        return None

    def sym_while(self, s, fr, cx):
        """while g: body, from a state where g is undetermined.  The trip count
        N is a fresh constant characterised by g(k) for k<N and not g(N)."""
        if not self.i.truth(self.i.ev(s.test, fr)):
            if s.orelse:
                return self.i.block(s.orelse, fr)
            return None
        nvar = self.e.fresh('N', z3.BitVecSort(W))
        self.e.assume(z3.And(nvar >= 1, nvar < (1 << 40)))
        N = mk_int(nvar, 1, (1 << 40) - 1)
        k = self.i.models.kvar()
        seg = Seg(N, k, [(z3.BoolVal(True), None)])
        return self.sym_loop(seg, None, fr, lambda: self.i.block(s.body, fr), None, while_node=s, cx=cx)

    # -- the loop rule ----------------------------------------------------------
    def sym_loop(self, seg, target, fr, body, live_list, while_node=None, cx=None):
        e, I = self.e, self.i
        N = seg.n
        if isinstance(N, int):
            if N == 0:
                return None
            if N <= UNROLL:
                for j in range(N):
                    if target is not None:
                        I.assign(target, materialize(I, seg, z3.BitVecVal(j, W)), fr)
                    r = body()
                    if r is not None and r.kind in ('break', 'return'):
                        return r
                return None
        depth = e.kdepth
        k = z3.BitVec(f'k@{depth}', W)
        e.kdepth += 1
        mark, nob = len(e.journal), len(e.obligations)
        st = cx or _LoopState()
        try:
            return self._sym_loop(seg, N, k, target, fr, body, live_list, while_node, st)
        except Unsupported:
            # an iteration count of few values needs no invariant
            if while_node is not None or st.committed or N.hi - N.lo > FEW or depth:
                raise
        finally:
            e.kdepth = depth
        e.rollback(mark)
        del e.obligations[nob:]
        for j in range(max(I.models.enumerated(N, FEW), 0)):
            n0 = len(live_list) if live_list is not None else None
            if target is not None:
                I.assign(target, materialize(I, seg, z3.BitVecVal(j, W)), fr)
            r = body()
            if n0 is not None and len(live_list) != n0:
                raise Unsupported('list modified while iterating')
            if r is not None and r.kind in ('break', 'return'):
                return r
        return None

    def _sym_loop(self, seg, N, k, target, fr, body, live_list, while_node, st):
        e, I = self.e, self.i
        real_on_raise, nob = e.on_raise, len(e.obligations)
        stable = False
        for rnd in range(10):
            self._resolve_lazy(st, k, N, while_node)
            e.on_raise = (lambda c, x: None) if not stable else real_on_raise
            if real_on_raise is None:
                e.on_raise = None
            try:
                changed = self._attempt(seg, N, k, target, fr, body, while_node, st)
            finally:
                e.on_raise = real_on_raise
            if changed:
                stable = False
                del e.obligations[nob:]
                continue
            if stable or real_on_raise is None:
                break
            stable = True
            del e.obligations[nob:]
        else:
            raise InvFail('no stable loop invariant found')
        if live_list is not None and id(live_list) in st.lists:
            raise Unsupported('list modified while iterating')
        if st.other:
            raise InvFail('break/return inside a loop of symbolic length')
        st.committed = True
        if st.raises:
            if e.choose() is False:
                if getattr(e, 'any_raise', False):      # which exception does not matter
                    raise PyExc(st.raises[0])
                kk = e.fresh('kr', z3.BitVecSort(W))
                self._run_concrete_raise(seg, N, k, kk, target, fr, body, while_node, st)
                raise Dead()
        if not st.ends:
            # every iteration raises: the loop completes only without iterations
            e.assume(to_bv(N) <= 0)
            return None
        self._apply(seg, N, k, target, fr, st)
        inst = z3.substitute(z3.Or([r['conds'] for r in st.ends]), (k, z3.simplify(to_bv(N) - 1)))
        e.add(z3.Implies(to_bv(N) >= 1, inst))
        if while_node is not None:
            if I.truth(I.ev(while_node.test, fr)):
                raise Dead()
            for ent in st.ins.values():
                if ent['mode'] == 'elem' and not I.models._eq(N, ent['seg'].n):
                    raise InvFail('loop does not consume exactly the elements present')
        return None

    # candidate state at iteration k ------------------------------------------------
    def _prep(self, k, N, st):
        e, I = self.e, self.i
        for (kind, oid, name), ent in st.scal.items():
            if ent['entry'] is not _LAZY:
                self._raw_set(kind, ent['obj'], name, self._cand(ent, k))
        for ent in st.lists.values():
            if ent['entry'] is _LAZY:
                continue
            l = ent['obj']
            I.snapshot(l)
            l[:] = ent['entry'] + [OpaqueSeg(mk_int(k, 0, max(ivl(N)[1], 1)))]
        for ent in st.outs.values():
            b = ent['obj']
            old = b.chunks

            def undo(b=b, old=old):
                b.chunks = old
            e.log('winout', b, None, undo)
            b.chunks = []
        for ent in st.ins.values():
            if ent['mode'] is _LAZY:
                continue
            b = ent['obj']
            I.models.log_in(b)
            b.chunks = self._in_window(ent, k)
            b.past = []

    def _in_window(self, ent, k):
        if ent['mode'] == 'elem':
            return I_seg_elem(self.i, ent['seg'], k) + [Wall('end of element')]
        if ent['mode'] == 'blob':
            bl, w = ent['blob'], ent['width']
            if w is None:
                return [Wall('blob element width unknown')]
            off = bl.off + mk_int(k, 0, LIMK) * w
            return [sym.norm_byte(bl.base(z3.simplify(to_bv(off) + j))) for j in range(w)] + \
                [Wall('end of element')]
        if ent['mode'] == 'rest':
            return [Rest(ent['rest'].name)]
        return [Wall('stream not consumed by the candidate invariant')]

    def _cand(self, ent, k):
        if not ent['probe']:
            return Poison(f'{ent["name"]} modified in loop')
        if ent['delta'] is None:
            return ent['entry']          # discovery round
        ki = mk_int(k, 0, LIMK)
        d = ent['delta']
        if isinstance(d, int) or not mentions(d.t, k):
            return ent['entry'] + ki * d
        return ent['entry'] + self.e.sum_upto(d, k, ki)

    def _raw_set(self, kind, obj, name, v):
        e = self.e
        d = obj.locals if kind == 'local' else obj.vals if isinstance(obj, CStruct) else attrs(obj)
        had, old = name in d, d.get(name)

        def undo():
            if had:
                d[name] = old
            else:
                d.pop(name, None)
        d[name] = v
        e.log('win' + kind, obj, name, undo)

    def _raw_get(self, kind, obj, name):
        d = obj.locals if kind == 'local' else obj.vals if isinstance(obj, CStruct) else attrs(obj)
        return d.get(name, _MISSING)

    def _resolve_lazy(self, st, k, N, while_node):
        """fill in the loop-entry values of newly discovered written locations"""
        for (kind, _, name), ent in st.scal.items():
            if ent['entry'] is _LAZY:
                v = ent['entry'] = self._raw_get(kind, ent['obj'], name)
                ent['probe'] = isinstance(v, (int, SymInt)) and not isinstance(v, bool)
        for ent in st.lists.values():
            if ent['entry'] is _LAZY:
                ent['entry'] = list(ent['obj'])
        for ent in st.ins.values():
            if ent['mode'] is _LAZY:
                b = ent['obj']
                self.i.models.skip_empty(b)
                c = b.chunks[0] if b.chunks else None
                if isinstance(c, Seg) and (while_node is not None or self.i.models._eq(c.n, N)):
                    ent['mode'], ent['seg'] = 'elem', c
                elif isinstance(c, Rest):
                    ent['mode'], ent['rest'] = 'rest', c
                elif isinstance(c, Blob):
                    ent['mode'], ent['blob'], ent['width'] = 'blob', c, 1
                else:
                    ent['mode'] = 'none'

    def _attempt(self, seg, N, k, target, fr, body, while_node, st):
        """execute an arbitrary iteration from the candidate state; True if the
        write set grew or a candidate had to be changed"""
        e, I = self.e, self.i
        st.ends, st.raises, st.other = [], [], []
        chg = [False]
        mark = {}
        for ent in st.scal.values():
            ent['diffs'] = []
        for ent in st.ins.values():
            ent.pop('min_bytes', None)

        def fn():
            self._prep(k, N, st)
            mark['j'], mark['serial'] = len(e.journal), e.serial
            st.frames = Frame.count
            e.assume(z3.And(k >= 0, k < to_bv(N)))
            if while_node is not None:
                npc, nf = len(e.pc), e.counter
                t = I.ev(while_node.test, fr)
                plain = len(e.pc) == npc and e.counter == nf
                st.guard = t.t if plain and isinstance(t, SymBool) else \
                    t.t != 0 if plain and isinstance(t, SymInt) else None
                if not I.truth(t):
                    raise Dead()
            if target is not None:
                I.assign(target, materialize(I, seg, k), fr)
            return body()

        def on_end(kind, val, conds, jslice):
            self._collect_writes(e.journal[mark['j']:], mark['serial'], fr, st, chg)
            if kind == 'exc':
                if e.try_depth == 0 and e.on_raise is not None:
                    e.on_raise(z3.BoolVal(True), val)
                else:
                    st.raises.append(val)
                return
            if val is not None and val.kind in ('break', 'return'):
                st.other.append(val.kind)
                return
            conds_z = z3.And(conds) if conds else z3.BoolVal(True)
            for (kd, _, name), ent in st.scal.items():
                if not ent['probe'] or ent['entry'] is _LAZY:
                    continue
                cur = self._raw_get(kd, ent['obj'], name)
                if not isinstance(cur, (int, SymInt)) or isinstance(cur, bool):
                    ent['probe'], chg[0] = False, True
                    continue
                diff = cur - self._cand(ent, k)
                if ent['delta'] is None:
                    ent['diffs'].append((conds_z, diff))
                    chg[0] = True
                else:
                    d = ent['delta']
                    if not ((isinstance(diff, int) and isinstance(d, int) and diff == d) or
                            (not (isinstance(diff, int) and isinstance(d, int)) and
                             e.implied(to_bv(diff) == to_bv(d)))):
                        ent['probe'], chg[0] = False, True
            if chg[0]:
                return
            for ent in st.ins.values():
                self._check_in(ent, k, while_node, st)
            rec = {'conds': conds_z, 'lists': {}, 'outs': {}}
            for lid, ent in st.lists.items():
                l, base = ent['obj'], len(ent['entry']) + 1
                if len(l) < base or any(a is not b for a, b in zip(l, ent['entry'])) or \
                        not isinstance(l[base - 1], OpaqueSeg):
                    raise InvFail('list changed other than by appending in a loop')
                new = l[base:]
                if len(new) != 1 or isinstance(new[0], Seg):
                    raise InvFail(f'{len(new)} appends in one iteration')
                rec['lists'][lid] = freeze(I, new[0], since=mark['serial'])
            for oid, ent in st.outs.items():
                rec['outs'][oid] = list(ent['obj'].chunks)
            st.ends.append(rec)

        e.subexplore(fn, on_end)
        for ent in st.scal.values():
            if ent['entry'] is not _LAZY and ent['probe'] and ent['delta'] is None and ent['diffs']:
                ds = ent['diffs']
                d = ds[-1][1]
                for c, x in ds[-2::-1]:
                    if isinstance(x, int) and isinstance(d, int) and x == d:
                        continue
                    lo, hi = min(ivl(x)[0], ivl(d)[0]), max(ivl(x)[1], ivl(d)[1])
                    d = mk_int(z3.If(c, to_bv(x), to_bv(d)), lo, hi)
                ent['delta'] = d
        return chg[0]

    def _collect_writes(self, js, serial, fr, st, chg):
        e = self.e
        mat = e.flags.get('materialized', {})
        for kind, obj, name, _ in js:
            if kind.startswith('win'):
                continue
            if kind == 'local':
                if obj.serial > st.frames:      # a frame of this iteration
                    continue
                self._new_scal(st, kind, obj, name, chg)
            elif kind == 'attr':
                if id(obj) in mat:
                    raise InvFail('list element modified inside the loop')
                if e.born_at(obj) > serial:
                    continue
                self._new_scal(st, kind, obj, name, chg)
            elif kind == 'list':
                if id(obj) in mat:
                    raise InvFail('list element modified inside the loop')
                if e.born_at(obj) > serial:
                    continue
                if id(obj) not in st.lists:
                    st.lists[id(obj)] = {'obj': obj, 'entry': _LAZY}
                    chg[0] = True
            elif kind == 'out':
                if e.born_at(obj) > serial:
                    continue
                if id(obj) not in st.outs:
                    st.outs[id(obj)] = {'obj': obj}
                    chg[0] = True
            elif kind == 'in':
                if e.born_at(obj) > serial:
                    continue
                if id(obj) not in st.ins:
                    st.ins[id(obj)] = {'obj': obj, 'mode': _LAZY}
                    chg[0] = True
            elif kind in ('dict', 'set', 'ndarray', 'classattr', 'gen') and e.born_at(obj) > serial:
                continue
            else:
                raise InvFail(f'{kind} written inside a loop of symbolic length')

    def _new_scal(self, st, kind, obj, name, chg):
        key = (kind, id(obj), name)
        if key not in st.scal:
            st.scal[key] = {'obj': obj, 'name': name, 'entry': _LAZY, 'probe': False, 'delta': None, 'diffs': []}
            chg[0] = True

    def _check_in(self, ent, k, while_node, st):
        b = ent['obj']
        if ent['mode'] == 'rest':
            n = sum(1 for c in b.past if is_byte(c))
            for c in b.past:
                if not is_byte(c):
                    n += ivl(self.i.models.chunk_len(c))[0]
            ent['min_bytes'] = min(ent.get('min_bytes', 1 << 30), n)
            if b.chunks and not (len(b.chunks) == 1 and isinstance(b.chunks[0], Rest)):
                raise InvFail('input window')
            return
        if len(b.chunks) != 1 or not isinstance(b.chunks[0], Wall):
            raise InvFail('loop body does not consume exactly one element')
        if ent['mode'] == 'elem' and while_node is not None:
            n = to_bv(ent['seg'].n)
            inside = k < n
            if st.guard is not None and all(s['delta'] is None or isinstance(s['delta'], int) or
                                            not mentions(s['delta'].t, k) for s in st.scal.values()):
                # the guard held at every iteration up to this one: at the n-th, had there been one
                inside = z3.Implies(z3.Implies(n <= k, z3.substitute(st.guard, (k, n))), inside)
            if not self.e.implied(inside):
                raise InvFail('loop may run past the last element')

    def _run_concrete_raise(self, seg, N, k, kk, target, fr, body, while_node, st):
        """re-execute one iteration on the path where it raises (after which
        control leaves the loop by the exception)"""
        e, I = self.e, self.i
        e.assume(z3.And(kk >= 0, kk < to_bv(N)))
        self._prep(kk, N, st)
        if while_node is not None and not I.truth(I.ev(while_node.test, fr)):
            raise Dead()
        if target is not None:
            I.assign(target, materialize(I, seg, kk), fr)
        body()

    def _apply(self, seg, N, k, target, fr, st):
        e, I = self.e, self.i
        M = I.models
        for (kind, _, name), ent in st.scal.items():
            d = ent['delta']
            if ent['probe'] and d is not None:
                if isinstance(d, int) or not mentions(d.t, k):
                    v = ent['entry'] + N * d
                else:
                    v = ent['entry'] + e.sum_upto(d, k, N)
            else:
                v = Poison(f'{name} after loop')
            self._raw_set(kind, ent['obj'], name, v)
            j = e.journal[-1]
            e.journal[-1] = (kind, j[1], j[2], j[3])
        for lid, ent in st.lists.items():
            l = ent['obj']
            I.snapshot(l)
            l[:] = ent['entry'] + [Seg(N, k, [(r['conds'], r['lists'][lid]) for r in st.ends])]
        for oid, ent in st.outs.items():
            if any(r['outs'][oid] for r in st.ends):
                M.out_write(ent['obj'], SymBytes([Seg(N, k, [(r['conds'], r['outs'][oid]) for r in st.ends])]))
        if not any(ent['mode'] == 'rest' for ent in st.ins.values()):
            M.work(N)
        for ent in st.ins.values():
            b = ent['obj']
            if ent['mode'] == 'elem':
                M.take(b, [b.chunks[0]], b.chunks[1:])
            elif ent['mode'] == 'blob':
                M.in_read(b, N * ent['width'])
            elif ent['mode'] == 'rest':
                if ent.get('min_bytes', 0) < 1:
                    e.flags['unproductive_loop'] = True
                f = z3.Function(e.fresh_name('lp'), z3.BitVecSort(W), z3.BitVecSort(8))
                m = e.fresh('lpn', z3.BitVecSort(W))
                least = ent.get('min_bytes', 0)
                e.assume(z3.And(m >= to_bv(N) * least, m < (1 << 48)))
                M.log_in(b)
                b.past = b.past + [Blob(f, 0, mk_int(m, 0, 1 << 48))]
            else:
                raise InvFail('input stream position after the loop is unknown')


class _LoopState:
    def __init__(self):
        self.lists, self.scal, self.outs, self.ins = {}, {}, {}, {}
        self.ends, self.raises, self.other = [], [], []
        self.committed = False
        self.guard = None


_LAZY = object()
_MISSING = Poison('unset before loop')
LIMK = 1 << 40


def I_seg_elem(interp, s, k):
    if len(s.cases) == 1:
        return [subst_chunk(c, s.k, k) for c in s.cases[0][1]]
    return interp.models.seg_at(s, k)


class _CompFrame:
    def __init__(self):
        self.fr = Frame({}, {'x'}, None, None, 'generator')


from .models import ListIter     # noqa: E402
from .interp import BREAK, Frame, Gen     # noqa: E402  (interp imports this module)
