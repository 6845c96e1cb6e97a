"""Path enumeration by deterministic re-execution, proof obligations, heap journal."""
import time
import z3
from . import sym
from .sym import (Unsupported, PyExc, SymInt, SymBool, SymFloat, W, mk_int, to_z3bool)


class Dead(BaseException):
    """infeasible path"""


class Stop(BaseException):
    """path deliberately ended by the harness"""


class Budget(Unsupported):
    pass


class Obligation:
    __slots__ = ('label', 'status', 'model', 'detail', 'backend', 'secs', 'func', 'neg')

    def __init__(self, label, status, func='', model=None, detail='', backend='z3', secs=0.0):
        self.label, self.status, self.func = label, status, func
        self.model, self.detail, self.backend, self.secs = model, detail, backend, secs
        self.neg = None

    def __repr__(self):
        return f'{self.label}: {self.status} {self.detail}'


class Engine:
    def __init__(self, timeout_ms=8000, time_budget=120.0, name=''):
        self.name = name
        self.timeout = timeout_ms
        self.deadline = time.time() + time_budget
        self.solver_time = 0.0
        self.n_queries = 0
        self.obligations = []
        self.paths = 0
        self.max_paths = 4000
        self.smt_dump = None
        sym.set_engine(self)
        self._reset()

    # -- path state ---------------------------------------------------------
    def _reset(self):
        if not hasattr(self, 'outside'):
            self.outside = set()
        self.trail, self.idx = [], 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.counter = 0
        self.journal = []
        self.birth = {}
        self.serial = 0
        self.try_depth = 0
        self.kdepth = 0
        self.on_raise = None
        self.flags = {}
        self.sums = {}

    def tick(self):
        if time.time() > self.deadline:
            raise Budget('time budget exhausted')

    def fresh(self, base, sort):
        self.counter += 1
        return z3.Const(f'{base}!{self.counter}', sort)

    def fresh_name(self, base):
        self.counter += 1
        return f'{base}!{self.counter}'

    # -- solver -------------------------------------------------------------
    def check(self, *extra):
        self.tick()
        t = time.time()
        self.n_queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def add(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, c):
        c = to_z3bool(c)
        self.add(c)
        if z3.is_false(z3.simplify(c)):
            raise Dead()

    def feasible(self, c=None):
        r = self.check(*([c] if c is not None else []))
        return r != z3.unsat

    def decide(self, cond):
        cond = z3.simplify(to_z3bool(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.idx < len(self.trail):
            v = self.trail[self.idx][0]
            self.idx += 1
            self.add(cond if v else z3.Not(cond))
            return v
        rt = self.check(cond)
        if rt == z3.unsat:
            self.trail.append([False, True])
            self.idx += 1
            self.add(z3.Not(cond))
            return False
        rf = self.check(z3.Not(cond))
        if rf == z3.unsat:
            self.trail.append([True, True])
            self.idx += 1
            self.add(cond)
            return True
        # 'unknown' counts as feasible: exploring an infeasible path is sound
        self.trail.append([True, False])
        self.idx += 1
        self.add(cond)
        return True

    def implied(self, cond):
        """True if cond holds on this path (no fork)."""
        cond = z3.simplify(to_z3bool(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.check(z3.Not(cond)) == z3.unsat

    def choose(self):
        """non-deterministic boolean; True explored first."""
        if self.idx < len(self.trail):
            v = self.trail[self.idx][0]
            self.idx += 1
            return v
        self.trail.append([True, False])
        self.idx += 1
        return True

    def maybe_raise(self, cond, exc):
        """the program raises exc iff cond.  Without an enclosing handler the
        raising path is reported on the spot instead of being re-executed."""
        cond = z3.simplify(to_z3bool(cond)) if cond is not True else z3.BoolVal(True)
        if z3.is_false(cond):
            return
        if self.try_depth == 0 and self.on_raise is not None and not z3.is_true(cond):
            if self.check(cond) != z3.unsat:
                self.on_raise(cond, exc)
            self.add(z3.Not(cond))
            if self.check() == z3.unsat:
                raise Dead()
            return
        if self.decide(cond):
            raise PyExc(exc)

    # -- obligations --------------------------------------------------------
    def prove(self, goal, label, func='', extra=()):
        goal = to_z3bool(goal)
        g = z3.simplify(goal)
        t0 = time.time()
        if z3.is_true(g):
            ob = Obligation(label, 'discharged', func, backend='simplifier')
        else:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
            self.solver.add(z3.Not(g))
            r = self.check()
            if r == z3.unsat:
                ob = Obligation(label, 'discharged', func, secs=time.time() - t0)
            elif r == z3.sat:
                ob = Obligation(label, 'refuted', func, model=self.solver.model(),
                                detail=str(g)[:300], secs=time.time() - t0)
            else:
                ob = Obligation(label, 'unknown', func, detail=self.solver.reason_unknown(),
                                secs=time.time() - t0)
                if self._cvc5(self.solver):
                    ob.status, ob.backend, ob.detail = 'discharged', 'cvc5', ''
            self.solver.pop()
            ob.neg = z3.And([z3.Not(g)] + [to_z3bool(x) for x in extra])
        self.obligations.append(ob)
        return ob.status == 'discharged'

    def _cvc5(self, solver):
        try:
            import cvc5
            smt = solver.to_smt2()
            tm = cvc5.Solver()
            tm.setOption('tlimit-per', '10000')
            p = cvc5.InputParser(tm)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, 'q')
            sm = p.getSymbolManager()
            res = ''
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                res += c.invoke(tm, sm)
            return 'unsat' in res.split()
        except BaseException:
            return False

    def fail(self, label, detail='', func='', model=None):
        """an obligation that is structurally false on the current path"""
        if model is None:
            r = self.check()
            if r == z3.unsat:
                self.obligations.append(Obligation(label, 'discharged', func,
                                                   detail='path infeasible'))
                return True
            model = self.solver.model() if r == z3.sat else None
        self.obligations.append(Obligation(label, 'refuted', func, model=model, detail=detail))
        return False

    def ok(self, label, func='', backend='structural'):
        self.obligations.append(Obligation(label, 'discharged', func, backend=backend))
        return True

    # -- exploration --------------------------------------------------------
    @staticmethod
    def _backtrack(trail):
        while trail and trail[-1][1]:
            trail.pop()
        if not trail:
            return False
        trail[-1] = [not trail[-1][0], True]
        return True

    def run_paths(self, fn, on_outcome, on_raise=None):
        """run fn() on every path; on_outcome(kind, value) with the path live."""
        trail = []
        while True:
            self._reset()
            self.trail = trail
            self.on_raise = on_raise
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget('too many paths')
            try:
                try:
                    v = fn()
                    on_outcome('ok', v)
                except PyExc as e:
                    on_outcome('exc', e.exc)
            except (Dead, Stop):
                pass
            finally:
                self.rollback(0)
            if not self._backtrack(trail):
                return
            if sum(o.status == 'refuted' for o in self.obligations) >= 12:
                # the verdict is settled
                raise Budget('exploration stopped: enough obligations are refuted')

    # -- journal ------------------------------------------------------------
    def born(self, obj):
        self.serial += 1
        self.birth[id(obj)] = (self.serial, obj)
        return obj

    def born_at(self, obj):
        e = self.birth.get(id(obj))
        return e[0] if e is not None and e[1] is obj else 0

    def log(self, kind, obj, key, undo):
        self.journal.append((kind, obj, key, undo))
        if kind in ('global', 'cell') or kind in ('classattr', 'attr', 'list', 'dict', 'set', 'ndarray') and \
                self.born_at(obj) == 0:
            w = getattr(obj, '__qualname__', None) or (obj.get('__name__', 'a dict') if kind == 'global' else
                                                       f'a {type(obj).__name__}')
            self.outside.add(f'writes {w}{"." + str(key) if key else ""}')

    def frame_obligation(self, name):
        """nothing that outlives the call is written or consulted, except the objects and
        streams the contract is about: every proof of this run rests on it"""
        if self.outside:
            self.fail(f'{name}: frame', ', '.join(sorted(self.outside))[:300])
        elif self.obligations:
            self.ok(f'{name}: frame')

    def rollback(self, mark):
        while len(self.journal) > mark:
            self.journal.pop()[3]()

    def subexplore(self, fn, on_end):
        """explore every sub-path of fn from the current state; all heap effects
        are rolled back after each.  on_end(kind, value, conds, journal_slice) is
        called with the sub-path still live."""
        save = (self.trail, self.idx, len(self.pc), self.on_raise)
        base = len(self.journal)
        trail = []
        n = 0
        try:
            while True:
                n += 1
                if n > 300:
                    raise Budget('too many sub-paths in loop body')
                self.trail, self.idx = trail, 0
                self.solver.push()
                try:
                    try:
                        v = fn()
                        on_end('ok', v, self.pc[save[2]:], self.journal[base:])
                    except PyExc as e:
                        on_end('exc', e.exc, self.pc[save[2]:], self.journal[base:])
                    except (Dead, Stop):
                        pass
                finally:
                    self.rollback(base)
                    self.solver.pop()
                    del self.pc[save[2]:]
                if not self._backtrack(trail):
                    return
        finally:
            self.trail, self.idx, _, self.on_raise = save

    # -- prefix sums over loop iterations ------------------------------------
    def prefix_sum(self, c, kvar):
        """S with S(0)=0, S(k+1)=S(k)+c(k): interned by the term c(k)."""
        key = (c.t.sexpr(), kvar.sexpr())
        f = self.sums.get(key)
        if f is None:
            f = z3.Function(f'sum!{len(self.sums)}', z3.BitVecSort(W), z3.BitVecSort(W))
            self.sums[key] = f
        self.add(f(z3.BitVecVal(0, W)) == 0)
        return f

    def sum_upto(self, c, kvar, n):
        """sum of c(k) for k in [0,n), as an int"""
        from .sym import ivl, to_bv
        if isinstance(c, int):
            return n * c
        if not mentions(c.t, kvar):
            # loop-independent
            return n * c
        f = self.prefix_sum(c, kvar)
        nlo, nhi = ivl(n)
        lo = min(0, c.lo * nhi) if c.lo < 0 else c.lo * max(nlo, 0)
        hi = max(0, c.hi * nhi)
        t = f(to_bv(n))
        r = mk_int(t, lo, hi)
        if isinstance(r, SymInt):
            self.add(z3.And(t >= z3.BitVecVal(lo, W), t <= z3.BitVecVal(hi, W)))
            # c.lo * n <= S(n) <= c.hi * n
            nb = to_bv(n)
            self.add(z3.And(t >= nb * z3.BitVecVal(c.lo, W), t <= nb * z3.BitVecVal(c.hi, W)))
        return r


def mentions(t, v):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        st.extend(x.children())
    return False
