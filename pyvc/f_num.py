"""D01-D03, G01-G05: contracts of the numeric modules in exact real arithmetic.

Every function of opendis/DeadReckoning.py and opendis/RangeCoordinates.py named
here is executed, from the source of /repo, on symbolic reals (pyvc/real.py); the
postconditions are polynomial identities decided by normal form ('ring') and
inequalities decided by z3."""
import math
import os
import random
import sys
import time
import traceback
import types
import weakref
from fractions import Fraction
import numpy as np
import z3
from . import real
from .real import R, Ctx, Cond, Loader, Unsupported, Infeasible, equal, explore, sincos, sqrt, det3, PI, Numerals

REPO = os.environ.get('VERIF_REPO', '/repo')
DR = 'opendis.DeadReckoning'
RC = 'opendis.RangeCoordinates'
WGS_A = Fraction(6378137)
WGS_B = Fraction('6356752.3142')


class NRun:
    """one contract, all paths"""

    def __init__(self, key, name, budget=60.0):
        self.key, self.name, self.budget = key, name, budget
        self.obs = []
        self.cex = []
        self.paths = 0
        self.completed = 0
        self.solver_s, self.queries = 0.0, 0
        self.functions = set()
        self.reason = None
        self.kinds = {}
        self.c = None
        self.used = set()
        self.watched = []
        self.rng = random.Random(7)

    # inputs
    def inp(self, name, kind='real'):
        self.kinds[name] = kind
        return R.g(self.c.gen(name, lambda env: env['in'][name]))

    def vec(self, name, kind='real', n=3):
        return [self.inp(f'{name}{j}', kind) for j in range(n)]

    def given(self, cond):
        """assume a Cond (or nothing when it is known to hold)"""
        if isinstance(cond, Cond):
            self.c.pc.append(cond)

    def positive(self, r):
        """assume r > 0; used for denominators and radii as well"""
        self.c.__dict__.setdefault('positives', []).append(r)
        self.given(r > 0)

    # obligations
    def add(self, label, status, backend='ring', detail=''):
        self.obs.append((label, status, backend, detail))
        return status == 'discharged'

    def eq(self, a, b, label):
        """a = b as real functions of the inputs on this path"""
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if R.of(a) is None if not isinstance(a, (list, tuple, np.ndarray, str)) else True:
            return self.fail(label, f'{type(a).__name__} instead of a number')
        a, b = R.of(a), R.of(b)
        for x in (a, b):
            if x.den is not None:
                self.c.nonzero.append(R(x.den))
        if equal(a, b):
            return self.add(label, 'discharged')
        a2, b2 = self.subst(a), self.subst(b)
        if a2 is not None and b2 is not None and equal(a2, b2):
            return self.add(label, 'discharged')
        small = len(a.num) + len(a.d()) + len(b.num) + len(b.d()) < 120
        if small and self.c.pc and self.c.ask(Cond(R(real.padd(real.pmul(a.num, b.d()), real.pmul(b.num, a.d()), -1)), '!=')) == 'unsat':
            return self.add(label, 'discharged', 'z3')
        if not self.possible():
            return self.add(label, 'discharged', 'z3')

        def bad(env):
            x, y = a.ev(env), b.ev(env)
            return abs(x - y) > 1e-7 * (1e-3 + abs(x) + abs(y))
        hit = self.sample(bad, label)
        return self.add(label, 'refuted' if hit else 'undecided', 'ring', f'{a!r} is not {b!r}'[:300])

    def possible(self):
        return self.c.ask() != 'unsat'

    def subst(self, r):
        """r with the inputs the path condition fixes to a value replaced"""
        for c in self.c.pc:
            if c.op != '==' or c.r.den is not None:
                continue
            lin = [(m, k) for m, k in c.r.num.items() if m]
            if len(lin) != 1:
                continue
            m, k = lin[0]
            ex = list(real.exps(m))
            if len(ex) != 1 or ex[0][1] != 1:
                continue
            v = R.of(-Fraction(c.r.num.get(0, 0)) / k)
            r = replace(r, ex[0][0], v)
            if r is None:
                return None
        return r

    def holds(self, cond, label):
        if isinstance(cond, (bool, np.bool_)):
            return self.add(label, 'discharged', 'evaluation') if cond else self.fail(label, 'false')
        if not isinstance(cond, Cond):
            return self.fail(label, f'{cond!r}')
        if nonneg(cond):
            return self.add(label, 'discharged', 'ring')
        if cond.size() > 80:
            r = 'unknown'
        else:
            r = self.c.ask(cond.neg())
        if r == 'unsat':
            return self.add(label, 'discharged', 'z3')
        hit = self.sample(lambda env: not cond.ev(env) and abs(cond.r.ev(env)) > 1e-6, label)
        return self.add(label, 'refuted' if hit else 'undecided', 'z3', f'{cond!r}'[:300])

    def ok(self, label):
        return self.add(label, 'discharged', 'execution')

    def fail(self, label, detail=''):
        if not self.possible():
            return self.add(label, 'discharged', 'z3')
        self.sample(lambda env: True, label)
        return self.add(label, 'refuted', 'execution', detail[:300])

    def check(self, b, label, detail=''):
        return self.ok(label) if b else self.fail(label, detail)

    def array(self, a, shape, label):
        """the values of an array-like result, or None"""
        try:
            x = np.array(a, dtype=object)
        except Exception as ex:     # noqa: BLE001
            self.fail(label, repr(ex))
            return None
        if x.shape != shape:
            self.fail(label, f'shape {x.shape}')
            return None
        self.ok(label)
        return x

    def defined(self):
        """divisions are by nonzero values, square roots are of nonnegative ones"""
        c = self.c
        pos = c.__dict__.get('positives', [])
        done = []
        for a in c.nonzero:
            if any(equal(a, b) for b in done):
                continue
            done.append(a)
            if any(power_of(a, p) for p in pos) or nonneg(Cond(-a * a if len(a.num) < 100 else a, '<')):
                self.add('a divisor is not zero', 'discharged', 'ring')
                continue
            if len(a.num) < 60 and c.ask(Cond(R(a.num), '==')) == 'unsat':
                self.add('a divisor is not zero', 'discharged', 'z3')
                continue
            hit = self.sample(lambda env: abs(a.ev(env)) < 1e-300, 'a divisor is zero')
            self.add('a divisor is not zero', 'refuted' if hit else 'undecided', 'z3', repr(a))
        for i, p in c.roots:
            p = R(p)
            if any(equal(p, q) for q in pos) or nonneg(Cond(-p, '<=')):
                self.add('a square root is of a nonnegative value', 'discharged', 'ring')
            elif any(equal(p, s) for s in c.__dict__.get('sumsq', [])):
                self.add('a square root is of a nonnegative value', 'discharged', 'ring')
            elif len(p.num) < 60 and c.ask(Cond(p, '<')) == 'unsat':
                self.add('a square root is of a nonnegative value', 'discharged', 'z3')
            else:
                self.sample(lambda env: p.ev(env) < -1e-9, 'square root of a negative value')
                self.add('a square root is of a nonnegative value', 'undecided', 'z3', repr(p))

    # counterexamples
    def draw(self):
        return {n: sample(k, self.rng) for n, k in self.kinds.items()}

    def sample(self, bad, label):
        """an input on this path where bad holds; remembered for replay"""
        if len(self.cex) >= 6:
            return False
        tries = self.models() + [None] * 400
        t0 = time.time()
        for x in tries:
            x = x or self.draw()
            try:
                env = self.c.evaluate(x)
                if self.c.on_path(env) and self.facts(env) and bad(env):
                    self.cex.append({'label': label, 'inputs': x})
                    return True
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
            if time.time() - t0 > 3:
                break
        return False

    def facts(self, env):
        f = self.c.__dict__.get('domain')
        return f(env) if f else True

    def models(self):
        """the values z3 gives the inputs on this path"""
        c = self.c
        out = []
        try:
            c.sync()
            c.sol.push()
            for d in c.pc:
                if d.size() <= 80:
                    c.sol.add(d.z3())
            if str(c.sol.check()) == 'sat':
                m = c.sol.model()
                base = {}
                for n in self.kinds:
                    i = c.names.index(n)
                    v = m.eval(c.z[i], model_completion=False)
                    base[n] = number(v)
                for mix in range(3):
                    x = self.draw()
                    for n, v in base.items():
                        if v is not None:
                            x[n] = v
                    # an angle known by its sine and cosine only
                    for (mono, q), (s, co) in c.angles.items():
                        ex = [i for i, _ in real.exps(mono) if c.names[i] in self.kinds]
                        if len(ex) == 1 and base.get(c.names[ex[0]]) is None:
                            sv, cv = (number(m.eval(c.zpoly(t.num))) for t in (s, co))
                            if sv is not None and cv is not None:
                                a = math.atan2(sv, cv) / float(q)
                                x[c.names[ex[0]]] = math.degrees(a) * 1 if 'lat' in self.kinds[c.names[ex[0]]] or \
                                    'lon' in self.kinds[c.names[ex[0]]] else a
                    out.append(x)
        except z3.Z3Exception:
            pass
        finally:
            c.sol.pop()
        return out

    # state: what a call may find or leave outside its arguments
    def gps(self, M):
        g = M.GPS()
        self.watched.append((g, state(g)))
        return g

    def watch(self, M):
        self.watched = [w for w in self.watched if w[0] is not M] + [(M, state(M))]

    def frame(self, L):
        for o, s in self.watched + [(M, L.snaps[n]) for n, M in L.mods.items() if n in L.snaps and
                                    not any(w[0] is M for w in self.watched)]:
            now = state(o)
            d = sorted(k for k in set(s) | set(now) if s.get(k) != now.get(k))
            if d:
                return self.add('frame', 'undecided', 'execution', 'writes ' + ', '.join(d)[:250])
        return self.add('frame', 'discharged', 'execution')

    # paths
    def explore(self, fn):
        t0 = time.time()
        prof = sys.getprofile()

        def watch(frame, event, arg):
            if event == 'call':
                co = frame.f_code
                if '/opendis/' in co.co_filename:
                    self.functions.add(os.path.basename(co.co_filename)[:-3] + '.' + co.co_qualname)

        def go(c):
            self.c = c
            c.hints = [R.of(1)]
            L = Loader(REPO)
            L.state, L.snaps = state, {}
            self.watched = []
            sys.setprofile(watch)
            try:
                fn(self, L)
                sys.setprofile(prof)
                self.defined()
                self.frame(L)
                self.completed += 1
            except (Infeasible, Unsupported):
                raise
            except RecursionError:
                raise Unsupported('recursion')
            except Exception as ex:     # noqa: BLE001
                sys.setprofile(prof)
                tb = traceback.extract_tb(ex.__traceback__)
                mine = '/opendis/' not in (tb[-1].filename if tb else '') and not any('/opendis/' in f.filename for f in tb)
                if mine:
                    raise
                last = [f for f in tb if '/opendis/' in f.filename][-1]
                if isinstance(ex, (AttributeError, TypeError, NotImplementedError)):
                    # possibly a limit of the proxies rather than the code
                    raise Unsupported(f'{ex!r} at {os.path.basename(last.filename)}:{last.lineno}')
                if self.possible():
                    self.sample(lambda env: True, 'raises nothing')
                    self.add('raises nothing', 'refuted', 'execution', f'{ex!r} at line {last.lineno}'[:300])
            finally:
                sys.setprofile(prof)
        try:
            for c, feasible in explore(go, self.budget):
                self.paths += 1
                self.solver_s += c.solver_time
                self.queries += c.queries
        except Unsupported as ex:
            self.reason = f'Unsupported: {ex}'
        except z3.Z3Exception as ex:
            self.reason = f'Z3: {ex}'
        except Exception:       # noqa: BLE001
            self.reason = 'internal: ' + traceback.format_exc()[-900:]
        self.secs = time.time() - t0

    def result(self):
        bad = [o for o in self.obs if o[1] != 'discharged']
        st = 'proved'
        if any(o[1] == 'refuted' for o in bad):
            st = 'refuted'
        elif self.reason or bad:
            st = 'undecided'
        elif not self.obs or not self.completed:
            st, self.reason = 'undecided', 'no execution completes'
        back = {}
        for o in self.obs:
            if o[1] == 'discharged':
                back[o[2]] = back.get(o[2], 0) + 1
        return {'class': self.key, 'run': self.name, 'status': st, 'reason': self.reason, 'n': len(self.obs),
                'discharged': len(self.obs) - len(bad), 'backends': back,
                'failed': [{'label': o[0], 'status': o[1], 'detail': o[3]} for o in bad][:8], 'cex': self.cex,
                'paths': self.paths, 'solver_s': round(self.solver_s, 3), 'secs': round(self.secs, 3),
                'queries': self.queries, 'functions': sorted(self.functions), 'contracts': sorted(self.used), 'flags': []}


STUBS = weakref.WeakSet()


def stub(f):
    STUBS.add(f)
    return f


def state(o):
    """the values reachable from a module of the package or an instance of one of its classes"""
    out, seen = {}, set()

    def go(v, path):
        if isinstance(v, (bool, int, float, str, bytes, type(None), complex)):
            out[path] = (type(v), v)
            return
        if isinstance(v, R) or isinstance(v, types.ModuleType) and path:
            out[path] = id(v)
            return
        t = type(v)
        out[path] = id(v)
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, dict):
            out[path] = (id(v), [repr(k) for k in v])
            for k, x in v.items():
                go(x, f'{path}[{k!r}]')
        elif isinstance(v, (list, tuple)):
            out[path] = (id(v), len(v))
            for k, x in enumerate(v):
                go(x, f'{path}[{k}]')
        elif isinstance(v, (set, frozenset)):
            out[path] = (id(v), sorted(map(repr, v)))
        elif isinstance(v, np.ndarray):
            out[path] = (id(v), [id(x) for x in v.ravel()] if v.dtype == object else v.tobytes())
        elif hasattr(v, 'cache_info'):
            out[path] = (id(v), v.cache_info().currsize)
        elif isinstance(v, types.FunctionType) and v not in STUBS:
            for k, x in enumerate(v.__defaults__ or ()):
                go(x, f'{path} default {k}')
            for k, x in enumerate(v.__closure__ or ()):
                try:
                    go(x.cell_contents, f'{path} cell {k}')
                except ValueError:
                    pass
            for k, x in v.__dict__.items():
                go(x, f'{path}.{k}')
        elif isinstance(v, types.ModuleType) or getattr(v if isinstance(v, type) else t, '__module__', '').startswith('opendis'):
            for k, x in vars(v).items() if hasattr(v, '__dict__') else ():
                if k not in ('__builtins__', '__dict__', '__weakref__', '__annotations__'):
                    go(x, f'{path}.{k}' if path else k)
            for k in getattr(t, '__slots__', ()):
                if hasattr(v, k):
                    go(getattr(v, k), f'{path}.{k}')
    go(o, '')
    return out


def power_of(a, p):
    """a^2 or a is a power of p, up to a factor"""
    q = R.of(1)
    b = a * a if len(a.num) < 200 else None
    top = max(len(x.num) for x in (a, b) if x is not None)
    for _ in range(8):
        if len(q.num) > 2 * top:
            return False
        q = q * p
        for x in (a, b):
            if x is not None and len(x.num) == len(q.num) and x.den is None and q.den is None:
                m = next(iter(x.num))
                if m in q.num:
                    k = Fraction(x.num[m]) / Fraction(q.num[m])
                    if all(n in q.num and v == q.num[n] * k for n, v in x.num.items()):
                        return True
    return False


def number(v):
    try:
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
    except (z3.Z3Exception, OverflowError):
        pass
    return None


def nonneg(cond):
    """-r < 0 or -r <= 0 where every term of r is visibly nonnegative (and one positive, for <)"""
    if cond.op not in ('<', '<=') or cond.r.den is not None:
        return False
    p = cond.r.num
    if not all(real.positive_term(m) and k < 0 for m, k in p.items()):
        return False
    return cond.op == '<=' or 0 in p


def replace(r, i, v):
    """r with generator i replaced by v"""
    def poly(p):
        out = R({})
        for m, k in p.items():
            e = m >> (real.W * i) & real.TOP
            t = R({m - (e << (real.W * i)): k})
            out = out + (t * v ** e if e else t)
        return out
    n, d = poly(r.num), poly(r.d())
    if not d.num:
        return None
    return n / d


PI2 = math.pi / 2


def sample(kind, rng):
    """a value of an input, special ones often"""
    if kind == 'rad':
        return rng.choice([rng.uniform(-math.pi, math.pi), rng.uniform(-7, 7), rng.choice([0.0, PI2, -PI2, math.pi, -math.pi, 0.3])])
    if kind == 'theta':
        if rng.random() < .35:
            return rng.choice([-1, 1]) * (PI2 + rng.choice([-1, 1]) * 10 ** rng.uniform(-5.9, -.5)) + rng.choice([0, 0, math.pi])
        return rng.choice([rng.uniform(-math.pi, math.pi), rng.uniform(-1.5, 1.5), 0.0, 0.7])
    if kind == 'gimbal':
        return rng.choice([PI2, -PI2])
    if kind == 'dt':
        return rng.choice([rng.uniform(0, 10), rng.uniform(-5, 5), 0.0, 1.0, 1e-3, 1000.0, rng.uniform(0, .2)])
    if kind == 'lat':
        return rng.choice([rng.uniform(-90, 90), rng.uniform(-80, 84), rng.choice([0.0, 45.0, -45.0, 90.0, -90.0, 60.0]),
                           rng.choice([-1, 1]) * 10 ** rng.uniform(-9, 1), rng.choice([-1, 1]) * (90 - 10 ** rng.uniform(-9, 1))])
    if kind == 'utmlat':
        return rng.choice([rng.uniform(-80, 84), float(rng.randrange(-80, 85)), float(8 * rng.randrange(-10, 11)),
                           8 * rng.randrange(-10, 10) + rng.choice([-1, 1]) * 1e-9 * (rng.random() < .5) or 1e-9,
                           rng.uniform(55, 65), rng.uniform(71, 84), 84.0, -80.0])
    if kind == 'utmlon':
        return rng.choice([rng.uniform(-180, 180), float(6 * rng.randrange(-30, 31)), float(rng.randrange(-180, 181)),
                           6 * rng.randrange(-29, 30) + rng.choice([-1, 1]) * 1e-9, rng.uniform(-1, 45), 180.0, -180.0])
    if kind == 'lon':
        return rng.choice([rng.uniform(-180, 180), rng.choice([0.0, 90.0, -90.0, 180.0, 45.0, -135.0]),
                           rng.choice([-1, 1]) * 10 ** rng.uniform(-9, 1), rng.choice([-1, 1]) * (180 - 10 ** rng.uniform(-9, 1))])
    if kind == 'alt':
        return rng.choice([rng.uniform(-1e4, 1e4), 0.0, 10 ** rng.uniform(-2, 7.69), rng.uniform(0, 5e7), -1e4, 5e7])
    if kind == 'axis':
        return 10 ** rng.uniform(0, 7.7)
    if kind == 'ecef':
        return rng.choice([rng.uniform(-7e6, 7e6), rng.uniform(-5e7, 5e7), 0.0, rng.uniform(-1000, 1000)])
    if kind == 'small':
        return rng.choice([rng.uniform(-2, 2), rng.uniform(-.1, .1), 0.0])
    return rng.choice([rng.uniform(-100, 100), rng.uniform(-1e6, 1e6), 0.0, 1.0, -1.0, rng.uniform(-1, 1)])


# ------------------------------------------------------------ dead reckoning --
#         name        vel    acc    body   rot
MODELS = {'drm_static': (False, False, False, False),
          'drm_fpw': (True, False, False, False), 'drm_rpw': (True, False, False, True),
          'drm_rvw': (True, True, False, True), 'drm_fvw': (True, True, False, False),
          'drm_fpb': (True, False, True, False), 'drm_rpb': (True, False, True, True),
          'drm_rvb': (True, True, True, True), 'drm_fvb': (True, True, True, False)}


def rot_spec(psi, theta, phi):
    """Rz(psi) Ry(theta) Rx(phi)"""
    def m(rows):
        return np.array(rows, dtype=object)
    (sz, cz), (sy, cy), (sx, cx_) = sincos(psi), sincos(theta), sincos(phi)
    one, zero = R.of(1), R.of(0)
    Rz = m([[cz, -sz, zero], [sz, cz, zero], [zero, zero, one]])
    Ry = m([[cy, zero, sy], [zero, one, zero], [-sy, zero, cy]])
    Rx = m([[one, zero, zero], [zero, cx_, -sx], [zero, sx, cx_]])
    return np.dot(np.dot(Rz, Ry), Rx)


def dr_inputs(run, name, gimbal, tag=''):
    vel, acc, body, rot = MODELS[name]
    x = {'p': run.vec('p' + tag), 'o': [run.inp(f'o{tag}0', 'rad'), run.inp(f'o{tag}1', 'gimbal' if gimbal else 'theta'),
                                        run.inp(f'o{tag}2', 'rad')]}
    if vel:
        x['v'] = run.vec('v' + tag)
        x['dt'] = run.inp('dt' + tag, 'dt')
    if acc:
        x['a'] = run.vec('a' + tag)
    if rot:
        x['w'] = run.vec('w' + tag, 'small')
        co = sincos(x['o'][1])[1]
        c = run.c
        lim = z3.RealVal('1/1000000')
        if gimbal:
            c.facts.append(lambda: z3.And(c.zpoly(co.num) <= z3.RealVal('1/1000000000000000'),
                                          c.zpoly(co.num) >= -z3.RealVal('1/1000000000000000')))
        else:
            c.facts.append(lambda: z3.Or(c.zpoly(co.num) >= lim, c.zpoly(co.num) <= -lim))
    return x


def dr_spec(x, name, gimbal):
    vel, acc, body, rot = MODELS[name]
    pos, ori = list(x['p']), list(x['o'])
    if vel:
        t = x['dt']
        d = [v * t for v in x['v']]
        if acc:
            d = [u + a * t * t / 2 for u, a in zip(d, x['a'])]
        if body:
            d = list(np.dot(rot_spec(*x['o']), np.array(d, dtype=object)))
        pos = [u + v for u, v in zip(pos, d)]
    if rot:
        p, q, r = x['w']
        (s, co), (sy, cy) = sincos(ori[2]), sincos(ori[1])
        dth = q * co - r * s
        if gimbal:
            rates = (R.of(0), dth, p)
        else:
            u = (q * s + r * co) / cy
            rates = (u, dth, p + u * sy)
        ori = [o + d * t for o, d in zip(ori, rates)]
    return pos, ori


def dr_other(x):
    """other values, with exact sines and cosines"""
    o = {k: [R.of(j + 2) for j in range(3)] if isinstance(v, list) else R.of(3) for k, v in x.items()}
    o['o'] = [PI() / 2, PI(), R.of(0)]
    return o


def dr_args(x, name, form):
    def f(v):
        return {'array': lambda: np.array(v, dtype=object), 'list': lambda: list(v), 'tuple': lambda: tuple(v)}[form]()
    vel, acc, body, rot = MODELS[name]
    a = [f(x['p'])]
    if vel:
        a.append(f(x['v']))
    if acc:
        a.append(f(x['a']))
    if vel:
        a.append(x['dt'])
    a.append(f(x['o']))
    if rot:
        a.append(f(x['w']))
    return a


def pair(run, got, label):
    if not isinstance(got, (tuple, list)) or len(got) != 2:
        run.fail(label, f'{type(got).__name__} instead of a position and an orientation')
        return None
    pos = run.array(got[0], (3,), label + ': three position components')
    ori = run.array(got[1], (3,), label + ': three orientation components')
    return None if pos is None or ori is None else (pos, ori)


def same3(run, a, b, label):
    for j in range(3):
        run.eq(a[j], b[j], f'{label}[{j}]')


def dr_formula(name, form, gimbal, budget):
    """the documented formula"""
    run = NRun(name, f'formula on {form} inputs' + (' at cos(theta) = 0' if gimbal else ''), budget)

    def fn(run, L):
        M = L.load(DR)
        x = dr_inputs(run, name, gimbal)
        f = getattr(M, name)
        a, b = dr_args(dr_other(x), name, form), dr_args(x, name, form)
        for r in f(*a):
            if isinstance(r, np.ndarray):
                r += 1                          # what the caller does with a result stays with the caller
        if form != 'tuple':                     # the same objects hold other values now
            for u, v in zip(a, b):
                if not isinstance(u, R):
                    u[:] = v
            b = [v if isinstance(v, R) else u for u, v in zip(a, b)]
        got = pair(run, f(*b), 'result')
        if got is None:
            return
        pos, ori = dr_spec(x, name, gimbal)
        same3(run, got[0], pos, 'position')
        same3(run, got[1], ori, 'orientation')
    run.explore(fn)
    return run.result()


def dr_frame(name, form, gimbal, budget):
    """inputs keep their values, results share no storage with them or with other results, a later call
    is not influenced by earlier ones or by what was done with their results"""
    run = NRun(name, f'frame on {form} inputs' + (' at cos(theta) = 0' if gimbal else ''), budget)

    def fn(run, L):
        M = L.load(DR)
        x, y = dr_inputs(run, name, gimbal), dr_inputs(run, name, gimbal, 'B')
        f = getattr(M, name)
        a, b = dr_args(x, name, form), dr_args(y, name, form)
        r1 = f(*a)
        g1 = pair(run, r1, 'first result')
        if g1 is None:
            return
        unchanged(run, a, dr_args(x, name, form), 'the first call')
        separate(run, r1, a, 'the result and the inputs')
        kept = ([R.of(v) for v in g1[0]], [R.of(v) for v in g1[1]])
        r2 = f(*b)
        g2 = pair(run, r2, 'second result')
        if g2 is None:
            return
        separate(run, r2, list(r1), 'the results of two calls')
        g1 = pair(run, r1, 'first result later')
        if g1 is None:
            return
        for k in (0, 1):
            same3(run, g1[k], kept[k], 'a result after another call')
        same2 = dr_spec(y, name, gimbal)
        for k in (0, 1):
            same3(run, g2[k], same2[k], 'second result')
        # what the caller does with a result stays with the caller
        for r in (*r1, *r2):
            if isinstance(r, np.ndarray):
                r += 1
        unchanged(run, a, dr_args(x, name, form), 'changing the results')
        g3 = pair(run, f(*a), 'third result')
        if g3 is None:
            return
        for k in (0, 1):
            same3(run, g3[k], kept[k], 'the first call repeated')
    run.explore(fn)
    return run.result()


def unchanged(run, a, before, what):
    for j, (u, v) in enumerate(zip(a, before)):
        if isinstance(u, R):
            continue
        if type(u) is not type(v) or len(u) != len(v):
            run.fail(f'argument {j} after {what}', f'{u!r}')
            continue
        for k in range(len(v)):
            run.eq(u[k], v[k], f'argument {j}[{k}] after {what}')


def separate(run, res, others, label):
    for r in res:
        for o in others:
            if isinstance(o, R):
                continue
            shared = r is o or (isinstance(r, np.ndarray) and isinstance(o, np.ndarray) and np.shares_memory(r, o))
            run.check(not shared, f'{label} share no storage')


def dr_zero(name, form, gimbal, budget):
    """dt = 0 gives the position and orientation back"""
    run = NRun(name, f'dt = 0 on {form} inputs' + (' at cos(theta) = 0' if gimbal else ''), budget)

    def fn(run, L):
        M = L.load(DR)
        x = dr_inputs(run, name, gimbal)
        x['dt'] = 0
        got = pair(run, getattr(M, name)(*dr_args(x, name, form)), 'result')
        if got is None:
            return
        same3(run, got[0], x['p'], 'position')
        same3(run, got[1], x['o'], 'orientation')
    run.explore(fn)
    return run.result()


def kept(run, f, before, args):
    """f(*args), as it is after another call, and after what the caller does with the results of that and of
    an equal call"""
    got = f(*args)
    for other in (f(*before), f(*args)):
        run.check(other is not got and not (isinstance(got, np.ndarray) and isinstance(other, np.ndarray) and
                                            np.shares_memory(got, other)), 'the results of two calls share no storage')
        if isinstance(other, np.ndarray):
            other += 1
    return got


def dr_matrix(budget):
    run = NRun('get_rotation_matrix', 'proper rotation', budget)

    def fn(run, L):
        M = L.load(DR)
        o = run.vec('o', 'rad')
        m = run.array(kept(run, M.get_rotation_matrix, [o[0], PI() / 2, o[2]], o), (3, 3), 'a 3x3 matrix')
        if m is None:
            return
        want = rot_spec(*o)
        mt = np.dot(m.T, m)
        for j in range(3):
            for k in range(3):
                run.eq(m[j][k], want[j][k], f'Rz Ry Rx [{j}][{k}]')
                run.eq(mt[j][k], int(j == k), f'orthogonal [{j}][{k}]')
        run.eq(det3(m), 1, 'determinant')
    run.explore(fn)
    return run.result()


def dr_skew(form, budget):
    run = NRun('get_angular_velocity_matrix', f'cross product on {form} input', budget)

    def fn(run, L):
        M = L.load(DR)
        w, v = run.vec('w', 'small'), run.vec('v')
        arg = {'array': np.array(w, dtype=object), 'list': list(w), 'tuple': tuple(w)}[form]
        m = run.array(kept(run, M.get_angular_velocity_matrix, [form_of(w[::-1], form)], [arg]), (3, 3), 'a 3x3 matrix')
        unchanged(run, [arg], [form_of(w, form)], 'get_angular_velocity_matrix')
        if m is None:
            return
        got = np.dot(m, np.array(v, dtype=object))
        want = [w[1] * v[2] - w[2] * v[1], w[2] * v[0] - w[0] * v[2], w[0] * v[1] - w[1] * v[0]]
        same3(run, got, want, 'product with a vector')
        for j in range(3):
            for k in range(3):
                run.eq(m[j][k], -R.of(m[k][j]), f'skew-symmetric [{j}][{k}]')
    run.explore(fn)
    return run.result()


# ------------------------------------------------------------ earth geometry --
def wgs(M):
    """the ellipsoid of the package, if it is WGS84 to a millimetre; otherwise WGS84"""
    a, b = getattr(getattr(M, 'WGS84', None), 'a', None), getattr(getattr(M, 'WGS84', None), 'b', None)
    try:
        a, b = R.of(a).const(), R.of(b).const()
        if abs(a - WGS_A) < Fraction(1, 10**6) and abs(b - Fraction('6356752.314245')) < Fraction(1, 1000):
            return a, 1 - (b / a) ** 2
    except (AttributeError, TypeError):
        pass
    return WGS_A, 1 - (WGS_B / WGS_A) ** 2


def rad(d):
    return d * PI() / 180


def deg(r):
    return r * 180 / PI()


def form_of(v, form):
    return {'array': lambda: np.array(v, dtype=object), 'list': lambda: list(v), 'tuple': lambda: tuple(v)}[form]()


PLACE = [R.of(0), R.of(90), R.of(1500)]         # its sines and cosines are exact


def after(v, form, call):
    """the argument v in the given form, after the same object held another place in an earlier call"""
    if form == 'tuple':
        call(tuple(PLACE))
        return tuple(v)
    x = form_of(PLACE, form)
    call(x)
    x[:] = v
    return x


def lla_spec(M, lat, lon, alt):
    """lat, lon in degrees"""
    a, e2 = wgs(M)
    (s, co), (sl, cl) = sincos(rad(lat)), sincos(rad(lon))
    N = a / sqrt(1 - e2 * s * s)
    return [(N + alt) * co * cl, (N + alt) * co * sl, (N * (1 - e2) + alt) * s]


def enu(lat, lon):
    """north, east and down unit vectors at geodetic latitude and longitude in radians"""
    (s, co), (sl, cl) = sincos(lat), sincos(lon)
    return np.array([[-s * cl, -s * sl, co], [-sl, cl, R.of(0)], [-co * cl, -co * sl, -s]], dtype=object)


def g_lla2ecef(form, budget):
    run = NRun('GPS.lla2ecef', f'ellipsoid formula on a {form}', budget)

    def fn(run, L):
        M = L.load(RC)
        x = [run.inp('lat', 'lat'), run.inp('lon', 'lon'), run.inp('alt', 'alt')]
        g = run.gps(M)
        y = after(x, form, g.lla2ecef)
        got = run.array(g.lla2ecef(y), (3,), 'three coordinates')
        unchanged(run, [y], [form_of(x, form)], 'lla2ecef')
        if got is not None:
            same3(run, got, lla_spec(M, *x), 'coordinate')
    run.explore(fn)
    return run.result()


def g_lla2gcc(form, budget):
    run = NRun('GPS.lla2gcc', f'ellipsoid formula with and without origin on a {form}', budget)

    def fn(run, L):
        M = L.load(RC)
        x = [run.inp('lat', 'lat'), run.inp('lon', 'lon'), run.inp('alt', 'alt')]
        g = run.gps(M)
        o = [run.inp('lat0', 'lat'), run.inp('lon0', 'lon'), run.inp('alt0', 'alt')]
        for j in (None, 0, 1, 2):
            # the last three after an origin that differs in one number
            t = [v if k == j else w for k, (v, w) in enumerate(zip(PLACE, o))]
            text = Numerals([t[1], t[0], t[2]])
            y = after(x, form, lambda v: g.lla2gcc(v, text))
            got = run.array(g.lla2gcc(y, text), (3,), 'three coordinates')
            unchanged(run, [y], [form_of(x, form)], 'lla2gcc')
            if got is not None:
                want = [u - v for u, v in zip(lla_spec(M, *x), lla_spec(M, *t))]
                same3(run, got, want, 'coordinate from an origin')
        y = after(x, form, lambda v: g.lla2gcc(v, '12 -71.25 40'))
        got = run.array(g.lla2gcc(y), (3,), 'three coordinates')
        unchanged(run, [y], [form_of(x, form)], 'lla2gcc')
        if got is not None:
            same3(run, got, lla_spec(M, *x), 'coordinate')
    run.explore(fn)
    return run.result()


def g_angles(budget):
    run = NRun('deg2rad, rad2deg', 'unit conversion', budget)

    def fn(run, L):
        M = L.load(RC)
        x = run.inp('x')
        run.eq(M.deg2rad(x), x * PI() / 180, 'radians')
        run.eq(M.rad2deg(x), x * 180 / PI(), 'degrees')
        run.eq(M.rad2deg(M.deg2rad(x)), x, 'inverse')
    run.explore(fn)
    return run.result()


def stub_ecef2lla(run, M, places):
    """ecef2lla by its contract: the geodetic coordinates of one of the known places; its argument must be one"""
    calls = []

    def ecef2lla(self, ecef, *a, **k):
        try:
            e = [R.of(ecef[j]) for j in range(3)]
        except Exception:       # noqa: BLE001
            raise Unsupported('argument of ecef2lla')
        for xyz, lla in places:
            if all(equal(u, v) for u, v in zip(e, xyz)):
                calls.append(lla)
                return tuple(lla)
        run.fail('argument of ecef2lla', 'not the position of the origin')
        return tuple(places[0][1])
    if not hasattr(M.GPS, 'ecef2lla'):
        raise Unsupported('no ecef2lla')
    M.GPS.ecef2lla = stub(ecef2lla)
    run.watch(M)
    run.used.add('GPS.ecef2lla')
    return calls


OTHER = ([R.of(0), R.of(6390482), R.of(0)], [R.of(0), R.of(90), R.of(12345)])


def origin(run, tag='0'):
    xyz = [run.inp(f'{n}{tag}', 'ecef') for n in 'XYZ']
    lla = [run.inp('lat' + tag, 'free'), run.inp('lon' + tag, 'free'), run.inp('alt' + tag, 'free')]
    return xyz, lla


def g_ned(form, budget):
    run = NRun('GPS.ecef2ned, GPS.ned2ecef', f'rigid motion on {form} inputs', budget)

    def fn(run, L):
        M = L.load(RC)
        o, lla = origin(run)
        p, q = run.vec('p', 'ecef'), run.vec('q', 'ecef')
        stub_ecef2lla(run, M, [(o, lla), OTHER])
        g = run.gps(M)
        fo = lambda v: form_of(v, form)     # noqa: E731
        args = [fo(q), fo(OTHER[0])]
        g.ned2ecef(*args)
        g.ecef2ned(*args)
        if form == 'tuple':
            args = [fo(p), fo(o)]
        else:
            args[0][:], args[1][:] = p, o       # the same objects hold another place
        A = enu(rad(lla[0]), rad(lla[1]))
        gp = run.array(g.ecef2ned(*args), (3,), 'ecef2ned: three components')
        if gp is None:
            return
        unchanged(run, args, [fo(p), fo(o)], 'ecef2ned')
        want = np.dot(A, np.array(p, dtype=object) - np.array(o, dtype=object))
        same3(run, gp, want, 'ecef2ned: north, east, down')
        gq = run.array(g.ecef2ned(fo(q), fo(o)), (3,), 'ecef2ned: three components')
        run.eq(sum((u - v) ** 2 for u, v in zip(gp, gq)), sum((u - v) ** 2 for u, v in zip(p, q)),
               'ecef2ned keeps distances')
        z = run.array(g.ecef2ned(fo(o), fo(o)), (3,), 'ecef2ned of the origin')
        same3(run, z, [0, 0, 0], 'ecef2ned of the origin')
        back = run.array(g.ned2ecef(fo(list(gp)), args[1]), (3,), 'ned2ecef: three components')
        if back is None:
            return
        same3(run, back, p, 'ned2ecef(ecef2ned(p))')
        n = run.vec('n', 'ecef')
        args = [fo(n), fo(o)]
        e = run.array(g.ned2ecef(*args), (3,), 'ned2ecef: three components')
        unchanged(run, args, [fo(n), fo(o)], 'ned2ecef')
        want = np.dot(A.T, np.array(n, dtype=object)) + np.array(o, dtype=object)
        same3(run, e, want, 'ned2ecef')
        f = run.array(g.ecef2ned(fo(list(e)), fo(o)), (3,), 'ecef2ned: three components')
        same3(run, f, n, 'ecef2ned(ned2ecef(n))')
        down = [u - v for u, v in zip(g.ned2ecef(fo([0, 0, 1]), fo(o)), o)]
        (s, co), (sl, cl) = sincos(rad(lla[0])), sincos(rad(lla[1]))
        same3(run, down, [-co * cl, -co * sl, -s], 'down is the inward normal of the ellipsoid')
    run.explore(fn)
    return run.result()


def g_vec(budget):
    run = NRun('GPS.ecefvec2nedvec', 'north, east and down unit vectors', budget)

    def fn(run, L):
        M = L.load(RC)
        lat, lon = run.inp('latr', 'rad'), run.inp('lonr', 'rad')
        m = run.array(run.gps(M).ecefvec2nedvec(lat, lon), (3, 3), 'a 3x3 matrix')
        if m is None:
            return
        A = enu(lat, lon)
        for j in range(3):
            for k in range(3):
                run.eq(m[j][k], A[j][k], f'[{j}][{k}]')
    run.explore(fn)
    return run.result()


def g_rotate(budget):
    run = NRun('GPS.rotate_3x3', 'rotation about a unit axis', budget)

    def fn(run, L):
        M = L.load(RC)
        t, u, w = run.inp('t', 'rad'), run.inp('u', 'rad'), run.inp('w', 'rad')
        (su, cu), (sw, cw) = sincos(u), sincos(w)
        k = [cu * cw, su * cw, sw]              # every unit vector
        arg, g = np.array(k, dtype=object), run.gps(M)
        first = g.rotate_3x3(t, arg)
        first += 1                              # what the caller does with a result stays with the caller
        m = run.array(g.rotate_3x3(t, arg), (3, 3), 'a 3x3 matrix')
        unchanged(run, [arg], [np.array(k, dtype=object)], 'rotate_3x3')
        if m is None:
            return
        s, co = sincos(t)
        K = [[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]
        for i in range(3):
            for j in range(3):
                run.eq(m[i][j], co * int(i == j) + (1 - co) * k[i] * k[j] + s * K[i][j], f'Rodrigues [{i}][{j}]')
        mt = np.dot(m.T, m)
        for i in range(3):
            for j in range(3):
                run.eq(mt[i][j], int(i == j), f'orthogonal [{i}][{j}]')
        run.eq(det3(m), 1, 'determinant')
    run.explore(fn)
    return run.result()


def pae_spec(run, got, ned, label, on_axis=False):
    g = run.array(got, (3,), label + ': range, azimuth, elevation')
    if g is None:
        return
    n, e, d = ned
    p, al, ep = [R.of(v) for v in g]
    (sa, ca), (se, ce) = sincos(rad(al)), sincos(rad(ep))
    run.eq(p * p, n * n + e * e + d * d, label + ': range is the distance')
    run.holds(p >= 0, label + ': range is not negative')
    run.eq(p * ce * ca, n, label + ': north from range and angles')
    run.eq(p * ce * sa, e, label + ': east from range and angles')
    run.eq(p * se, -d, label + ': up from range and angles')
    run.holds(ce >= 0, label + ': elevation within a right angle')
    for v in (al, ep):
        run.holds(v >= -180, label + ': angle at least -180')
        run.holds(v <= 180, label + ': angle at most 180')


def g_pae(form, where, budget):
    run = NRun('GPS.ned2pae', f'spherical coordinates on a {form}, {where}', budget)

    def fn(run, L):
        M = L.load(RC)
        if where == 'general':
            ned = run.vec('n', 'ecef')
            run.positive(ned[0] * ned[0] + ned[1] * ned[1])
            run.c.positives.append(ned[0] * ned[0] + ned[1] * ned[1] + ned[2] * ned[2])
        else:
            h = run.inp('h', 'above')
            run.given(h > 0)
            ned = [R.of(0), R.of(0), h * {'above': -1, 'below': 1}[where]]
        pae_spec(run, run.gps(M).ned2pae(form_of(ned, form)), ned, 'ned2pae')
    run.explore(fn)
    return run.result()


def g_ecef2pae(form, budget):
    run = NRun('GPS.ecef2pae', f'spherical coordinates on {form} inputs', budget)

    def fn(run, L):
        M = L.load(RC)
        o, lla = origin(run)
        p = run.vec('p', 'ecef')
        stub_ecef2lla(run, M, [(o, lla), OTHER])
        ned = np.dot(enu(rad(lla[0]), rad(lla[1])), np.array(p, dtype=object) - np.array(o, dtype=object))
        run.positive(ned[0] * ned[0] + ned[1] * ned[1])
        run.c.positives.append(sum(x * x for x in ned))
        g = run.gps(M)
        args = [form_of([R.of(0), R.of(6390492), R.of(300)], form), form_of(OTHER[0], form)]
        g.ecef2pae(*args)
        if form == 'tuple':
            args = [form_of(p, form), form_of(o, form)]
        else:
            args[0][:], args[1][:] = p, o
        got = g.ecef2pae(*args)
        unchanged(run, args, [form_of(p, form), form_of(o, form)], 'ecef2pae')
        pae_spec(run, got, list(ned), 'ecef2pae')
    run.explore(fn)
    return run.result()


def g_distance(form, budget):
    run = NRun('euclideanDistance', f'distance on {form} inputs', budget)

    def fn(run, L):
        M = L.load(RC)
        p, q = run.vec('p', 'ecef'), run.vec('q', 'ecef')
        run.c.sumsq = [sum(x * x for x in p), sum((x - y) ** 2 for x, y in zip(p, q))]
        a = M.euclideanDistance(form_of(p, form))
        b = M.euclideanDistance(form_of(p, form), form_of(q, form))
        run.eq(R.of(a) ** 2, run.c.sumsq[0], 'distance from zero')
        run.eq(R.of(b) ** 2, run.c.sumsq[1], 'distance between two points')
        run.holds(R.of(a) >= 0, 'not negative')
        run.holds(R.of(b) >= 0, 'not negative')
    run.explore(fn)
    return run.result()


# ------------------------------------------------------------------ attitude --
def attitude(run, out, want, label):
    """Rz Ry Rx of the three returned angles is the wanted attitude matrix"""
    psi, theta, phi = [R.of(v) for v in out]
    m = rot_spec(psi, theta, phi)
    for i in range(3):
        for j in range(3):
            run.eq(m[i][j], want[i][j], f'{label}[{i}][{j}]')
    run.holds(sincos(theta)[1] >= 0, label + ': pitch within a right angle')
    run.holds(psi <= PI(), label + ': first angle at most pi')
    run.holds(psi >= -PI(), label + ': first angle at least -pi')
    run.holds(phi <= PI(), label + ': last angle at most pi')
    run.holds(phi >= -PI(), label + ': last angle at least -pi')


def g_to_ecef(budget):
    """location of lla2ecef, attitude [N E D] Rz(yaw) Ry(pitch) Rx(roll); not at gimbal lock"""
    run = NRun('GPS.llarpy2ecef', 'location and attitude', budget)

    def fn(run, L):
        M = L.load(RC)
        lat, lon, alt = run.inp('latr', 'latr'), run.inp('lonr', 'rad'), run.inp('alt', 'alt')
        roll, pitch, yaw = run.inp('roll', 'rad'), run.inp('pitch', 'rad'), run.inp('yaw', 'rad')
        A = np.dot(enu(lat, lon).T, rot_spec(yaw, pitch, roll))
        run.c.positives = [A[0][0] ** 2 + A[1][0] ** 2]
        run.c.domain = lambda env: run.c.positives[0].ev(env) > 1e-12
        g = run.gps(M)
        g.llarpy2ecef(R.of(0), PI() / 2, R.of(1600), R.of(0), R.of(0), PI() / 2)
        got = g.llarpy2ecef(lat, lon, alt, roll, pitch, yaw)
        if not isinstance(got, (tuple, list, np.ndarray)) or len(got) != 6:
            return run.fail('six values', repr(type(got)))
        same3(run, got[:3], lla_spec(M, lat * 180 / PI(), lon * 180 / PI(), alt), 'location')
        attitude(run, got[3:], A, 'attitude')
    run.explore(fn)
    return run.result()


def g_from_ecef(budget):
    """the inverse: [N E D] Rz(yaw) Ry(pitch) Rx(roll) is the earth-centred attitude"""
    run = NRun('GPS.ecef2llarpy', 'location and attitude', budget)

    def fn(run, L):
        M = L.load(RC)
        o, lla = origin(run)
        psi, theta, phi = run.inp('psi', 'rad'), run.inp('theta', 'rad'), run.inp('phi', 'rad')
        stub_ecef2lla(run, M, [(o, lla), OTHER])
        A = np.dot(enu(rad(lla[0]), rad(lla[1])), rot_spec(psi, theta, phi))
        run.c.positives = [A[0][0] ** 2 + A[1][0] ** 2]
        run.c.domain = lambda env: run.c.positives[0].ev(env) > 1e-12
        g = run.gps(M)
        g.ecef2llarpy(*OTHER[0], PI(), R.of(0), PI() / 2)
        got = g.ecef2llarpy(*o, psi, theta, phi)
        if not isinstance(got, (tuple, list, np.ndarray)) or len(got) != 6:
            return run.fail('six values', repr(type(got)))
        same3(run, got[:3], [rad(lla[0]), rad(lla[1]), lla[2]], 'location')
        attitude(run, [got[5], got[4], got[3]], A, 'attitude')
    run.explore(fn)
    return run.result()


# ----------------------------------------------------------------------- UTM --
BANDS = 'CDEFGHJKLMNPQRSTUVWX'


def domain_utm(run):
    lat, lon = run.inp('lat', 'utmlat'), run.inp('lon', 'utmlon')
    for c in (lat >= -80, lat <= 84, lon >= -180, lon <= 180):
        run.given(c)
    co = sincos(rad(lat))[1]
    run.c.facts.append(lambda: run.c.zpoly(co.num) >= z3.RealVal('1/10'))       # cos(84 degrees) = 0.1045
    return lat, lon


def band_spec(lat):
    for j, b in enumerate(BANDS[:-1]):
        if bool(lat < -72 + 8 * j):
            return b
    return 'X'


def zone_spec(lat, lon):
    """zone number of the UTM grid, with the exceptions of Norway and Svalbard"""
    if bool(lat >= 72):
        for lo, hi, z in ((0, 9, 31), (9, 21, 33), (21, 33, 35), (33, 42, 37)):
            if bool(lon >= lo) and bool(lon < hi):
                return z
    if bool(lat >= 56) and bool(lat < 64) and bool(lon >= 3) and bool(lon < 12):
        return 32
    if bool(lon >= 180):
        return 1
    return real.floor((lon + 180) / 6) + 1


def g_band(budget):
    run = NRun('GPS.utmLetterDesignator', 'latitude band', budget)

    def fn(run, L):
        M = L.load(RC)
        lat, lon = domain_utm(run)
        got = run.gps(M).utmLetterDesignator(lat)
        want = band_spec(lat)
        run.check(got == want, 'band letter', f'{got!r} instead of {want!r}')
    run.explore(fn)
    return run.result()


def g_utm(part, parts, budget):
    """zone, band, easting, northing and scale of lla2utm"""
    run = NRun('GPS.lla2utm', f'zone, band and coordinates, longitudes part {part + 1} of {parts}', budget)
    w = Fraction(360, parts)

    def fn(run, L):
        M = L.load(RC)
        lat, lon = domain_utm(run)
        run.given(lon >= -180 + w * part)
        run.given(lon <= -180 + w * (part + 1))
        alt = run.inp('alt', 'alt')
        asked = []

        def letter(self, la):
            asked.append(la)
            return 'Q'
        if hasattr(M.GPS, 'utmLetterDesignator'):
            M.GPS.utmLetterDesignator = stub(letter)
            run.watch(M)
            run.used.add('GPS.utmLetterDesignator')
        g = run.gps(M)
        y = after([lat, lon, alt], 'list', g.lla2utm)
        del asked[:]
        got = g.lla2utm(y)
        unchanged(run, [y], [[lat, lon, alt]], 'lla2utm')
        if not isinstance(got, (tuple, list)) or len(got) != 2 or len(got[0]) != 3 or len(got[1]) != 2:
            return run.fail('coordinates and zone', repr(got)[:200])
        (x, y, up), (zone, k) = got
        z = zone_spec(lat, lon)
        if asked:
            for la in asked:
                run.eq(la, lat, 'latitude the band is asked for')
            band = 'Q'
        else:
            band = band_spec(lat)
        run.check(zone == f'{z}{band}', 'zone and band', f'{zone!r} instead of {z}{band}')
        run.eq(up, alt, 'altitude')
        if bool(lon >= 180):
            lon = lon - 360
        ex, ey, ek = snyder(M, lat, lon, z)
        run.eq(x, ex, 'easting')
        run.eq(y, ey + (10000000 if bool(lat < 0) else 0), 'northing')
        run.eq(k, ek, 'scale factor')
        # the grid itself: the central meridian is at most three degrees away outside the exceptions
        special = bool(lat >= 56)
        if not special:
            run.holds(lon - (6 * z - 183) <= 3, 'central meridian within three degrees')
            run.holds(lon - (6 * z - 183) >= -3, 'central meridian within three degrees')
    run.explore(fn)
    return run.result()


def g_ecef2utm(form, budget):
    """the UTM coordinates of the geodetic position of a place"""
    run = NRun('GPS.ecef2utm', f'UTM of a geocentric position on {form} inputs', budget)

    def fn(run, L):
        M = L.load(RC)
        o, lla = origin(run)
        stub_ecef2lla(run, M, [(o, lla), OTHER])
        made = []
        ans = lambda j: ((R.of(500000 + j), R.of(1000 + j), R.of(7 + j)), (f'{j + 1}Q', R.of(Fraction(9996 + j, 10000))))

        def lla2utm(self, p, *a, **k):
            if a or k:
                raise Unsupported('arguments of lla2utm')
            try:
                e = [R.of(p[j]) for j in range(3)]
            except Exception:       # noqa: BLE001
                raise Unsupported('argument of lla2utm')
            for j, (_, w) in enumerate([(o, lla), OTHER]):
                if all(equal(u, v) for u, v in zip(e, w)):
                    made.append(j)
                    return ans(j)
            run.fail('argument of lla2utm', 'not the geodetic position of the place')
            return ans(0)
        if not hasattr(M.GPS, 'lla2utm'):
            raise Unsupported('no lla2utm')
        M.GPS.lla2utm = stub(lla2utm)
        run.watch(M)
        run.used.add('GPS.lla2utm')
        g = run.gps(M)
        y = form_of(OTHER[0], form)
        g.ecef2utm(y)
        if form == 'tuple':
            y = form_of(o, form)
        else:
            y[:] = o
        got = g.ecef2utm(y)
        unchanged(run, [y], [form_of(o, form)], 'ecef2utm')
        if not isinstance(got, (tuple, list)) or len(got) != 2 or len(got[0]) != 3 or len(got[1]) != 2:
            return run.fail('coordinates and zone', repr(got)[:200])
        (e, n, up), (zone, k) = got
        (e0, n0, up0), (zone0, k0) = ans(0)
        run.check(zone == zone0, 'zone and band', repr(zone)[:80])
        for a, b, what in ((e, e0, 'easting'), (n, n0, 'northing'), (up, up0, 'altitude'), (k, k0, 'scale factor')):
            run.eq(a, b, what)
    run.explore(fn)
    return run.result()


def snyder(M, lat, lon, zone):
    """Snyder (1987), equations 8-9 to 8-11 and 3-21, k0 = 0.9996, false easting 500 km"""
    a, e2 = wgs(M)
    k0 = Fraction(9996, 10000)
    ep = e2 / (1 - e2)
    ph, la, l0 = rad(lat), rad(lon), rad(R.of(6 * zone - 183))
    s, co = sincos(ph)
    N = a / sqrt(1 - e2 * s * s)
    t = s / co
    T, C, A = t * t, ep * co * co, co * (la - l0)
    M0 = a * ((1 - e2 / 4 - 3 * e2**2 / 64 - 5 * e2**3 / 256) * ph
              - (3 * e2 / 8 + 3 * e2**2 / 32 + 45 * e2**3 / 1024) * sincos(2 * ph)[0]
              + (15 * e2**2 / 256 + 45 * e2**3 / 1024) * sincos(4 * ph)[0]
              - (35 * e2**3 / 3072) * sincos(6 * ph)[0])
    x = k0 * N * (A + (1 - T + C) * A**3 / 6 + (5 - 18 * T + T**2 + 72 * C - 58 * ep) * A**5 / 120) + 500000
    y = k0 * (M0 + N * t * (A**2 / 2 + (5 - T + 9 * C + 4 * C**2) * A**4 / 24
                            + (61 - 58 * T + T**2 + 600 * C - 330 * ep) * A**6 / 720))
    k = k0 * (1 + (1 + C) * A**2 / 2 + (5 - 4 * T + 42 * C + 13 * C**2 - 28 * ep) * A**4 / 24
              + (61 - 148 * T + 16 * T**2) * A**6 / 720)
    return x, y, k


# --------------------------------------------------------------------- units --
FORMS = ('array', 'list', 'tuple')


def units(prop):
    out = []
    if prop in ('D01', 'D03'):
        for m in MODELS:
            for f in FORMS:
                for g in ((False, True) if MODELS[m][3] else (False,)):
                    out += [(k, (m, f, g)) for k in (('formula',) if prop == 'D01' else ('frame', 'zero'))]
    elif prop == 'D02':
        out = [('matrix', ())] + [('skew', (f,)) for f in FORMS]
    elif prop == 'G01':
        out = [('angles', ())] + [(k, (f,)) for f in FORMS for k in ('lla2ecef', 'lla2gcc')]
    elif prop == 'G03':
        out = [('vec', ()), ('rotate', ())] + [(k, (f,)) for f in FORMS for k in ('ned', 'ecef2pae', 'distance')] \
            + [('pae', (f, w)) for f in FORMS for w in ('general', 'above', 'below')]
    elif prop == 'G04':
        out = [('from_ecef', ()), ('to_ecef', ())]
    elif prop == 'G05':
        out = [('band', ())] + [('ecef', (f,)) for f in FORMS] + [('utm', (j, 24)) for j in range(24)]
    return out


KINDS = {'formula': dr_formula, 'frame': dr_frame, 'zero': dr_zero, 'matrix': dr_matrix, 'skew': dr_skew,
         'angles': g_angles, 'lla2ecef': g_lla2ecef, 'lla2gcc': g_lla2gcc, 'vec': g_vec, 'rotate': g_rotate,
         'ned': g_ned, 'ecef2pae': g_ecef2pae, 'distance': g_distance, 'pae': g_pae, 'from_ecef': g_from_ecef,
         'to_ecef': g_to_ecef, 'band': g_band, 'utm': g_utm,
         'ecef': g_ecef2utm}


def run(kind, args, budget):
    return KINDS[kind](*args, budget)
