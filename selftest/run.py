"""Self-test of the verifier's semantics of Python against CPython.

Every function of the corpus (and of generated programs) is evaluated by the
verifier with symbolic parameters, on all its paths; for sampled concrete inputs
the outcome the verifier predicts (the outcome of the path the inputs satisfy,
evaluated in the model) is compared with what CPython computes.  A sample with
no path, or whose path predicts another outcome, is a soundness error of the
verifier; 'unsupported' is not (the codec checks then decide by bounded search).
"""
import copy
import importlib.util
import random
import struct
import sys
import os
import traceback
import z3
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from pyvc import sym                                                        # noqa: E402
from pyvc.sym import (SymInt, SymBool, SymFloat, SymBytes, SymStr, Seg, Blob, Rec, W, Unsupported, PyExc, mk_int,     # noqa: E402
                      mk_bool, mk_bytes, mk_str, is_byte, to_bv, bytes_chunks, RatInt)
from pyvc.engine import Engine                                               # noqa: E402
from pyvc.interp import Interp, Gen, SymSet                                          # noqa: E402
from pyvc.views import View, LView, subst, subst_chunk                       # noqa: E402

BV8, BVW = z3.BitVecSort(8), z3.BitVecSort(W)


class Eng(Engine):
    """remembers the definitions of the prefix sums"""

    def prefix_sum(self, c, kvar):
        f = Engine.prefix_sum(self, c, kvar)
        self.defs = getattr(self, 'defs', {})
        self.defs[f.name()] = (f, c, kvar)
        return f

    def _reset(self):
        self.defs = {}
        Engine._reset(self)


# ------------------------------------------------------------------ inputs --
class Par:
    def make(self, e, name):
        raise NotImplementedError


class Int(Par):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def make(self, e, name):
        t = e.fresh(name, BVW)
        e.assume(z3.And(t >= self.lo, t <= self.hi))
        return mk_int(t, self.lo, self.hi)

    def sample(self, rng):
        r = rng.random()
        if r < .25:
            return rng.choice([self.lo, self.hi, max(self.lo, min(0, self.hi)), max(self.lo, min(1, self.hi)),
                               max(self.lo, min(-1, self.hi))])
        if r < .6:
            return max(self.lo, min(self.hi, rng.randint(-8, 8) if self.lo < 0 else self.lo + rng.randint(0, 16)))
        return rng.randint(self.lo, self.hi)

    def pin(self, s, v):
        return [] if isinstance(s, int) else [s.t == z3.BitVecVal(v, W)]


class Bool(Par):
    def make(self, e, name):
        return mk_bool(e.fresh(name, z3.BoolSort()))

    def sample(self, rng):
        return rng.random() < .5

    def pin(self, s, v):
        return [s.t if v else z3.Not(s.t)]


class Bytes(Par):
    """n octets"""

    def __init__(self, n):
        self.n = n

    def make(self, e, name):
        return mk_bytes([e.fresh(name, BV8) for _ in range(self.n)])

    def sample(self, rng):
        return bytes(rng.choice([0, 1, 255, 128, 65, rng.randrange(256), rng.randrange(256)]) for _ in range(self.n))

    def pin(self, s, v):
        return [c == z3.BitVecVal(b, 8) for c, b in zip(s.chunks, v)] if self.n else []


class Blobb(Par):
    """up to cap octets, their number unknown"""

    def __init__(self, cap):
        self.cap = cap

    def make(self, e, name):
        n = e.fresh(name + '#', BVW)
        e.assume(z3.And(n >= 0, n <= self.cap))
        return mk_bytes([Blob(z3.Function(e.fresh_name(name), BVW, BV8), 0, mk_int(n, 0, self.cap))])

    def sample(self, rng):
        return Bytes(rng.choice([0, 1, 2, self.cap, rng.randint(0, self.cap)])).sample(rng)

    def pin(self, s, v):
        b = s.chunks[0]
        return [to_bv(b.len) == len(v)] + [b.byte(z3.BitVecVal(j, W)) == x for j, x in enumerate(v)]


class Str(Par):
    def __init__(self, n, top=127):
        self.n, self.top = n, top

    def make(self, e, name):
        out = []
        for _ in range(self.n):
            t = e.fresh(name, BVW)
            e.assume(z3.And(t >= 0, t <= self.top))
            out.append(mk_int(t, 0, self.top))
        return mk_str(out)

    def sample(self, rng):
        return ''.join(chr(rng.choice([65, 97, 32, 0, 48, rng.randint(0, self.top)])) for _ in range(self.n))

    def pin(self, s, v):
        return [c.t == ord(x) for c, x in zip(s.cps, v)] if self.n else []


class F(Par):
    def __init__(self, bits=64):
        self.b = bits

    def make(self, e, name):
        return SymFloat(e.fresh(name, z3.BitVecSort(self.b)))

    def sample(self, rng):
        f = rng.choice([0.0, -0.0, 1.0, -1.0, float('inf'), float('-inf'), float('nan'), 0.5, rng.uniform(-1e3, 1e3),
                        rng.uniform(-1e30, 1e30), 1e-40, 65504.0])
        return struct.unpack('>f', struct.pack('>f', f))[0] if self.b == 32 else f

    def pin(self, s, v):
        fmt = '>f' if self.b == 32 else '>d'
        return [s.bits == int.from_bytes(struct.pack(fmt, v), 'big')]


class Ints(Par):
    """a list of unknown length of ints"""

    def __init__(self, cap, lo=0, hi=255):
        self.cap, self.lo, self.hi = cap, lo, hi

    def make(self, e, name):
        n = e.fresh(name + '#', BVW)
        e.assume(z3.And(n >= 0, n <= self.cap))
        f = z3.Function(e.fresh_name(name), BVW, BVW)
        self.f, self.n = f, n
        k = z3.BitVec('k@0', W)
        j = z3.BitVec('j@', W)
        # the range of the elements, at every position
        for i in range(self.cap):
            e.assume(z3.And(f(i) >= self.lo, f(i) <= self.hi))
        del j
        s = Seg(mk_int(n, 0, self.cap), k, [(z3.BoolVal(True), mk_int(f(k), self.lo, self.hi))])
        return e.born([s])

    def sample(self, rng):
        return [Int(self.lo, self.hi).sample(rng) for _ in range(rng.choice([0, 1, 2, rng.randint(0, self.cap)]))]

    def pin(self, s, v):
        return [self.n == len(v)] + [self.f(z3.BitVecVal(j, W)) == z3.BitVecVal(x, W) for j, x in enumerate(v)]


# ----------------------------------------------------------------- outcome --
class Unclear(Exception):
    pass


def conc(v, m, I):
    """the CPython value of v in model m"""
    def ev(t):
        return m.eval(t, model_completion=True)
    if isinstance(v, SymInt):
        return ev(v.t).as_signed_long()
    if isinstance(v, SymBool):
        return z3.is_true(ev(v.t))
    if isinstance(v, SymFloat):
        b = ev(v.bits).as_long()
        return struct.unpack('>d' if v.width == 64 else '>f', b.to_bytes(v.width // 8, 'big'))[0]
    if isinstance(v, SymStr):
        return ''.join(chr(conc(c, m, I)) for c in v.cps)
    if isinstance(v, (bytes, SymBytes)):
        return bytes(octets(bytes_chunks(v), m, I))
    if isinstance(v, bytearray):
        return bytearray(v)
    if isinstance(v, LView):
        return conc(list(v.items) if v.tp is not tuple else tuple(v.items), m, I)
    if type(v) in (list, tuple):
        out = []
        for x in v:
            if isinstance(x, Seg):
                if x.k is None:
                    raise Unclear('opaque')
                for j in range(conc(x.n, m, I)):
                    jv = z3.BitVecVal(j, W)
                    p = case(x, jv, ev)
                    out.append(conc(subst(p, x.k, jv), m, I))
            else:
                out.append(conc(x, m, I))
        return type(v)(out)
    if type(v) is dict:
        return {conc(a, m, I): conc(b, m, I) for a, b in v.items()}
    if type(v) in (set, frozenset):
        return type(v)(conc(x, m, I) for x in v)
    if isinstance(v, RatInt):
        raise Unclear('quotient')
    if isinstance(v, SymSet):
        return set(conc(x, m, I) for x in v.items)
    if isinstance(v, sym.SymArray):
        return bytearray(octets(v.chunks, m, I))
    if isinstance(v, sym.OutBuf):
        return bytes(octets(v.chunks, m, I))
    if v is None or isinstance(v, (int, float, str, type, type(Ellipsis), range)):
        return v
    if hasattr(v, '__dict__'):
        return (type(v).__name__, {k: conc(x, m, I) for k, x in vars(v).items()})
    raise Unclear(type(v).__name__)


def case(x, jv, ev):
    for c, p in x.cases:
        if z3.is_true(ev(z3.substitute(c, (x.k, jv)))):
            return p
    return x.cases[-1][1]


def octets(chunks, m, I):
    def ev(t):
        return m.eval(t, model_completion=True)
    for c in chunks:
        if isinstance(c, int):
            yield c
        elif is_byte(c):
            yield ev(c).as_long()
        elif isinstance(c, Blob):
            for j in range(conc(c.len, m, I)):
                b = c.byte(ev(to_bv(j)))
                yield b if isinstance(b, int) else ev(b).as_long()
        elif isinstance(c, Seg):
            for j in range(conc(c.n, m, I)):
                jv = z3.BitVecVal(j, W)
                yield from octets([subst_chunk(y, c.k, jv) for y in case(c, jv, ev)], m, I)
        else:
            raise Unclear(type(c).__name__)


def plain(v):
    """objects of CPython's run in the form of conc"""
    if type(v) in (list, tuple):
        return type(v)(plain(x) for x in v)
    if type(v) is dict:
        return {plain(a): plain(b) for a, b in v.items()}
    if v is None or isinstance(v, (int, float, str, bytes, bytearray, type, type(Ellipsis), range, set, frozenset)):
        return v
    if type(v).__name__ == 'BytesIO':
        return v.getvalue()
    if hasattr(v, '__dict__'):
        return (type(v).__name__, {k: plain(x) for k, x in vars(v).items()})
    return v


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return struct.pack('>d', a) == struct.pack('>d', b) or a != a and b != b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


# --------------------------------------------------------------------- run --
def check(mod, f, pars, n=25, seed=1, budget=20.0):
    """-> (status, details): 'ok', 'unsupported', 'WRONG'"""
    rng = random.Random(f'{f.__name__}/{seed}')
    samples, want = [], []
    for _ in range(n):
        v = [p.sample(rng) for p in pars]
        samples.append(v)
        try:
            a = copy.deepcopy(v)
            r = f(*a)
            want.append(('ok', plain(r), plain([x for x in a if isinstance(x, list)])))
        except Exception as ex:     # noqa: BLE001
            want.append(('exc', type(ex).__name__))
    e = Eng(time_budget=budget, name=f.__name__)
    I = Interp(e, mod.__name__)
    seen = [0] * n
    wrong = []
    st = {}

    def fn():
        st['args'] = [p.make(e, f'a{j}') for j, p in enumerate(pars)]
        return I.call(f, tuple(st['args']))

    def judge(kind, val, cond=None):
        for j, v in enumerate(samples):
            e.solver.push()
            try:
                for p, s, x in zip(pars, st['args'], v):
                    for c in p.pin(s, x):
                        e.solver.add(c)
                if cond is not None:
                    e.solver.add(cond)
                for g, c, k in e.defs.values():
                    for i in range(70):
                        iv = z3.BitVecVal(i, W)
                        e.solver.add(g(iv + 1) == g(iv) + z3.substitute(c.t, (k, iv)))
                if e.check() != z3.sat:
                    continue
                m = e.solver.model()
                seen[j] += 1
                if kind == 'exc':
                    got = ('exc', type(val).__name__)
                else:
                    if isinstance(val, Gen):
                        raise Unclear('generator')
                    got = ('ok', conc(val, m, I), [conc(x, m, I) for x in st['args'] if isinstance(x, list)])
                if got[0] != want[j][0] or not all(same(a, b) for a, b in zip(got[1:], want[j][1:])):
                    wrong.append((v, 'CPython', want[j], 'verifier', got))
            finally:
                e.solver.pop()
    try:
        e.run_paths(fn, judge, lambda cond, exc: judge('exc', exc, cond))
    except (Unsupported, Unclear) as ex:
        if wrong:
            return 'WRONG', wrong[:2]
        return 'unsupported', f'{type(ex).__name__}: {ex}'
    except (AssertionError, RecursionError, Exception):     # noqa: BLE001
        return 'CRASH', traceback.format_exc()[-700:]
    lost = [samples[j] for j in range(n) if not seen[j]]
    if wrong:
        return 'WRONG', wrong[:2]
    if lost:
        return 'WRONG', [('no path', lost[0])]
    return 'ok', e.paths


def load(path, name='selftest_corpus'):
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def functions(mod):
    for name, f in list(vars(mod).items()):
        if callable(f) and getattr(f, '__module__', None) == mod.__name__ and not isinstance(f, type) and \
                f.__name__ == name and f.__code__.co_argcount == len(f.__annotations__) and f.__annotations__:
            yield name, f, list(f.__annotations__.values())


def main(argv):
    import builtins
    builtins.__dict__.setdefault('_selftest', True)
    mod = load(os.path.join(HERE, 'corpus.py'))
    names = argv[1:]
    tot = {}
    for name, f, pars in functions(mod):
        if names and name not in names:
            continue
        s, d = check(mod, f, pars)
        tot[s] = tot.get(s, 0) + 1
        if s != 'ok' or names:
            print(s, name, d)
    print(tot)
    return 1 if tot.get('WRONG') or tot.get('CRASH') else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
