"""The numeric contracts on the running code (CPython, floats): replays the
verifier's counterexamples and searches for others.  Tolerances are far above
rounding and far below any effect of a wrong formula."""
import ast
import json
import math
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [REPO]
import numpy as np      # noqa: E402

MODELS = {'drm_static': (0, 0, 0, 0), 'drm_fpw': (1, 0, 0, 0), 'drm_rpw': (1, 0, 0, 1), 'drm_rvw': (1, 1, 0, 1),
          'drm_fvw': (1, 1, 0, 0), 'drm_fpb': (1, 0, 1, 0), 'drm_rpb': (1, 0, 1, 1), 'drm_rvb': (1, 1, 1, 1),
          'drm_fvb': (1, 1, 1, 0)}
PI2 = math.pi / 2
A, B = 6378137.0, 6356752.314245
E2 = 1 - (B / A) ** 2


def exc(f, *a, **k):
    try:
        return None, f(*a, **k)
    except Exception as ex:     # noqa: BLE001
        return f'{type(ex).__name__}: {ex}'[:200], None


def form_of(v, form):
    v = [float(x) for x in v]
    return {'array': lambda: np.array(v), 'list': lambda: list(v), 'tuple': lambda: tuple(v),
            'ints': lambda: np.array([int(x) for x in v]), 'intlist': lambda: [int(x) for x in v],
            'mixed': lambda: [int(v[0]), *v[1:]], 'mixedtuple': lambda: (int(v[0]), *v[1:]),
            'single': lambda: np.array(v, dtype=np.float32)}[form]()


def values(v):
    """three floats of an array-like, or None"""
    try:
        x = [float(y) for y in v]
    except Exception:       # noqa: BLE001
        return None
    return x if len(x) == 3 else None


def rot(psi, theta, phi):
    sz, cz, sy, cy, sx, cx = (f(a) for a in (psi, theta, phi) for f in (math.sin, math.cos))
    Rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    Ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    Rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    return Rz @ Ry @ Rx


# ----------------------------------------------------------- dead reckoning --
def dr_read(name, inp, tag=''):
    vel, acc, body, w = MODELS[name]
    g = lambda n, k=3: [float(inp[f'{n}{tag}{j}']) for j in range(k)]      # noqa: E731
    x = {'p': g('p'), 'o': g('o')}
    if vel:
        x['v'], x['dt'] = g('v'), float(inp['dt' + tag])
    if acc:
        x['a'] = g('a')
    if w:
        x['w'] = g('w')
        co = abs(math.cos(x['o'][1]))
        if 1e-15 < co < 1e-6 * 1.000001:
            return None
    return x


def as_form(x, form):
    """the values the form can hold"""
    if form in ('ints', 'intlist'):
        return {k: [float(int(y)) for y in v] if isinstance(v, list) else v for k, v in x.items()}
    if form in ('mixed', 'mixedtuple'):
        return {k: [float(int(v[0])), *v[1:]] if isinstance(v, list) else v for k, v in x.items()}
    if form == 'single':
        return {k: [float(np.float32(y)) for y in v] if isinstance(v, list) else v for k, v in x.items()}
    return x


def dr_expect(x, name):
    """(position, orientation), each with the magnitude of its terms"""
    vel, acc, body, w = MODELS[name]
    pos, ori = list(x['p']), list(x['o'])
    mp, mo = [abs(y) for y in pos], [abs(y) for y in ori]
    if vel:
        t = x['dt']
        d = [v * t for v in x['v']]
        m = [abs(y) for y in d]
        if acc:
            d = [u + a * t * t / 2 for u, a in zip(d, x['a'])]
            m = [u + abs(a) * t * t / 2 for u, a in zip(m, x['a'])]
        if body:
            d = list(rot(*x['o']) @ np.array(d))
            m = [sum(m)] * 3
        pos = [u + y for u, y in zip(pos, d)]
        mp = [u + y for u, y in zip(mp, m)]
    if w:
        p, q, r = x['w']
        s, co, cy, sy = math.sin(ori[2]), math.cos(ori[2]), math.cos(ori[1]), math.sin(ori[1])
        dth = q * co - r * s
        if abs(cy) < 1e-15:
            rates = (0.0, dth, p)
            mr = (0.0, abs(q) + abs(r), abs(p))
        else:
            u = (q * s + r * co) / cy
            rates = (u, dth, p + u * sy)
            k = (abs(q) + abs(r)) / abs(cy)
            mr = (k, abs(q) + abs(r), abs(p) + k)
        ori = [o + e * t for o, e in zip(ori, rates)]
        mo = [u + abs(e * t) for u, e in zip(mo, mr)]
    return pos, ori, mp, mo


def dr_args(x, name, form):
    vel, acc, body, w = MODELS[name]
    a = [form_of(x['p'], form)]
    if vel:
        a.append(form_of(x['v'], form))
    if acc:
        a.append(form_of(x['a'], form))
    if vel:
        a.append(x['dt'])
    a.append(form_of(x['o'], form))
    if w:
        a.append(form_of(x['w'], form))
    return a


def used(f, args):
    """the same argument objects after earlier calls in which they held other values"""
    for d in (.3, .003):
        prev = []
        for a in args:
            if isinstance(a, (float, int)):
                prev.append(a + d)
            elif isinstance(a, tuple):
                prev.append(tuple(y + d * (1 + k / 8) for k, y in enumerate(a)))
            else:
                keep = [y for y in a]
                prev.append((a, keep))
        for p in prev:
            if isinstance(p, tuple) and len(p) == 2 and not isinstance(p[0], (float, int)):
                for k, y in enumerate(p[1]):
                    p[0][k] = type(y)(y + d * (1 + k / 8))
        exc(f, *[p[0] if isinstance(p, tuple) and len(p) == 2 else p for p in prev])
        for p in prev:
            if isinstance(p, tuple) and len(p) == 2 and not isinstance(p[0], (float, int)):
                for k, y in enumerate(p[1]):
                    p[0][k] = y
    return args


def close(got, want, mag, tol=2e-10):
    return all(math.isfinite(g) and abs(g - w) <= tol * (1e-3 + m) for g, w, m in zip(got, want, mag))


def dr_compare(name, x, got, what=''):
    if not isinstance(got, (tuple, list)) or len(got) != 2:
        return f'{name}{what} returned {type(got).__name__}'
    pos, ori, mp, mo = dr_expect(x, name)
    for lab, g, w, m in (('position', got[0], pos, mp), ('orientation', got[1], ori, mo)):
        v = values(g)
        if v is None:
            return f'{name}{what}: the {lab} is {g!r}'[:300]
        if not close(v, w, m):
            return f'{name}({fmt(x)}){what} has {lab} {v}, the formula gives {[float(y) for y in w]}'


def fmt(x):
    return ', '.join(f'{k}={[round(y, 12) for y in v] if isinstance(v, list) else v}' for k, v in x.items())


def forms(form):
    return {'array': ['array', 'ints', 'single'], 'list': ['list', 'intlist', 'mixed'], 'tuple': ['tuple', 'mixedtuple']}[form]


def check_D01_formula(args, inp):
    import opendis.DeadReckoning as M
    name, form, gimbal = args
    x0 = dr_read(name, inp)
    if x0 is None:
        return None
    for fm in forms(form):
        x = as_form(x0, fm)
        if MODELS[name][3] and 1e-15 < abs(math.cos(x['o'][1])) < 1.000001e-6:
            continue
        f = getattr(M, name)
        e, got = exc(f, *used(f, dr_args(x, name, fm)))
        r = f'{name}({fmt(x)}) on {fm} inputs raised {e}' if e else dr_compare(name, x, got, f' on {fm} inputs')
        if r:
            return r


def real(rng):
    return rng.choice([rng.uniform(-100, 100), rng.uniform(-1e6, 1e6), 0.0, 1.0, -1.0, rng.uniform(-1, 1)])


def rad(rng):
    return rng.choice([rng.uniform(-math.pi, math.pi), rng.uniform(-7, 7), 0.0, PI2, -PI2, math.pi, -math.pi, 0.3])


def theta(rng):
    if rng.random() < .35:
        return rng.choice([-1, 1]) * (PI2 + rng.choice([-1, 1]) * 10 ** rng.uniform(-5.9, -.5)) + rng.choice([0, 0, math.pi])
    return rng.choice([rng.uniform(-math.pi, math.pi), rng.uniform(-1.5, 1.5), 0.0, 0.7])


def deltat(rng):
    return rng.choice([rng.uniform(0, 10), rng.uniform(-5, 5), 0.0, 1.0, 1e-3, 1000.0, rng.uniform(0, .2), 1e5])


def gen_D01_formula(args, rng, tag=''):
    g = {f'{n}{tag}{j}': real(rng) for n in 'pva' for j in range(3)}
    k = rng.choice([2, .1, 2, 10])
    g.update({f'w{tag}{j}': rng.choice([rng.uniform(-k, k), rng.uniform(-k, k), 0.0]) for j in range(3)})
    g.update({f'o{tag}0': rad(rng), f'o{tag}1': rng.choice([PI2, -PI2]) if args[2] else theta(rng), f'o{tag}2': rad(rng),
              'dt' + tag: deltat(rng)})
    return g


def snapshot(a):
    return [np.array(v, dtype=float).tolist() if not isinstance(v, float) else v for v in a]


def shares(r, o):
    if r is o and not isinstance(r, (float, tuple)):
        return True
    return isinstance(r, np.ndarray) and isinstance(o, np.ndarray) and np.shares_memory(r, o)


def check_D03_frame(args, inp):
    import opendis.DeadReckoning as M
    name, form, gimbal = args
    f = getattr(M, name)
    x0, y0 = dr_read(name, inp), dr_read(name, inp, 'B')
    if x0 is None or y0 is None:
        return None
    for fm in forms(form):
        x, y = as_form(x0, fm), as_form(y0, fm)
        if MODELS[name][3] and any(1e-15 < abs(math.cos(z['o'][1])) < 1.000001e-6 for z in (x, y)):
            continue
        a, b = dr_args(x, name, fm), dr_args(y, name, fm)
        a0, b0 = snapshot(a), snapshot(b)
        e, r1 = exc(f, *a)
        if e:
            return f'{name} on {fm} inputs raised {e}'
        if snapshot(a) != a0:
            return f'{name} on {fm} inputs changed its arguments: {a0} became {snapshot(a)}'
        if not isinstance(r1, (tuple, list)) or len(r1) != 2 or values(r1[0]) is None or values(r1[1]) is None:
            return f'{name} returned {r1!r}'[:300]
        for r in r1:
            for o in a:
                if shares(r, o):
                    return f'{name} on {fm} inputs returns an array sharing storage with an argument'
        kept = [values(r) for r in r1]
        e, r2 = exc(f, *b)
        if e:
            return f'{name} called a second time raised {e}'
        for r in r2:
            for o in list(r1) + a + b:
                if shares(r, o):
                    return f'the results of two calls of {name} share storage'
        if [values(r) for r in r1] != kept:
            return f'a second call of {name} changed the result of the first: {kept} became {[values(r) for r in r1]}'
        w = dr_compare(name, y, r2, ' called a second time')
        if w:
            return w
        for r in (*r1, *r2):
            if isinstance(r, np.ndarray) and r.flags.writeable:
                r += 1
        if snapshot(a) != a0 or snapshot(b) != b0:
            return f'changing the result of {name} changes its arguments'
        e, r3 = exc(f, *a)
        if e:
            return f'{name} called again raised {e}'
        if [values(r) for r in r3] != kept:
            return f'{name} called again with equal arguments gives {[values(r) for r in r3]}, first {kept}'


def gen_D03_frame(args, rng):
    g = gen_D01_formula(args, rng)
    h = gen_D01_formula(args, rng, 'B')
    if rng.random() < .5:               # nearly the same arguments
        for k in g:
            kb = k + 'B' if k == 'dt' else k[0] + 'B' + k[1:]
            if rng.random() < .8:
                h[kb] = g[k]
    return {**g, **h}


def check_D03_zero(args, inp):
    import opendis.DeadReckoning as M
    name, form, gimbal = args
    x0 = dr_read(name, {**inp, 'dt': 0.0})
    if x0 is None:
        return None
    for fm in forms(form):
        for zero in (0.0, 0):
            x = as_form(x0, fm)
            if 'dt' in x:
                x['dt'] = zero
            e, got = exc(lambda: getattr(M, name)(*dr_args(x, name, fm)))
            if e:
                return f'{name}({fmt(x)}) raised {e}'
            if not isinstance(got, (tuple, list)) or len(got) != 2 or values(got[0]) is None or values(got[1]) is None:
                return f'{name} returned {got!r}'[:300]
            for lab, g, w in (('position', got[0], x['p']), ('orientation', got[1], x['o'])):
                if values(g) != w:
                    return f'{name}({fmt(x)}) with dt = 0 gives {lab} {values(g)} instead of {w}'


gen_D03_zero = gen_D01_formula


def kept(f, args, before):
    """f(*args), as it is after other calls and after what the caller does with their results"""
    got = f(*args)
    for a in (before, args):
        x = f(*a)
        if isinstance(x, np.ndarray):
            x += 1
    return got


def check_D02_matrix(args, inp):
    o = [float(inp[f'o{j}']) for j in range(3)]
    return matrix_at(o) or matrix_at([int(o[0]), *o[1:]]) or matrix_at(whole(o))


def whole(v):
    """numbers without a fraction as int"""
    return [int(x) if float(x).is_integer() else x for x in v]


def matrix_at(o):
    import opendis.DeadReckoning as M
    e, m = exc(kept, M.get_rotation_matrix, used(M.get_rotation_matrix, o), [o[2], o[0], o[1]])
    if e:
        return f'get_rotation_matrix{tuple(o)} raised {e}'
    m = np.array(m, dtype=float)
    if m.shape != (3, 3):
        return f'get_rotation_matrix has shape {m.shape}'
    if not np.allclose(m, rot(*o), rtol=0, atol=1e-12):
        return f'get_rotation_matrix{tuple(o)} is {m.tolist()}, Rz Ry Rx is {rot(*o).tolist()}'
    if not np.allclose(m.T @ m, np.eye(3), rtol=0, atol=1e-11) or abs(np.linalg.det(m) - 1) > 1e-11:
        return f'get_rotation_matrix{tuple(o)} is not a proper rotation'


def gen_D02_matrix(args, rng):
    return {'o0': rad(rng), 'o1': rng.choice([rad(rng), theta(rng)]), 'o2': rad(rng)}


def check_D02_skew(args, inp):
    import opendis.DeadReckoning as M
    w, v = [float(inp[f'w{j}']) for j in range(3)], [float(inp[f'v{j}']) for j in range(3)]
    for fm in forms(args[0]):
        u = as_form({'w': w}, fm)['w']
        a, = used(M.get_angular_velocity_matrix, [form_of(u, fm)])
        e, m = exc(kept, M.get_angular_velocity_matrix, [a], [form_of(u[::-1], fm)])
        if e:
            return f'get_angular_velocity_matrix({a!r}) raised {e}'
        m = np.array(m, dtype=float)
        want = [[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]]
        if m.shape != (3, 3) or not np.allclose(m, want, rtol=1e-12, atol=0):
            return f'get_angular_velocity_matrix({u}) is {m.tolist()}'
        if not np.allclose(m @ np.array(v), np.cross(u, v), rtol=1e-9, atol=1e-6):
            return f'get_angular_velocity_matrix({u}) times {v} is not the cross product'


def gen_D02_skew(args, rng):
    return {f'{n}{j}': real(rng) for n in 'wv' for j in range(3)}


# ----------------------------------------------------------- earth geometry --
SHARED = []


def gps():
    """the instance used by every call of this process: earlier calls must not matter"""
    import opendis.RangeCoordinates as M
    if not SHARED:
        SHARED.append(M.GPS())
    return SHARED[0]


def warm(f, form, *vecs):
    """arguments for f that held places nearby in two earlier calls, and places that differ in one number"""
    objs = [form_of(v, form) for v in vecs]
    for j, v in enumerate(vecs):
        for k in range(len(v)):
            one = [[*u[:k], u[k] / 2 + 1, *u[k + 1:]] if i == j else list(u) for i, u in enumerate(vecs)]
            exc(f, *(form_of(u, form) for u in one))
    for d in (.3, .003):
        near_by = [[x - d * (1 + k / 8) if x > 0 else x + d * (1 + k / 8) for k, x in enumerate(v)] for v in vecs]
        if form == 'tuple':
            exc(f, *map(tuple, near_by))
            continue
        for o, v in zip(objs, near_by):
            o[:] = v
        exc(f, *objs)
    if form != 'tuple':
        for o, v in zip(objs, vecs):
            o[:] = whole(v) if form == 'list' else v
    return objs


def to_ecef(lat, lon, alt):
    """degrees"""
    la, lo = math.radians(lat), math.radians(lon)
    N = A / math.sqrt(1 - E2 * math.sin(la) ** 2)
    return [(N + alt) * math.cos(la) * math.cos(lo), (N + alt) * math.cos(la) * math.sin(lo),
            (N * (1 - E2) + alt) * math.sin(la)]


def to_lla(x, y, z):
    """radians; Bowring's iteration, from the parametric latitude"""
    p = math.hypot(x, y)
    b = A * math.sqrt(1 - E2)
    beta = math.atan2(A * z, b * p)
    for _ in range(20):
        lat = math.atan2(z + E2 / (1 - E2) * b * math.sin(beta) ** 3, p - E2 * A * math.cos(beta) ** 3)
        beta = math.atan2(b / A * math.sin(lat), math.cos(lat))
    N = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    alt = p * math.cos(lat) + z * math.sin(lat) - N * (1 - E2 * math.sin(lat) ** 2)
    return lat, math.atan2(y, x), alt


def dist(a, b):
    return math.sqrt(sum((u - v) ** 2 for u, v in zip(a, b)))


def latd(rng):
    return rng.choice([rng.uniform(-90, 90), rng.uniform(-80, 84), rng.choice([0.0, 45.0, -45.0, 90.0, -90.0, 60.0]),
                       rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 1), rng.choice([-1, 1]) * (90 - 10 ** rng.uniform(-12, 1))])


def lond(rng):
    return rng.choice([rng.uniform(-180, 180), rng.choice([0.0, 90.0, -90.0, 180.0, 45.0, -135.0]),
                       rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 1), rng.choice([-1, 1]) * (180 - 10 ** rng.uniform(-12, 1)),
                       rng.choice([-1, 1]) * (90 + rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 1))])


def altm(rng):
    return rng.choice([rng.uniform(-1e4, 1e4), 0.0, 10 ** rng.uniform(-3, 7.69), -10 ** rng.uniform(-3, 4),
                       rng.uniform(0, 5e7), -1e4, 5e7])


def place(rng, tag=''):
    return {'lat' + tag: latd(rng), 'lon' + tag: lond(rng), 'alt' + tag: altm(rng)}


def check_G01_lla2ecef(args, inp, name='lla2ecef'):
    x = [float(inp[k]) for k in ('lat', 'lon', 'alt')]
    if not (abs(x[0]) <= 90 and abs(x[1]) <= 360 and abs(x[2]) <= 1e9):
        return None
    f = getattr(gps(), name)
    arg, = warm(f, args[0], x)
    e, got = exc(f, arg)
    if e:
        return f'{name}({x}) raised {e}'
    v = values(got)
    want = to_ecef(*x)
    if v is None or not all(math.isfinite(g) and abs(g - w) <= 2e-4 + 1e-11 * abs(w) for g, w in zip(v, want)):
        return f'{name}({x}) is {v or got}, {want} expected'


def check_G01_lla2gcc(args, inp):
    x = [float(inp[k]) for k in ('lat', 'lon', 'alt')]
    o = [float(inp.get(k, 0)) for k in ('lat0', 'lon0', 'alt0')]
    for v in (x, o):
        if not (abs(v[0]) <= 90 and abs(v[1]) <= 360 and abs(v[2]) <= 1e9):
            return None
    g = gps()
    lon0, lat0, alt0 = o[1], o[0], o[2]
    for t in ([lon0, lat0 / 2 + 1, alt0], [lon0 / 2 + 1, lat0, alt0], [lon0, lat0, alt0 / 2 + 1], [lon0, lat0, alt0]):
        text = ' '.join(map(repr, t))
        arg = form_of(x, args[0])
        e, got = exc(g.lla2gcc, arg, text)
        if e:
            return f'lla2gcc({x}, {text!r}) raised {e}'
        v = values(got)
        want = [a - b for a, b in zip(to_ecef(*x), to_ecef(t[1], t[0], t[2]))]
        if v is None or not all(math.isfinite(c) and abs(c - w) <= 2e-4 + 1e-11 * abs(w) for c, w in zip(v, want)):
            return f'lla2gcc({x}, {text!r}) is {v or got}, {want} expected'
    return check_G01_lla2ecef(args, inp, 'lla2gcc')


def gen_G01_lla2ecef(args, rng):
    return place(rng)


def gen_G01_lla2gcc(args, rng):
    return {**place(rng), **place(rng, '0')}


def check_G01_angles(args, inp):
    import opendis.RangeCoordinates as M
    x = float(inp['x'])
    for f, w in ((M.deg2rad, math.radians), (M.rad2deg, math.degrees)):
        e, g = exc(f, x)
        if e or not abs(g - w(x)) <= 1e-12 * (1e-3 + abs(w(x))):
            return f'{f.__name__}({x}) is {e or g}, {w(x)} expected'


def gen_G01_angles(args, rng):
    return {'x': real(rng)}


def lla_close(got, lat, lon, alt, what):
    """degrees; within a centimetre on the ground"""
    v = values(got)
    if v is None or not all(map(math.isfinite, v)):
        return f'{what} is {got!r}, ({lat}, {lon}, {alt}) expected'
    r = A + alt
    dn = math.radians(v[0] - lat) * r
    de = math.radians((v[1] - lon + 180) % 360 - 180) * r * math.cos(math.radians(lat))
    if abs(dn) > .01 or abs(de) > .01 or abs(v[2] - alt) > .01 or not -180 <= v[1] <= 180:
        return (f'{what} is {tuple(v)}, ({lat}, {lon}, {alt}) expected: off by {dn:.4g} m north, {de:.4g} m east, '
                f'{v[2] - alt:.4g} m up')


def check_G02_inverse(args, inp):
    lat, lon, alt = (float(inp[k]) for k in ('lat', 'lon', 'alt'))
    if not (-90 <= lat <= 90 and -180 < lon <= 180 and -10000 <= alt <= 5e7):
        return None
    f = gps()
    for mk in ('tuple', 'list', 'array'):
        e, p = exc(f.lla2ecef, *warm(f.lla2ecef, mk, [lat, lon, alt]))
        if e:
            return f'lla2ecef({(lat, lon, alt)}) raised {e}'
        p = [float(v) for v in p]
        e, g = exc(f.ecef2lla, *warm(f.ecef2lla, mk, p))
        if e:
            return f'ecef2lla({list(p)}), the position of {(lat, lon, alt)}, raised {e}'
        r = lla_close(g, lat, lon, alt, f'ecef2lla(lla2ecef({(lat, lon, alt)}))')
        if r:
            return r
        # sines and cosines of right angles are not quite zero: the position exactly on the plane
        z = [0.0 if abs(v) < 1e-8 else v for v in p]
        if z != p and (z[0] or z[1]):
            e, g = exc(f.ecef2lla, *warm(f.ecef2lla, mk, z))
            r = f'ecef2lla({z}) raised {e}' if e else lla_close(g, lat, lon, alt, f'ecef2lla({z})')
            if r:
                return r


def gen_G02_inverse(args, rng):
    return place(rng)


def check_G02_pole(args, inp):
    h = float(inp['alt'])
    if not -10000 <= h <= 5e7:
        return None
    for s in (1, -1):
        z = s * (B + h)
        for zero in (0.0, 0, -0.0):
            e, g = exc(gps().ecef2lla, (zero, 0.0, z))
            if e:
                return f'ecef2lla((0, 0, {z})) raised {e}'
            v = values(g)
            if v is None or not (abs(v[0] - 90 * s) < 1e-9 and abs(v[2] - h) <= .01 and -180 <= v[1] <= 180):
                return f'ecef2lla((0, 0, {z})) is {g!r}, latitude {90 * s} and altitude {h} expected'


def gen_G02_pole(args, rng):
    return {'alt': altm(rng)}


def axes(lat, lon):
    s, c, sl, cl = math.sin(lat), math.cos(lat), math.sin(lon), math.cos(lon)
    return np.array([[-s * cl, -s * sl, c], [-sl, cl, 0], [-c * cl, -c * sl, -s]])


def origin_of(inp, tag='0'):
    o = [float(inp[n + tag]) for n in 'XYZ']
    if math.hypot(o[0], o[1]) < 1 or not 6e6 < math.hypot(*o) < 5.7e7:
        return None         # at the poles any longitude is valid
    return o


def gen_origin(rng, tag='0'):
    p = to_ecef(latd(rng), lond(rng), altm(rng))
    if rng.random() < .15:          # exactly on an axis of the equatorial plane
        p = rng.choice([[A, 0.0, 0.0], [0.0, A, 0.0], [-A, 0.0, 0.0], [0.0, -A, 0.0]])
    return {n + tag: v for n, v in zip('XYZ', p)}


def near(rng, o):
    r = 10 ** rng.uniform(0, 7)
    return [v + rng.choice([rng.uniform(-r, r), 0.0, rng.uniform(-r, r)]) for v in o]


def polar(inp, tag='0'):
    """the origin moved onto the axis"""
    o = [float(inp[n + tag]) for n in 'XYZ']
    r = math.hypot(*o)
    return [0.0, 0.0, math.copysign(r, o[2])] if 6e6 < r < 5.7e7 else None


def check_G03_ned(args, inp):
    return check_G03_at(args, inp, origin_of(inp)) or check_G03_at(args, inp, polar(inp))


def check_G03_at(args, inp, o):
    if o is None:
        return None
    pole = not (o[0] or o[1])        # any direction may be called north there, but it is the same in both functions
    p, q, n = ([float(inp[f'{k}{j}']) for j in range(3)] for k in 'pqn')
    fo = lambda v: form_of(v, args[0])      # noqa: E731
    g = gps()
    lat, lon, _ = to_lla(*o)
    M = axes(lat, lon)
    what = f'origin {o}'

    def call(f, *a):
        args_ = warm(f, args[0], *a)
        e, r = exc(f, *args_)
        if e:
            raise AssertionError(f'{f.__name__}({", ".join(map(str, a))}) raised {e}')
        v = values(r)
        if v is None or not all(map(math.isfinite, v)):
            raise AssertionError(f'{f.__name__}({", ".join(map(str, a))}) is {r!r}')
        for u, w in zip(args_, a):
            if [float(y) for y in u] != [float(y) for y in w]:
                raise AssertionError(f'{f.__name__} changed its argument {w} to {list(u)}')
        return v
    try:
        gp, gq, z = call(g.ecef2ned, p, o), call(g.ecef2ned, q, o), call(g.ecef2ned, o, o)
        d = dist(p, o)
        want = M @ (np.array(p) - np.array(o))
        tol = 1e-6 + 3e-9 * d
        if pole:
            want[:2] = gp[:2]
        if dist(gp, want) > tol:
            return f'ecef2ned({p}), {what}, is {gp}, {want.tolist()} expected'
        if abs(dist(gp, gq) - dist(p, q)) > 1e-6 + 1e-11 * (d + dist(q, o)):
            return f'ecef2ned, {what}, changes the distance of {p} and {q} from {dist(p, q)} to {dist(gp, gq)}'
        if dist(z, [0, 0, 0]) > 1e-6:
            return f'ecef2ned of the {what} is {z}'
        back = call(g.ned2ecef, gp, o)
        if dist(back, p) > 1e-6 + 1e-11 * d:
            return f'ned2ecef(ecef2ned({p})), {what}, is {back}'
        e = call(g.ned2ecef, n, o)
        want = M.T @ np.array(n) + np.array(o)
        m = math.hypot(*n)
        if not pole and dist(e, want) > 1e-6 + 3e-9 * m:
            return f'ned2ecef({n}), {what}, is {e}, {want.tolist()} expected'
        back = call(g.ecef2ned, e, o)
        if dist(back, n) > 1e-6 + 1e-11 * m:
            return f'ecef2ned(ned2ecef({n})), {what}, is {back}'
    except AssertionError as ex:
        return str(ex)


def gen_G03_ned(args, rng):
    g = gen_origin(rng)
    o = [g[n + '0'] for n in 'XYZ']
    for k in 'pq':
        g.update({f'{k}{j}': v for j, v in enumerate(near(rng, o))})
    g.update({f'n{j}': v for j, v in enumerate(near(rng, [0, 0, 0]))})
    return g


def check_G03_vec(args, inp):
    a = float(inp['latr']), float(inp['lonr'])
    e, m = exc(gps().ecefvec2nedvec, *a)
    if e:
        return f'ecefvec2nedvec{a} raised {e}'
    m = np.array(m, dtype=float)
    if m.shape != (3, 3) or not np.allclose(m, axes(*a), rtol=0, atol=1e-12):
        return f'ecefvec2nedvec{a} is {m.tolist()}, {axes(*a).tolist()} expected'


def gen_G03_vec(args, rng):
    return {'latr': rng.choice([math.radians(latd(rng)), rad(rng)]), 'lonr': rad(rng)}


def check_G03_rotate(args, inp):
    t, u, w = (float(inp[k]) for k in 'tuw')
    k = np.array([math.cos(u) * math.cos(w), math.sin(u) * math.cos(w), math.sin(w)])
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    want = np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * (K @ K)
    e, m = exc(gps().rotate_3x3, t, k)
    if e:
        return f'rotate_3x3({t}, {k}) raised {e}'
    m = np.array(m, dtype=float)
    if m.shape != (3, 3) or not np.allclose(m, want, rtol=0, atol=1e-11):
        return f'rotate_3x3({t}, {k.tolist()}) is {m.tolist()}, {want.tolist()} expected'
    if not np.array_equal(np.array(gps()._IDENTITY_3X3 if hasattr(gps(), '_IDENTITY_3X3') else np.eye(3)), np.eye(3)):
        return 'rotate_3x3 changed the identity matrix'


def gen_G03_rotate(args, rng):
    return {k: rad(rng) for k in 'tuw'}


def pae_ok(got, ned, what, tol):
    v = values(got)
    if v is None or not all(map(math.isfinite, v)):
        return f'{what} is {got!r}'
    p, al, ep = v[0], math.radians(v[1]), math.radians(v[2])
    r = math.hypot(*ned)
    back = [p * math.cos(ep) * math.cos(al), p * math.cos(ep) * math.sin(al), -p * math.sin(ep)]
    if abs(p - r) > 1e-6 + 1e-11 * r or dist(back, ned) > tol or not -180.000001 <= v[1] <= 180.000001 \
            or not -90.000001 <= v[2] <= 90.000001:
        return f'{what} is {v}: that is the point {back} at distance {r}, {list(ned)} expected'


def check_G03_pae(args, inp):
    ned = [float(inp[f'n{j}']) for j in range(3)] if args[1] == 'general' else \
        [0.0, 0.0, float(inp['h']) * {'above': -1, 'below': 1}[args[1]]]
    e, got = exc(gps().ned2pae, form_of(ned, args[0]))
    if e:
        return f'ned2pae({ned}) raised {e}'
    return pae_ok(got, ned, f'ned2pae({ned})', 1e-6 + 1e-11 * math.hypot(*ned))


def gen_G03_pae(args, rng):
    return {**{f'n{j}': v for j, v in enumerate(near(rng, [0, 0, 0]))}, 'h': 10 ** rng.uniform(-3, 7)}


def check_G03_ecef2pae(args, inp):
    o = origin_of(inp)
    if o is None:
        return None
    p = [float(inp[f'p{j}']) for j in range(3)]
    lat, lon, _ = to_lla(*o)
    ned = axes(lat, lon) @ (np.array(p) - np.array(o))
    f = gps().ecef2pae
    e, got = exc(f, *warm(f, args[0], p, o))
    if e:
        return f'ecef2pae({p}, {o}) raised {e}'
    return pae_ok(got, ned, f'ecef2pae({p}, {o})', 1e-6 + 3e-9 * dist(p, o))


def gen_G03_ecef2pae(args, rng):
    g = gen_origin(rng)
    g.update({f'p{j}': v for j, v in enumerate(near(rng, [g[n + '0'] for n in 'XYZ']))})
    return g


def check_G03_distance(args, inp):
    import opendis.RangeCoordinates as M
    p, q = [float(inp[f'p{j}']) for j in range(3)], [float(inp[f'q{j}']) for j in range(3)]
    fo = lambda v: form_of(v, args[0])      # noqa: E731
    for a, want in (((fo(p),), dist(p, [0, 0, 0])), ((fo(p), fo(q)), dist(p, q))):
        e, g = exc(M.euclideanDistance, *a)
        if e or not abs(g - want) <= 1e-9 + 1e-12 * want:
            return f'euclideanDistance{a} is {e or g}, {want} expected'


def gen_G03_distance(args, rng):
    return {f'{n}{j}': real(rng) for n in 'pq' for j in range(3)}


# ----------------------------------------------------------------- attitude --
def angles_ok(psi, th, phi, want, what, tol=1e-6):
    v = values([psi, th, phi])
    if v is None or not all(map(math.isfinite, v)):
        return f'{what}: angles {psi!r}, {th!r}, {phi!r}'
    m = rot(*v)
    if not np.allclose(m, want, rtol=0, atol=tol):
        return f'{what}: angles {v} give the attitude {m.tolist()}, {want.tolist()} expected'
    if not (abs(v[0]) <= 3.1415927 and abs(v[1]) <= 1.5707964 and abs(v[2]) <= 3.1415927):
        return f'{what}: angles {v} are out of range'


def check_G04_to_ecef(args, inp):
    lat, lon, alt, roll, pitch, yaw = (float(inp[k]) for k in ('latr', 'lonr', 'alt', 'roll', 'pitch', 'yaw'))
    if not (abs(lat) <= PI2 and abs(lon) <= math.pi and -10000 <= alt <= 5e7):
        return None
    g = gps()
    a = (lat, lon, alt, roll, pitch, yaw)
    what = f'llarpy2ecef{a}'
    warm(lambda v: g.llarpy2ecef(*v), 'tuple', a)
    e, r = exc(g.llarpy2ecef, *a)
    if e:
        return f'{what} raised {e}'
    if len(r) != 6:
        return f'{what} is {r!r}'
    want = to_ecef(math.degrees(lat), math.degrees(lon), alt)
    if values(r[:3]) is None or not dist(values(r[:3]), want) <= .001:
        return f'{what}: location {tuple(map(float, r[:3]))}, {want} expected'
    att = axes(lat, lon).T @ rot(yaw, pitch, roll)
    x = angles_ok(*r[3:], att, what)
    if x:
        return x
    warm(lambda v: g.ecef2llarpy(*v), 'tuple', [float(v) for v in r])
    e, b = exc(g.ecef2llarpy, *[float(v) for v in r])
    if e:
        return f'ecef2llarpy({what}) raised {e}'
    x = lla_close([math.degrees(b[0]), math.degrees(b[1]), b[2]], math.degrees(lat), math.degrees(lon), alt,
                  f'ecef2llarpy({what})')
    if x:
        return x
    if math.hypot(*want[:2]) > 1:       # nearer the poles longitude and yaw are not separately determined
        return angles_ok(b[5], b[4], b[3], rot(yaw, pitch, roll), f'ecef2llarpy({what})', 1e-5)


def gen_G04_to_ecef(args, rng):
    return {'latr': math.radians(latd(rng)), 'lonr': math.radians(lond(rng)), 'alt': altm(rng),
            'roll': rad(rng), 'pitch': rng.choice([rng.uniform(-PI2, PI2), rad(rng), theta(rng)]), 'yaw': rad(rng)}


def check_G04_from_ecef(args, inp):
    o = origin_of(inp)
    if o is None:
        return None
    ang = [float(inp[k]) for k in ('psi', 'theta', 'phi')]
    what = f'ecef2llarpy{(*o, *ang)}'
    g = gps()
    warm(lambda v: g.ecef2llarpy(*v), 'tuple', [*o, *ang])
    e, r = exc(g.ecef2llarpy, *o, *ang)
    if e:
        return f'{what} raised {e}'
    if len(r) != 6:
        return f'{what} is {r!r}'
    lat, lon, alt = to_lla(*o)
    x = lla_close([math.degrees(r[0]), math.degrees(r[1]), r[2]], math.degrees(lat), math.degrees(lon), alt, what)
    if x:
        return x
    x = angles_ok(r[5], r[4], r[3], axes(lat, lon) @ rot(*ang), what)
    if x:
        return x
    o = polar(inp)          # the longitude reported there is the one the angles refer to
    what = f'ecef2llarpy{(*o, *ang)}'
    e, r = exc(g.ecef2llarpy, *o, *ang)
    if e:
        return f'{what} raised {e}'
    return angles_ok(r[5], r[4], r[3], axes(r[0], r[1]) @ rot(*ang), what)


def gen_G04_from_ecef(args, rng):
    d = {**gen_origin(rng), 'psi': rad(rng), 'theta': rng.choice([rng.uniform(-PI2, PI2), rad(rng), theta(rng)]),
         'phi': rad(rng)}
    if rng.random() < .2:           # right angles, exactly
        for k in rng.sample(('psi', 'theta', 'phi'), rng.choice((1, 2, 2, 3))):
            d[k] = rng.choice((0.0, 0.0, PI2, -PI2, math.pi))
    return d


# ---------------------------------------------------------------------- UTM --
BANDS = 'CDEFGHJKLMNPQRSTUVWX'


def band(lat):
    return BANDS[min(19, int((lat + 80) // 8))]


def zone(lat, lon):
    if lat >= 72:
        for lo, hi, z in ((0, 9, 31), (9, 21, 33), (21, 33, 35), (33, 42, 37)):
            if lo <= lon < hi:
                return z
    if 56 <= lat < 64 and 3 <= lon < 12:
        return 32
    if lon == 180:
        return 1
    return int(math.floor((lon + 180) / 6)) + 1


def check_G05_band(args, inp):
    lat = float(inp['lat'])
    if not -80 <= lat <= 84:
        return None
    e, g = exc(gps().utmLetterDesignator, lat)
    if e or g != band(lat):
        return f'utmLetterDesignator({lat}) is {e or g!r}, {band(lat)!r} expected'


def utm_lat(rng):
    return rng.choice([rng.uniform(-80, 84), float(rng.randrange(-80, 85)), float(8 * rng.randrange(-10, 11)),
                       max(-80.0, 8 * rng.randrange(-10, 11) + rng.choice([-1, 1]) * 1e-9), rng.uniform(55, 65),
                       rng.uniform(71, 84), 84.0, -80.0, rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 1)])


def gen_G05_band(args, rng):
    return {'lat': utm_lat(rng)}


def check_G05_utm(args, inp):
    lat, lon, alt = (float(inp[k]) for k in ('lat', 'lon', 'alt'))
    if not (-80 <= lat <= 84 and -180 <= lon <= 180):
        return None
    f = gps().lla2utm
    e, g = exc(f, *warm(f, 'list', [lat, lon, alt]))
    what = f'lla2utm({[lat, lon, alt]})'
    if e:
        return f'{what} raised {e}'
    try:
        (x, y, up), (zn, k) = g
        x, y, up, k = map(float, (x, y, up, k))
    except Exception:       # noqa: BLE001
        return f'{what} is {g!r}'[:300]
    z = zone(lat, lon)
    if abs((lon + 180) / 6 - round((lon + 180) / 6)) < 1e-13 and zn != f'{z}{band(lat)}' and lon % 1:
        return None         # rounding decides next to an edge
    if zn != f'{z}{band(lat)}':
        return f'{what} is in {zn!r}, {z}{band(lat)} expected'
    s, c, la = math.sin(math.radians(lat)), math.cos(math.radians(lat)), math.radians(lat)
    ep = E2 / (1 - E2)
    N, T, C, Q = A / math.sqrt(1 - E2 * s * s), (s / c) ** 2, ep * c * c, c * math.radians((-180 if lon == 180 else lon) - (6 * z - 183))
    M = A * ((1 - E2 / 4 - 3 * E2**2 / 64 - 5 * E2**3 / 256) * la
             - (3 * E2 / 8 + 3 * E2**2 / 32 + 45 * E2**3 / 1024) * math.sin(2 * la)
             + (15 * E2**2 / 256 + 45 * E2**3 / 1024) * math.sin(4 * la) - (35 * E2**3 / 3072) * math.sin(6 * la))
    ex = .9996 * N * (Q + (1 - T + C) * Q**3 / 6 + (5 - 18 * T + T**2 + 72 * C - 58 * ep) * Q**5 / 120) + 500000
    ey = .9996 * (M + N * s / c * (Q**2 / 2 + (5 - T + 9 * C + 4 * C**2) * Q**4 / 24
                                   + (61 - 58 * T + T**2 + 600 * C - 330 * ep) * Q**6 / 720)) + (1e7 if lat < 0 else 0)
    ek = .9996 * (1 + (1 + C) * Q**2 / 2 + (5 - 4 * T + 42 * C + 13 * C**2 - 28 * ep) * Q**4 / 24
                  + (61 - 148 * T + 16 * T**2) * Q**6 / 720)
    if abs(x - ex) > 2e-3 or abs(y - ey) > 2e-3 or abs(k - ek) > 1e-9 or up != alt:
        return f'{what} is ({x}, {y}, {up}) with scale {k}; ({ex}, {ey}, {alt}) with scale {ek} expected'


def gen_G05_utm(args, rng):
    w = 360 / args[1]
    lo = -180 + w * args[0]
    lon = rng.choice([rng.uniform(lo, lo + w), lo, lo + w, float(rng.randrange(math.ceil(lo), math.floor(lo + w) + 1)),
                      min(180.0, lo + w + 1e-9), max(-180.0, lo - 1e-9)])
    return {'lat': utm_lat(rng), 'lon': lon, 'alt': real(rng)}


def check_G05_ecef(args, inp):
    p = [float(inp[n]) for n in ('X0', 'Y0', 'Z0')]
    if not 6.3e6 < math.hypot(*p) < 5e7:
        return None
    g = gps()
    e, lla = exc(g.ecef2lla, list(p))
    if e or not -80 <= lla[0] <= 84:
        return None
    e, want = exc(g.lla2utm, lla)
    if e:
        return None
    f = gps().ecef2utm
    v = list(p) if args[0] == 'list' else tuple(p) if args[0] == 'tuple' else np.array(p)
    e, got = exc(f, *warm(f, args[0], v))
    what = f'ecef2utm({p})'
    if e:
        return f'{what} raised {e}'
    try:
        ok = all(float(a) == float(b) for a, b in zip(got[0], want[0])) and len(got[0]) == 3 and got[1][0] == want[1][0] \
            and float(got[1][1]) == float(want[1][1])
    except Exception:       # noqa: BLE001
        ok = False
    if not ok:
        return f'{what} is {got!r}, lla2utm of its geodetic position is {want!r}'[:400]


def gen_G05_ecef(args, rng):
    la, lo, h = math.radians(rng.uniform(-79, 83)), math.radians(rng.uniform(-180, 180)), rng.uniform(0, 1e5)
    n = A / math.sqrt(1 - E2 * math.sin(la) ** 2)
    return {'X0': (n + h) * math.cos(la) * math.cos(lo), 'Y0': (n + h) * math.cos(la) * math.sin(lo),
            'Z0': (n * (1 - E2) + h) * math.sin(la)}


# ------------------------------------------------------------------- search --
def fn_of(pre, prop, kind):
    return globals()[f'{pre}_{prop}_{kind}']


def literals(prop):
    """numbers of the source, in the units an input may have"""
    out = set()
    try:
        with open(os.path.join(REPO, 'opendis', 'DeadReckoning.py' if prop[0] == 'D' else 'RangeCoordinates.py')) as h:
            t = ast.parse(h.read())
    except (OSError, SyntaxError, ValueError):
        return []
    for n in ast.walk(t):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            if math.isfinite(float(n.value)):
                out.add(abs(float(n.value)))
    return sorted(out)


def special(inp, lits, rng):
    """some inputs replaced by values next to numbers of the source"""
    ks = [k for k, v in inp.items() if isinstance(v, (int, float)) and not isinstance(v, bool)]
    for k in rng.sample(ks, min(len(ks), rng.choice((1, 1, 2, 3)))):
        c = rng.choice(lits) * rng.choice((1, 1, 1, math.pi / 180, 180 / math.pi, .5, 2))
        c *= rng.choice((1, 1, 1 + 1e-9, 1 - 1e-9, 1.05, .95, rng.random()))
        inp[k] = c * rng.choice((1, -1))
    return inp


def run(job):
    prop, kind, args = job['prop'], job['kind'], job['args']
    fn, gen = fn_of('check', prop, kind), fn_of('gen', prop, kind)
    tried = 0

    def attempt(inp, origin):
        nonlocal tried
        tried += 1
        e, r = exc(fn, args, inp)
        if e and origin == 'verifier counterexample':
            return None
        if e or r:
            return {'property': prop, 'kind': kind, 'args': args, 'inputs': inp, 'what': e or r, 'origin': origin,
                    'key': f'{kind} {" ".join(map(str, args))}'[:120]}
    for inp in job.get('cex', []):
        f = attempt(inp, 'verifier counterexample')
        if f:
            return {'fails': [f], 'tried': tried}
    t0 = time.time()
    rng = random.Random(f'{job["seed"]}/{prop}/{kind}/{args}')
    # around the counterexamples: some of their values kept
    base = job.get('cex', [])
    lits = literals(prop)
    few = [gen(args, rng) for _ in range(2)] if job.get('stress') else []
    while few and time.time() - t0 < job.get('seconds', 10.0) / 2:
        f = attempt(few[tried % len(few)], f'the same call repeated ({tried + 1} calls so far)')
        if f:
            return {'fails': [{**f, 'repeat': tried}], 'tried': tried}
        if tried > 200 and not tried % 4:           # and after others that differ from it in one input
            fresh = gen(args, rng)
            a = rng.choice(few)
            k = rng.choice(sorted(a))
            b = {**a, k: fresh.get(k, a[k])}
            for inp, before in ((b, a), (a, b)):
                f = attempt(inp, 'after another call')
                if f:
                    return {'fails': [{**f, 'before': before}], 'tried': tried}
    for n in range(job['n']):
        if time.time() - t0 > job.get('seconds', 10.0):
            break
        inp = gen(args, rng)
        if base and n % 3 == 0:
            b = rng.choice(base)
            inp.update({k: v for k, v in b.items() if k in inp and rng.random() < .7})
        elif n % 4 == 1 and lits:
            inp = special(inp, lits, rng)
        f = attempt(inp, 'bounded search')
        if f:
            return {'fails': [f], 'tried': tried}
    return {'fails': [], 'tried': tried}


def replay(path):
    d = json.load(open(path))
    r = None
    if d.get('before'):
        fn_of('check', d['property'], d['kind'])(d['args'], d['before'])
    for _ in range(1 + 2 * d.get('repeat', 0)):
        r = r or fn_of('check', d['property'], d['kind'])(d['args'], d['inputs'])
    print(d['property'], d['key'], 'FAILS: ' + r if r else 'holds')
    return 1 if r else 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    out = []
    for j in json.load(sys.stdin):
        try:
            out.append(run(j))
        except Exception:     # noqa: BLE001
            out.append({'fails': [], 'tried': 0, 'error': traceback.format_exc()[-800:]})
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
