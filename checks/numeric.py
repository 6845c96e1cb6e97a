"""D01-D03, G01-G05: dead reckoning and coordinate conversions."""
import time
from . import common
from .common import Result
from .others import count

REAL = 'floating point is treated as exact real arithmetic; the concrete runs of each check show the effect of rounding ' \
       'on samples'
ASSUME = {
    'D01': [REAL, 'between |cos(theta)| = 1e-15 and 1e-6 the statement does not say which formula applies'],
    'D02': [REAL],
    'D03': [REAL, 'the type of the elements is float; integer and single precision arrays are run concretely'],
    'G01': [REAL],
    'G02': [REAL, 'latitudes that differ from a pole by less than 1e-300 rad, but differ, are not covered'],
    'G03': [REAL, 'ecef2lla gives the geodetic coordinates of the origin (its contract, G02)'],
    'G04': [REAL, 'ecef2lla gives the geodetic coordinates of its argument (its contract, G02)',
            'gimbal lock (the forward axis vertical) is run concretely only'],
    'G05': [REAL],
}
TRUSTED = [
    'pyvc/real.py: polynomial normal forms over sines, cosines and square roots; the stand-ins for math and numpy '
    '(cross-checked against the running code on concrete inputs in every run)',
    'the specification formulas of pyvc/f_num.py: IEEE 1278.1 dead reckoning as documented in the module, WGS84, '
    'the UTM grid and Snyder (1987)',
    'z3 5.3.2 for inequalities and path conditions',
    'CPython 3.12 and numpy execute the source they are given',
]


def unit(job):
    prop, kind, args, budget = job
    from pyvc import funcs
    if prop == 'G02':
        from pyvc import f_geo as m
    else:
        from pyvc import f_num as m
    return funcs.guarded(f'{kind} {args}'[:80], kind, m.run, kind, args, budget)


def label(kind, args):
    return f'{kind} {" ".join(map(str, args))}'.strip()[:80]


def check(prop, tier, seed):
    r = Result(prop)
    r.assumptions += ASSUME[prop]
    r.trusted = list(TRUSTED)
    quick = tier == 'quick'
    budget = 150.0 if quick else 900.0
    if prop == 'G02':
        from pyvc import f_geo as m
        r.trusted.append('pyvc/interval.py: outward-rounded interval arithmetic; the C library evaluates sqrt to half a '
                         'unit in the last place and sin, cos and atan to within four')
    else:
        from pyvc import f_num as m
    us = m.units(prop)
    common.Deadline.at = time.time() + (500 if quick else 7200)
    res = common.verify_all(unit, [(prop, k, a, budget) for k, a in us], lambda j: (label(j[1], j[2]), j[1]))
    r.units = res
    conc = [getattr(m, 'concrete_unit', lambda k, a: (k, a))(k, a) for k, a in us]
    cj, cu, seen = [], [], {}
    for (kind, args), d, (ck, ca) in zip(us, res, conc):
        if d['status'] == 'proved':
            continue
        cex = [c['inputs'] for c in d['cex'] if c.get('inputs')]
        sid = str((ck, ca))
        if sid in seen:
            cj[seen[sid]]['cex'] += cex
            cu[seen[sid]][1].append(d)
            continue
        seen[sid] = len(cj)
        cj.append({'prop': prop, 'kind': ck, 'args': list(ca), 'cex': cex, 'n': 4000 if quick else 100000, 'seed': seed})
        cu.append((label(ck, ca), [d]))
    for j, (_, ds) in zip(cj, cu):
        j['stress'] = any('frame' in f['label'] or 'state' in f['label'] for d in ds for f in d['failed'])
        j['seconds'] = common.share(15.0, 120.0, len(cj)) if quick else 120.0
    for (lab, ds), g in zip(cu, common.concrete(cj, 'contracts/concrete_num.py')):
        r.concrete += g['tried']
        if g.get('error'):
            r.note(f'{lab}: concrete run failed: {g["error"]}')
        if g['fails']:
            r.violations.append({**g['fails'][0], 'failed_obligations': [
                {'run': d['run'], 'failed': d['failed'], 'reason': d['reason']} for d in ds]})
            continue
        why = '; '.join(f"{d['run']}: {d['reason'] or (d['failed'][0]['label'] if d['failed'] else '')}" for d in ds)[:300]
        r.bounded.append({'unit': lab, 'why': why, 'inputs_tried': g['tried'], 'bound': 'random inputs of the contract'})
        r.note(f'{lab} decided by bounded search only ({g["tried"]} inputs): {why}')
    sample, ss = [], set(seen)
    for ck, ca in conc:
        if str((ck, ca)) not in ss:
            ss.add(str((ck, ca)))
            sample.append({'prop': prop, 'kind': ck, 'args': list(ca), 'cex': [], 'n': 60 if quick else 3000, 'seed': seed,
                           'seconds': 4.0 if quick else 60.0})
    for j, g in zip(sample, common.concrete(sample, 'contracts/concrete_num.py')):
        r.concrete += g['tried']
        if g.get('error'):
            r.note(f'{j["kind"]}: concrete run failed: {g["error"]}')
        for f in g['fails']:
            r.violations.append({**f, 'note': 'found by the concrete runs although every obligation was discharged: an '
                                              'effect of rounding or integer inputs, or the verifier is unsound here'})
    used = {c for d in res for c in d['contracts']}
    if used:
        r.note('contracts of callees used: ' + ', '.join(sorted(used)))
    r.extra['contract_units_by_kind'] = count(k for k, _ in us)
    r.known += common.known_lines(prop)
    return r
