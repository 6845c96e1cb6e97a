"""C01-C03, C05-C08, C10: contracts of serialize/parse/marshalledSize/__init__
of every record and PDU class."""
import time
from contracts import layouts as LY
from . import common
from .common import Result

# property -> runs that decide it, and direct runs that decide it on their own
# when one of those fails (the property may hold although the layout does not)
PRIMARY = {'C01': ['serialize', 'parse', 'history', 'alias'], 'C02': ['serialize', 'parse', 'history', 'alias'], 'C03': ['serialize', 'parse'],
           'C05': ['serialize', 'size', 'history', 'alias'], 'C06': ['range', 'rerange'], 'C07': ['truncated'], 'C08': ['again', 'fresh', 'parsed', 'history', 'alias'],
           'C10': ['arbitrary']}
DIRECT = {'C01': 'roundtrip', 'C03': 'reencode'}
ASSUME = {
    'C01': ['objects are built by the class constructor and their declared attributes assigned in-domain values'],
    'C02': ['the layouts are the oracle; NaN payload bits are not distinguished'],
    'C03': ['inputs are encodings of in-domain views; reserved octets are zero'],
    'C05': ['lists are no longer than their count field can express'],
    'C06': ['BeamStatus.beamState (a flag) is exempt; only int values are considered'],
    'C07': ['the stream is an io.BytesIO-like object whose read returns what is left'],
    'C08': ['single-threaded use; declared attributes only'],
    'C10': ['work is counted in stream reads, loop iterations and list or bytes elements made; up to 255 steps are not counted'],
}


def verify(job):
    from pyvc import codec
    return codec.verify(job)


def diffjob(job):
    from pyvc import codec
    return codec.differential(job) or ''


def check(prop, tier, seed):
    r = Result(prop)
    r.assumptions += ASSUME[prop]
    r.assumptions.append('a caller is checked against the contracts of the classes it calls; each of those contracts '
                         'is discharged in this same run')
    budget = 40.0 if tier == 'quick' else 300.0
    lays = [l for l in LY.all_layouts() if not l.oneway or prop not in ('C01', 'C03', 'C07', 'C10')]
    jobs = []
    seen = set()
    for l in lays:
        for run in PRIMARY[prop]:
            k = (l.name if run in ('arbitrary', 'fresh') else l.key, run)
            if k in seen or l.oneway and run in ('parse', 'parsed'):
                continue
            seen.add(k)
            jobs.append((l.key, run, budget))
    # contracts of callees are about serialize/parse: whatever assumes them discharges them too
    if prop in ('C05', 'C08', 'C06', 'C07', 'C10'):
        for l in lays:
            for run in {'C05': ('serialize',), 'C06': ('serialize',), 'C07': ('parse',), 'C08': ('serialize',),
                        'C10': ()}[prop]:
                if (l.key, run) not in seen:
                    seen.add((l.key, run))
                    jobs.append((l.key, run, budget))
    order = {'arbitrary': 0, 'truncated': 1, 'range': 2, 'rerange': 2}
    jobs.sort(key=lambda j: (order.get(j[1], 5), not j[0].startswith('Transmitter')))
    common.Deadline.at = time.time() + (400 if tier == 'quick' else 7200)
    res = common.verify_all(verify, jobs, lambda j: j[:2])
    by = {}
    for d in res:
        by.setdefault(d['class'], []).append(d)
    decided = set(PRIMARY[prop])
    if prop in DIRECT:
        again = sorted({d['class'] for d in res if d['status'] != 'proved' and d['run'] not in ('history', 'alias')})
        # a callee that fails its contract makes its callers' proofs conditional
        bad = {k.split('[')[0] for k in again}
        again = sorted(set(again) | {d['class'] for d in res if bad & set(d['contracts'])})
        common.Deadline.at = max(common.Deadline.at, time.time() + 100)
        direct = {d['class']: d for d in common.verify_all(verify, [(k, DIRECT[prop], budget) for k in again],
                                                           lambda j: j[:2])}
    else:
        direct = {}
        bad = {d['class'].split('[')[0] for d in res if d['status'] != 'proved' and d['run'] in ('serialize', 'parse')}
    pending = []
    for l in lays:
        ds = by.get(l.key, [])
        own = [d for d in ds if d['run'] in decided]
        dep = [c for d in own for c in d['contracts'] if c in bad]
        failing = [d for d in own if d['status'] != 'proved']
        if l.key in direct:
            d = direct[l.key]
            r.units.append(d)
            failing = [x for x in failing if x['run'] in ('history', 'alias')] if d['status'] == 'proved' else failing + [d]
            if failing:
                pending.append((l, failing, dep))
            continue
        r.units += ds
        if failing or dep:
            pending.append((l, failing, dep))
    cj = []
    for l, failing, dep in pending:
        cex = [c['view'] for d in failing for c in d['cex'] if c.get('view')]
        cj.append({'prop': prop, 'key': l.key, 'cex': cex, 'n': 300 if tier == 'quick' else 3000, 'seed': seed,
                   'stress': any(f['label'].endswith(': frame') for d in failing for f in d['failed']),
                   'seconds': common.share(12.0, 200.0, len(pending)) if tier == 'quick' else 120.0})
    out = common.concrete(cj)
    for (l, failing, dep), g in zip(pending, out):
        r.concrete += g['tried']
        if g.get('error'):
            r.note(f'{l.key}: concrete run failed: {g["error"]}')
        if g['fails']:
            f = g['fails'][0]
            r.violations.append({**f, 'failed_obligations': [
                {'run': d['run'], 'failed': d['failed'], 'reason': d['reason']} for d in failing]})
            continue
        why = '; '.join(f"{d['run']}: {d['reason'] or (d['failed'][0]['label'] if d['failed'] else d['status'])}"
                        for d in failing)[:300] or f'depends on unproved contract of {", ".join(sorted(set(dep)))}'
        r.bounded.append({'unit': l.key, 'why': why, 'inputs_tried': g['tried'],
                          'bound': 'random in-domain views, lists of up to 300 elements'})
        r.note(f'{l.key} decided by bounded search only ({g["tried"]} inputs): {why}')
    # cross-checks of the verifier against CPython, and of the contracts against the code
    n = 2 if tier == 'quick' else 60
    sample = [l for l in lays if l.key not in {p[0].key for p in pending}]
    if tier == 'quick':
        sample = sample[seed % 3::3]
    g = common.concrete([{'prop': prop, 'key': l.key, 'n': n, 'seed': seed, 'seconds': 4.0 if tier == 'quick' else 30.0}
                         for l in sample])
    for l, x in zip(sample, g):
        r.concrete += x['tried']
        for f in x['fails']:
            r.violations.append({**f, 'note': 'found by the concrete cross-check although every obligation was '
                                              'discharged: the verifier is unsound here'})
    common.Deadline.at = time.time() + (60 if tier == 'quick' else 1200)
    df = common.pool_map(diffjob, [(l.key, seed) for l in lays[seed % 4::4]] if tier == 'quick'
                         else [(l.key, seed + j) for l in lays for j in range(3)], chunk=4)
    r.extra['interpreter_differential_runs'] = sum(1 for d in df if d == '')
    for d in df:
        if d:
            r.note('interpreter differs from CPython: ' + d)
    r.known += common.known_lines(prop)
    return r
