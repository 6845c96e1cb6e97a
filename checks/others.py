"""C04, C09, C11-C14: function contracts of the factory, the constructors, the
stream primitives, the bit fields, record dispatch and entity markings."""
import time
from contracts import layouts as LY
from . import common
from .common import Result

ASSUME = {
    'C04': ['the layouts are the oracle for field values; FastEntityStatePdu has no type of its own and is not a '
            'registered packet type', 'a file is its octets: open(path, "rb") gives them in order'],
    'C09': ['the documented defaults are those of contracts/ctors.json, taken from the constructor signatures',
            'base classes that cannot be instantiated are checked through a subclass adding only its type'],
    'C11': ['the stream is an io.BytesIO-like object; NaN payload bits are not distinguished'],
    'C12': ['definitions of 8, 16 or 32 bits; every 8-bit definition and those of few fields are taken, the others are '
            'sampled: for each definition taken all values are covered'],
    'C13': ['radio and antenna parameters: codec contracts of TransmitterPdu and its variants',
            'sequences of records: the orders listed in f_records.SEQS, each for all contents'],
    'C14': ['texts are ASCII without NUL; lengths 0-24, 31 and 64, each for all contents'],
}
CODEC = {
    'C04': (None, ['parse'], []),
    'C12': (['NetId', 'SpreadSpectrum', 'DEFireFlags'], ['serialize', 'parse', 'range', 'roundtrip', 'reencode'],
            ['C01', 'C02', 'C03', 'C06']),
    'C13': (None, ['serialize', 'parse', 'reencode'], ['C01', 'C02', 'C03']),
    'C14': (['EntityMarking'], ['serialize', 'parse', 'roundtrip'], ['C01', 'C02']),
}
C13_CLASSES = ['TransmitterPdu', 'StandardVariableSpecification', 'EntityDamageStatusPdu', 'DirectedEnergyFirePdu']


def unit(job):
    prop, kind, args, budget = job
    from pyvc import funcs
    if kind == 'codec':
        from pyvc import codec
        return codec.verify((args[0], args[1], budget))
    if prop == 'C04':
        return funcs.dispatch((kind, args, budget))
    import importlib
    m = importlib.import_module({'C09': 'pyvc.f_ctor', 'C11': 'pyvc.f_stream', 'C12': 'pyvc.f_bits',
                                 'C13': 'pyvc.f_records', 'C14': 'pyvc.f_marking'}[prop])
    return funcs.guarded(f'{kind} {args}'[:80], kind, m.run, kind, args, budget)


def reachable(names):
    """the records of the layouts of names, and of theirs"""
    out, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n in out or n not in LY.L:
            continue
        out.add(n)
        for l in LY.L[n]:
            for t in l.toks:
                if t.kind == 'nested':
                    todo.append(t.cls)
                elif t.kind == 'list' and not t.scalar:
                    todo += list(t.elem)
    return out


def codec_units(prop):
    """codec contracts this property is about, and those its proofs use"""
    own, runs, _ = CODEC[prop]
    if prop == 'C04':
        dep = reachable(LY.PDU_TYPE) - set(LY.PDU_TYPE)
        own = []
    else:
        own = own or C13_CLASSES + [l.name for l in LY.all_layouts() if l.sv]
        dep = reachable(own) - set(own)
    out = []
    for l in LY.all_layouts():
        if l.oneway:
            continue
        if l.name in own:
            out += [('codec', (l.key, r)) for r in runs]
        elif l.name in dep:
            out += [('codec', (l.key, r)) for r in ('serialize', 'parse')[prop == 'C04':]]
    return out


def units(prop, tier, seed):
    out = []
    if prop == 'C04':
        pdus = [l for l in LY.all_layouts() if l.name in LY.PDU_TYPE and l.name != 'FastEntityStatePdu' and not l.oneway]
        for l in pdus:
            out += [('factory', (l.key,)), ('factory-file', (l.key,))]
        out += [('factory-none', (v,)) for v in ('createPdu', 'createPduFromFilePath')]
        out += [('factory-default', (n,)) for n in sorted(LY.PDU_TYPE)]
    elif prop == 'C12':
        from pyvc import f_bits
        for o, s, names, bits in f_bits.package_structs():
            out += [('own', (o, bits, w)) for w in f_bits.RUNS]
        S = f_bits.sample(tier, seed)
        n = 12
        out += [('batch', (S[j:j + n],)) for j in range(0, len(S), n)]
    else:
        import importlib
        m = importlib.import_module({'C09': 'pyvc.f_ctor', 'C11': 'pyvc.f_stream', 'C13': 'pyvc.f_records',
                                     'C14': 'pyvc.f_marking'}[prop])
        out += [(j[0], tuple(j[1:])) for j in m.jobs()]
    if prop in CODEC:
        out += codec_units(prop)
    return out


def label(kind, args):
    return f'{kind} {" ".join(map(str, args))}'[:80]


def search_job(prop, kind, args, **k):
    j = {'prop': prop, 'kind': kind, 'args': [list(a) if isinstance(a, tuple) else a for a in args], **k}
    if kind == 'codec':
        j['oracles'] = CODEC[prop][2]
    return j


def check(prop, tier, seed):
    r = Result(prop)
    r.assumptions += ASSUME[prop]
    quick = tier == 'quick'
    budget = 60.0 if quick else 400.0
    us = units(prop, tier, seed)
    common.Deadline.at = time.time() + (400 if quick else 7200)
    res = common.verify_all(unit, [(prop, k, a, budget) for k, a in us], lambda j: (label(j[1], j[2]), j[1]))
    r.units = res
    bad = [(u, d) for u, d in zip(us, res) if d['status'] != 'proved']
    badc = {d['class'].split('[')[0] for (k, a), d in bad if k == 'codec'}
    # a proof through the contract of a callee counts only if that contract holds
    for u, d in zip(us, res):
        if d['status'] == 'proved' and badc & set(d['contracts']):
            bad.append((u, d))
    seen = {}
    cj, cu = [], []
    for (kind, args), d in bad:
        sid = (kind, args[:1] if kind == 'codec' else args)
        cex = [c.get('view') if kind == 'codec' else c['inputs'] for c in d['cex']]
        cex = [c for c in cex if c]
        if kind == 'batch':     # the failing definition is among the inputs
            cex = [c for c in cex if 'unit' in c]
        if str(sid) in seen:
            cj[seen[str(sid)]]['cex'] += cex
            cu[seen[str(sid)]][1].append(d)
            continue
        seen[str(sid)] = len(cj)
        cj.append(search_job(prop, kind, sid[1], cex=cex, n=400 if quick else 4000, seed=seed))
        cu.append(((kind, args), [d]))
    for j, (_, ds) in zip(cj, cu):
        j['stress'] = any(f['label'].endswith(': frame') for d in ds for f in d['failed'])
        j['seconds'] = common.share(12.0, 200.0, len(cj)) if quick else 120.0
    for ((kind, args), ds), g in zip(cu, common.concrete(cj, 'contracts/concrete_fn.py')):
        r.concrete += g['tried']
        lab = label(kind, args)
        if g.get('error'):
            r.note(f'{lab}: concrete run failed: {g["error"]}')
        if g['fails']:
            r.violations.append({**g['fails'][0], 'failed_obligations': [
                {'run': d['run'], 'failed': d['failed'], 'reason': d['reason']} for d in ds]})
            continue
        why = '; '.join(f"{d['run']}: {d['reason'] or (d['failed'][0]['label'] if d['failed'] else 'depends on an unproved contract')}"
                        for d in ds)[:300]
        r.bounded.append({'unit': lab, 'why': why, 'inputs_tried': g['tried'], 'bound': 'random inputs of the contract'})
        r.note(f'{lab} decided by bounded search only ({g["tried"]} inputs): {why}')
    # the contracts on the running code, a small sample: guards the verifier itself
    pend = {str((k, a[:1] if k == 'codec' else a)) for (k, a), _ in cu}
    sample, ss = [], set()
    for k, a in us:
        sid = (k, a[:1] if k == 'codec' else a)
        if str(sid) not in pend and str(sid) not in ss:
            ss.add(str(sid))
            sample.append(search_job(prop, k, sid[1], cex=[], n=4 if quick else 100, seed=seed,
                                     seconds=3.0 if quick else 30.0))
    for j, g in zip(sample, common.concrete(sample, 'contracts/concrete_fn.py')):
        r.concrete += g['tried']
        if g.get('error'):
            r.note(f'{j["kind"]}: concrete run failed: {g["error"]}')
        for f in g['fails']:
            r.violations.append({**f, 'note': 'found by the concrete cross-check although every obligation was '
                                              'discharged: the verifier is unsound here'})
    own = {d['class'].split('[')[0] for (k, _), d in zip(us, res) if k == 'codec'}
    used = {c for d in res for c in d['contracts']} - own
    if used:
        r.note('callee contracts assumed here and discharged by the checks of C01-C03: ' + ', '.join(sorted(used)))
    r.extra['contract_units_by_kind'] = count(k for k, _ in us)
    r.known += common.known_lines(prop)
    return r


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d
