"""Shared by the checks: process pools, concrete replay, evidence, verdicts."""
import concurrent.futures
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
MOD = {'C': 'checks.codec', 'D': 'checks.numeric', 'G': 'checks.numeric'}
OTHER = {'C04', 'C09', 'C11', 'C12', 'C13', 'C14'}

TRUSTED = [
    'pyvc (this directory): the AST interpreter that generates obligations from the source of /repo loaded in this run',
    'pyvc/models.py: the meaning given to struct, bytes, int, list, range, ctypes bit fields and io.BytesIO '
    '(cross-checked against CPython on concrete inputs in every run)',
    'contracts/layouts.py: the wire layouts, written from IEEE 1278.1 as documented in the package',
    'z3 5.3.2, with cvc5 1.1.2 asked when z3 answers unknown',
    'CPython 3.12 executes the source it is given',
]


def module_of(prop):
    return 'checks.others' if prop in OTHER else MOD[prop[0]]


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.units = []            # verifier results
        self.violations = []       # {key, what, view/..., label, no_input}
        self.bounded = []          # {unit, why, tried}
        self.known = []
        self.notes = []
        self.assumptions = []
        self.concrete = 0
        self.extra = {}
        self.checker = 'python3-vt check.py ' + prop
        self.trusted = list(TRUSTED)

    def note(self, s):
        self.notes.append(s)


class Deadline:
    """the time this check may spend on verification"""
    at = None


def _init():
    import resource
    lim = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def pool_map(fn, jobs, procs=None, chunk=1):
    """[fn(job)]; None for a job that did not finish in time or whose process died"""
    out = [None] * len(jobs)
    if not jobs:
        return out
    todo = list(range(len(jobs)))
    for attempt in (0, 1):
        with concurrent.futures.ProcessPoolExecutor(procs or os.cpu_count() or 4, initializer=_init) as p:
            fs = {p.submit(fn, jobs[i]): i for i in todo}
            left = None if Deadline.at is None else max(5.0, Deadline.at - time.time())
            try:
                for f in concurrent.futures.as_completed(fs, left):
                    try:
                        out[fs[f]] = f.result()
                    except Exception:       # noqa: BLE001 - a process died, or could not report
                        pass
            except concurrent.futures.TimeoutError:
                for f in fs:
                    f.cancel()
                for q in list(p._processes.values()):
                    q.terminate()
                break
        todo = [i for i in todo if out[i] is None]
        if not todo:
            break
    return out


def verify_all(fn, jobs, name):
    """pool_map of verifier units; a unit with no answer is undecided.
    name(job) -> (class, run)"""
    from pyvc.codec import empty
    return [d if d is not None else {**empty(*name(j), 'no answer in the time or memory allowed'), 'wall': 0}
            for j, d in zip(jobs, pool_map(fn, jobs))]


def concrete(jobs, script='contracts/concrete.py', timeout=600, procs=None):
    """run bounded-search jobs on the real package, spread over processes"""
    if not jobs:
        return []
    n = min(procs or os.cpu_count() or 4, len(jobs))
    parts = [jobs[i::n] for i in range(n)]
    env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'VERIF_REPO': REPO}
    ps = []
    for part in parts:
        p = subprocess.Popen([PY, os.path.join(HERE, script)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, env=env, cwd=HERE)
        ps.append((p, part))
    import threading
    outs = [None] * len(ps)

    def comm(i, p, part):
        try:
            outs[i] = p.communicate(json.dumps(part), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            outs[i] = ('', 'timeout')
    ts = [threading.Thread(target=comm, args=(i, p, part)) for i, (p, part) in enumerate(ps)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    res = [None] * len(jobs)
    for i, (p, part) in enumerate(ps):
        try:
            got = json.loads(outs[i][0])
        except (ValueError, TypeError):
            got = [{'fails': [], 'tried': 0, 'error': (outs[i][1] or 'no output')[-400:]} for _ in part]
        for j, g in enumerate(got):
            res[i + j * n] = g
    return res


def share(each, total, n):
    """seconds per job so that n jobs on all processors take at most total"""
    return max(0.5, min(each, total * (os.cpu_count() or 4) / max(1, n)))


def findings():
    try:
        return json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    except OSError:
        return []


def known_lines(prop):
    out = []
    for f in findings():
        if f['property'] != prop:
            continue
        p = subprocess.run([PY, os.path.join(HERE, 'contracts/concrete.py'), '--known', f['id']],
                           capture_output=True, text=True, cwd=HERE, timeout=120,
                           env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'VERIF_REPO': REPO})
        if p.stdout.strip():
            out.append(f"{f['id']}: {p.stdout.strip()}")
    return out


def replay_file(prop, key, data, n=0):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{''.join(c if c.isalnum() else '_' for c in key)[:60]}-{n}.json")
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return os.path.relpath(p, HERE)


def finish(r, tier, seed, t0, error=False):
    prop = r.prop
    obl = sum(u['n'] for u in r.units)
    dis = sum(u['discharged'] for u in r.units)
    proved = [u for u in r.units if u['status'] == 'proved']
    back = {}
    for u in r.units:
        for k, v in u.get('backends', {}).items():
            back[k] = back.get(k, 0) + v
    funcs = sorted({f for u in r.units for f in u.get('functions', [])})
    lines = []
    for k in r.known:
        lines.append(f'KNOWN-FINDING: property={prop} {k}')
    for n, v in enumerate(r.violations[:20]):
        p = replay_file(prop, v['key'], {'property': prop, **v}, n)
        lines.append(f"VIOLATION property={prop} replay={p}" + (' no-failing-input-found' if v.get('no_input') else ''))
        lines.append(f"  {v['key']}: {v.get('what', '')}"[:600])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': r.extra.pop('level', 'proof'),
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': r.checker, 'trusted_base': r.trusted,
            'units': len(r.units), 'units_proved': len(proved),
            'units_bounded': r.bounded,
            'units_by_run': _by(r.units, 'run'),
            'backends': back,
            'solver_s': round(sum(u.get('solver_s', 0) for u in r.units), 2),
            'paths': sum(u.get('paths', 0) for u in r.units),
            'functions_under_contract': len(funcs), 'functions': funcs,
            'callee_contracts_used': sorted({c for u in r.units for c in u.get('contracts', [])}),
            'concrete_cross_checks': r.concrete,
            'failed_obligations': [{'unit': u['class'], 'run': u['run'], 'failed': u['failed'], 'reason': u['reason']}
                                   for u in r.units if u['status'] != 'proved'][:40],
            'notes': r.notes, **r.extra,
        },
        'assumptions': r.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(r.violations),
    }
    if not error and obl == 0 and r.units:
        lines.append('no obligations were generated')
        error = True
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop} ({tier}): {len(r.units)} units, {obl} obligations, {dis} discharged, {len(r.bounded)} bounded, '
          f'{r.concrete} concrete cross-checks, {len(r.violations)} violations, {ev["wall_s"]} s')
    for l in lines:
        print(l)
    for n in r.notes[:10]:
        print('note:', n[:300])
    if r.violations:
        return 1
    return 3 if error else 0


def _by(units, k):
    d = {}
    for u in units:
        x = d.setdefault(u[k], {'proved': 0, 'other': 0})
        x['proved' if u['status'] == 'proved' else 'other'] += 1
    return d
