"""Make and try planted bugs.

  seed.py make SPEC.py      write seeded/<id>/ for every BUGS entry of SPEC.py
  seed.py try ID [PROP...]  apply in /repo, build, test, demo, run checks, undo
"""
import json, os, re, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '4bb5abf'


def sh(c, cwd='/repo', **kw):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns['BUGS']:
        d = f"{H}/seeded/{b['id']}"
        edits = b['edits']
        w = tempfile.mkdtemp()
        sh(f'git worktree add -q --detach {w}/r HEAD')
        try:
            for f, old, new in edits:
                p = f'{w}/r/{f}'
                s = open(p, newline='').read()
                if '\r\n' in s:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if b.get('after'):
                    i = s.index(b['after'])
                else:
                    i = 0
                if isinstance(old, tuple):
                    i = s.index(old[0])
                    old = old[1]
                    n = 1
                else:
                    n = s[i:].count(old)
                assert n == 1 or (n > 1 and b.get('after')), (b['id'], f, n, old)
                k = s.index(old, i)
                open(p, 'w', newline='').write(s[:k] + new + s[k + len(old):])
            diff = subprocess.run('git diff', shell=True, cwd=f'{w}/r', capture_output=True).stdout
            bl = sh(f'git diff -U0 HEAD | cat', cwd=f'{w}/r').stdout
            removed = [l for l in bl.splitlines() if l.startswith('-') and not l.startswith('---')]
            # every removed line must come from the base commit
            cur = None
            ok = True
            for l in bl.splitlines():
                if l.startswith('--- a/'):
                    cur = l[6:]
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    a, c = int(m[1]), int(m[2] or 1)
                    if c:
                        o = sh(f'git blame -s -l -L {a},+{c} HEAD -- {cur}', cwd=f'{w}/r').stdout
                        for x in o.splitlines():
                            if not x.lstrip('^').startswith(sh(f'git rev-parse {BASE}').stdout.strip()[:30]):
                                ok = False
            if not ok or not removed:
                print(b['id'], 'WARNING: touches lines of my own commits, or removes nothing')
            os.makedirs(d, exist_ok=True)
            open(f'{d}/patch.diff', 'wb').write(diff)
            open(f'{d}/demo.py', 'w').write(b['demo'].lstrip('\n'))
            open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(f'{d}/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(f'{d}/meta.json', 'w'), indent=1)
        finally:
            sh(f'git worktree remove --force {w}/r')
            shutil.rmtree(w, ignore_errors=True)
        print('made', b['id'])


def attempt(i, props=None):
    d = f'{H}/seeded/{i}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    props = props or [prop]
    out = []
    a = sh(f'bash {d}/demo.sh')
    if a.returncode:
        print(i, 'DEMO FAILS ON CLEAN', a.stdout[-500:], a.stderr[-500:])
        return
    g = sh(f'git apply {d}/patch.diff')
    if g.returncode:
        print(i, 'DOES NOT APPLY', g.stderr)
        return
    try:
        bld = sh('bash /opt/vp/build.sh')
        tst = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        o = json.load(open('/tmp/seed_out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        dem = sh(f'bash {d}/demo.sh')
        print(i, 'build', bld.returncode, 'test', tst.returncode, json.dumps(o)[:0], 'demo', dem.returncode)
        st = base.get('stable') or base.get('stable_pass') or base.get('tests') or base
        passed = set(o.get('passed', []))
        miss = [t for t in (st if isinstance(st, list) else []) if t not in passed]
        if miss:
            print('   tests broken:', miss)
        for p in props:
            c = sh(f'VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py {p} quick', cwd=H)
            print('  ', p, 'exit', c.returncode)
            print('   ', '\n    '.join(c.stdout.splitlines()[:6])[:900])
            if c.returncode not in (0, 1):
                print(c.stderr[-600:])
    finally:
        sh('git checkout -- .')


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    elif sys.argv[2] == 'all':
        for i in sorted(os.listdir(f'{H}/seeded')):
            attempt(i)
    else:
        attempt(sys.argv[2], sys.argv[3:])
