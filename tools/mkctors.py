"""Drafts contracts/ctors.json (constructor contracts) from the tree it is run
on; the result was reviewed by hand and is committed: checks read the file, not
this script's idea of it."""
import sys, os, json, inspect
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.environ.get('VERIF_REPO', '/repo')]
sys.dont_write_bytecode = True
from contracts import layouts as LY
out = {}
for name, lays in LY.L.items():
    c = LY.find_class(name)
    if c is None or c.__init__ is object.__init__ or name in ('GenericRadio', 'SimpleIntercomRadio'):
        continue
    toks = {}
    for l in lays:
        for t in l.toks:
            if t.kind == 'bits':
                for n, b, isb in t.fields:
                    toks.setdefault(n, ('bool' if isb else 'bits', b))
            elif t.attr and (t.attr not in toks or toks[t.attr][0] == 'none'):
                toks[t.attr] = (t.kind, getattr(t, 'w', None) or getattr(t, 'cls', None) or None, t)
    ps = list(inspect.signature(c.__init__).parameters.values())[1:]
    base = c()
    params = []
    for p in ps:
        s = object() if False else type('S', (), {'__and__': lambda self, o: self})()
        try:
            o = c(**{p.name: s})
            hit = [a for a, v in vars(o).items() if v is s]
        except Exception as ex:
            hit = [f'?{type(ex).__name__}']
        attr = hit[0] if len(hit) == 1 and not hit[0].startswith('?') else p.name
        params.append([p.name, attr])
        if attr != p.name or len(hit) != 1:
            print(name, p.name, '->', hit)
    defaults = {}
    names = {a for _, a in params} | {a.split('.')[0] for l in lays for a in l.attrs()}
    for a in sorted(n for n in names if not n.startswith('_')):
        v = getattr(base, a)
        if isinstance(v, (int, float, str, type(None))):
            defaults[a] = v
        elif isinstance(v, bytes):
            defaults[a] = {'bytes': v.hex()}
        elif isinstance(v, list):
            assert all(isinstance(x, (int, float)) for x in v), (name, a)
            defaults[a] = v
        else:
            defaults[a] = {'class': type(v).__name__}
    out[name] = {'params': params, 'defaults': defaults}
with open(f'{H}/contracts/ctors.json', 'w') as f:
    f.write('{' + ',\n'.join(f'{json.dumps(k)}: {json.dumps(v)}' for k, v in out.items()) + '}\n')
print(len(out), sum(len(x['params']) for x in out.values()))
