"""Writes MANIFEST.json from the list of properties and the checks that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
CODEC = ('Every obligation is generated from the source in /repo on each run and discharged for all field values, '
         'all list lengths and all stream contents; callers are checked against the contracts of the records they '
         'contain. Trusted: the verifier (pyvc), its models of struct, bytes, int, list, ctypes bit fields and '
         'BytesIO, the layouts in contracts/layouts.py, z3/cvc5.')
NOTES = json.load(open(f'{H}/tools/levels.json')) if os.path.exists(f'{H}/tools/levels.json') else {}
import sys
done = sys.argv[1:]
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i, {})
    if i in done:
        checks.append({'property': i, 'quick_cmd': f'python3-vt check.py {i} quick',
                       'thorough_cmd': f'python3-vt check.py {i} thorough', 'evidence_file': f'evidence/{i}.json',
                       'technique': n.get('technique', 'contract-based deductive verification (pyvc VC generation from the source, z3/cvc5)'),
                       'level': n.get('level', 'proof'), 'level_note': n.get('note', CODEC)})
    else:
        na.append({'property': i, 'reason': n.get('reason', 'the check for this property is not built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, numpy" && /opt/venv/bin/python -c "import opendis"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts are kept in /verif/contracts and bound to the classes and functions of the source loaded from /repo on every run.'}
json.dump(m, open(f'{H}/MANIFEST.json', 'w'), indent=1)
