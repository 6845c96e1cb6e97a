"""Constructor contracts (ctors.json): per class the attribute each parameter
sets and the default of each attribute.  No solver, no package code."""
import json
import os
from . import layouts as LY

CT = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ctors.json')))
REQUIRED = {'PduSuperclass': ('pduType', 'protocolFamily')}
# abstract: used through a subclass that adds only its type
BASES = ('Pdu', 'LiveEntityPdu', 'WarfareFamilyPdu', 'SimulationManagementFamilyPdu',
         'SimulationManagementWithReliabilityFamilyPdu')


def tokens(name):
    toks = {}
    for l in LY.L.get(name, []):
        for t in l.toks:
            if t.kind == 'bits':
                for n, b, isb in t.fields:
                    toks.setdefault(n, ('bits', b, isb))
            elif t.attr and (t.attr not in toks or toks[t.attr].kind == 'none'):
                toks[t.attr] = t
    return toks


def kind_of(name, attr, default):
    t = tokens(name).get(attr)
    if isinstance(t, tuple):
        return t
    if t is not None:
        if t.kind == 'scalar' or t.kind == 'const':
            return ('scalar', t.w)
        if t.kind == 'nested':
            return ('nested', t.cls)
        if t.kind in ('list', 'fixed', 'bytes'):
            return (t.kind, t)
    if isinstance(default, bool) or default is None or isinstance(default, dict):
        if isinstance(default, dict) and default.get('class') in LY.L:
            return ('nested', default['class'])
        if isinstance(default, bool):
            return ('bits', 1, True)
        return ('thing',)
    if isinstance(default, int):
        return ('scalar', 'u16')
    if isinstance(default, float):
        return ('scalar', 'f32')
    if isinstance(default, list):
        return ('things',)
    return ('thing',)
