#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py (run by hand when a check is added)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/bin'); sys.dont_write_bytecode = True
import specs
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i in specs.PROPS:
        p = specs.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s --tier quick' % i, thorough_cmd='python3 bin/check.py %s --tier thorough' % i,
            technique=p.get('technique', 'symbolic execution of the compiled sources over symbolic big integers, z3 decides every branch and obligation, counterexamples replayed on the real libraries'),
            level=p.get('level', 'other'), level_note=p.get('note', 'Holds for all inputs within: ' + p['bounds'] + ' Trusted: exact models of NTL/GMP arithmetic, cddlib, 4ti2 and lrs; z3.')))
m = dict(version=1, setup_cmd='python3 bin/check.py --selftest', checks=checks,
    not_applicable=[dict(property=i, reason=specs.NOT_APPLICABLE.get(i, 'no check yet')) for i in ids if i not in specs.PROPS],
    hooks=dict(guard='SX_SYMBOLIC', enable='The checks compile /repo sources with -DSX_SYMBOLIC and shim headers; no source line of /repo depends on it.', source_commits=[]))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
try:
    import jsonschema; jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
print(len(checks), 'checks', len(m['not_applicable']), 'n/a')
