#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in props.PROPS: continue
    P = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i, technique=P.get('technique', 'symbolic execution of the compiled LLVM IR, decided by BDDs and z3 (bit-vectors), counterexamples replayed natively'),
        level='model_checking', level_note='Bounded: %s. Outside: %s. %s' % (P['bounds']['quick'], P['outside'], P.get('note', 'Trusted: clang front end, the symbolic executor, z3, the Unicode reference data.'))))
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'check not built yet')) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd='make -C engine -j8', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
