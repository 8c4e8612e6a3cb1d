#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, results are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a), level_note))
NA = []
LOOPFREE = 'Every obligation generated from the compiled headers/sources is discharged by z3 for all inputs admitted by the preconditions; no bound. Trusts clang\'s IR, the engine\'s IR semantics and z3.'
exec(open(HERE + '/tools/table.py').read())
with open(HERE + '/properties.jsonl', 'w') as f:
    for p, _ in P: f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'bash bin/setup',
     'checks': [{'property': p['id'], 'quick_cmd': 'bin/check ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': 'contracts discharged function by function by a deductive engine over the LLVM IR of the real sources (z3)', 'level': 'proof', 'level_note': n}
                for p, n in P if p['id'] not in {x['property'] for x in NA}],
     'not_applicable': NA,
     'notes': 'See DESIGN.md. Contracts: contracts/pNN_*.cpp. No hooks in /repo: contracts are separate translation units compiled together with /repo/inc and /repo/src.'}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
for p, _ in P: assert len(p['title']) <= 80, p['id']
print(len(P), 'properties,', len(m['checks']), 'checks')
