#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule packs present."""
import json, os, ast
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = 'property simulation (path-sensitive dataflow and typestate) over LLVM IR'
tech = {'P29': 'type-level witnesses: static assertions and compile-fail units', 'P31': 'compilation and lint of every configuration',
        }
NA = {
    'P40': 'Linearizability quantifies over whole concurrent histories; a per-function static argument reaches the guarded atomic actions (P01, P09, P11, P13) but not their composition into histories.',
    'P41': 'Liveness over infinite schedules depends on run-time fairness and on when external threads and timers act; no static argument over the source bounds it. The safety half (no fiber is dropped) is P20 and P24.',
    'P42': 'A bound on delay depends on machine load and on how long other fibers run between switches; nothing in the source bounds it. The deadline bookkeeping itself is P21.',
}
note = ('Sound per analysed function for all paths, inputs and interferences permitted by the locks, given the summaries listed in the '
        'evidence file; loops to a fixpoint. Trusts clang, the analyser in engine/, and Boost.Context/Intrusive/std as documented.')
checks, na = [], []
for p in props:
    f = os.path.join(here, 'rules', p['id'].lower() + '.py')
    if p['id'] in NA:
        na.append(dict(property=p['id'], reason=NA[p['id']]))
        continue
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='No check built (yet).'))
        continue
    m = ast.parse(open(f).read())
    d = {t.id: ast.literal_eval(n.value) for n in m.body if isinstance(n, ast.Assign) for t in n.targets
         if isinstance(t, ast.Name) and t.id in ('NOTE', 'TECH')}
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       technique=d.get('TECH', tech.get(p['id'], TECH)), level='other', level_note=d.get('NOTE', note)))
json.dump(dict(version=1, setup_cmd='python3 engine/build.py', checks=checks, not_applicable=na,
               notes='No hooks: the checks analyse /repo as it is. See DESIGN.md.'), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
