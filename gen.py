#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (the property table) and specs.py (the harness table)."""
import json, os, specs, props
here = os.path.dirname(os.path.abspath(__file__))
checks = []; na = []
with open(here + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        if p['id'] in specs.UNITS:
            n = len([u for u in specs.UNITS[p['id']] if not u.get('thorough_only')])
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                           'technique': 'symbolic execution of the LLVM bitcode of the real sources, bit-vector SAT/SMT verdict per branch and assertion, counterexamples replayed natively', 'level': 'model_checking',
                           'level_note': p['note'] + ' Bounded: holds for every value within the bounds listed per harness in the evidence file; trusts clang\'s front end, the executor, its models of oneTBB/logging/randomness and MiniSat (with Z3 cross-checks).'})
        else: na.append({'property': p['id'], 'reason': p['na']})
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed. See DESIGN.md.'}, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
# DESIGN.md: fixed text around the property and seeded-bug tables
d = open(here + '/design/head.md').read(); seeds = {}
if os.path.isdir(here + '/seeded'):
    for s in sorted(os.listdir(here + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (here, s))); seeds.setdefault(m['property'], []).append((s, m))
try: caught = json.load(open(here + '/design/caught.json'))
except OSError: caught = {}
for p in props.PROPS:
    d += '### %s %s\n%s\n\n' % (p['id'], p['title'], p['statement'])
    us = specs.UNITS.get(p['id'])
    if not us: d += 'Not applicable: %s\n\n' % p['na']; continue
    d += 'Oracle: assertions of `harness/%s` (reference computed by the harness on its own copy of the input). %s\n\n' % ('`, `harness/'.join(sorted({u['src'] for u in us})), p['note'])
    for u in us:
        b = u.get('bounds', ''); b = b.get('quick', '') + '; thorough: ' + b.get('thorough', '') if isinstance(b, dict) else b
        d += '* `%s`%s: %s\n' % (u['name'], ' (thorough only)' if u.get('thorough_only') else '', b)
    for s, m in seeds.get(p['id'], []): d += '* seeded change `%s` (%s): %s\n' % (s, m['what_it_breaks'], caught.get(s, 'not yet run'))
    d += '\n'
d += open(here + '/design/tail.md').read()
open(here + '/DESIGN.md', 'w').write(d)
