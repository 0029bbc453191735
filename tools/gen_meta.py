#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/meta.py and tools/design_*.md."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from meta import P
from props import PROPS, CONFIGS
DEF = 'property-based testing: generated inputs and programs against an independent reference, with shrinking'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for i, p in sorted(P.items()):
        assert len(p['title']) <= 80, (i, len(p['title']))
        f.write(json.dumps({
            'id': i, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
checks = []
for i, p in sorted(P.items()):
    assert i in PROPS, i
    checks.append({
        'property': i,
        'quick_cmd': 'python3 run_check.py %s' % i,
        'thorough_cmd': 'python3 run_check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': p['technique'] or DEF,
        'level': p['level'],
        'level_note': p['note'] + ' Nothing is proved: the property held on every generated case. Trusted: the engine, the reference model in harness/%s.cpp, the compiler%s.' % (i, ', OpenSSL' if 'OpenSSL' in p['oracle'] else ''),
    })
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: the checks use only its public interface (plus a private-member view in a few harnesses that falls back to black-box when it does not compile).'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
body = open(os.path.join(V, 'tools/design_head.md')).read()
body += '\n## Properties\n'
subs = {}
for i, p in sorted(P.items()):
    srcs = [os.path.join(V, 'harness', PROPS[i].get('src', i + '.cpp'))]
    if i in ('C06', 'C07'): srcs.append(os.path.join(V, 'harness/garble_body.hpp'))
    rules = []
    for s in srcs:
        for m in re.finditer(r'^SUBCHECK\((\w+),\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"', open(s).read(), re.M):
            rules.append(m.groups())
    body += '\n### %s — %s\n\n%s\n\n' % (i, p['title'], p['statement'])
    body += '- **Oracle.** %s\n' % p['oracle']
    body += '- **Why the tests cannot reach it.** %s\n' % p['why']
    body += '- **Strength and bounds.** %s\n' % p['note']
    body += '- **Builds (case-count multiplier).** %s\n' % ', '.join('%s x%g' % c for c in PROPS[i]['configs'])
    body += '- **Generated cases** (quick / thorough counts before the multiplier):\n'
    for n, q, t, r in rules:
        body += '  - `%s` (%s / %s): %s\n' % (n, q, t, r)
body += '\n' + open(os.path.join(V, 'tools/design_tail.md')).read()
rf = os.path.join(V, 'tools/seeded_results.json')
if os.path.exists(rf):
    body += '\n| change | property | caught by | needs |\n|---|---|---|---|\n'
    for k, r in sorted(json.load(open(rf)).items(), key=lambda x: (x[1]['property'], x[0])):
        body += '| `%s`: %s | %s | %s | %s |\n' % (k, r['breaks'], r['property'], '`%s`' % r['by'] if r['caught'] else '**missed**', r['needs'])
open(os.path.join(V, 'DESIGN.md'), 'w').write(body)
