#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the last section of DESIGN.md from checks.py."""
import json, os
from checks import CHECKS, LEVEL
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for k in sorted(CHECKS):
        f.write(json.dumps(CHECKS[k]['P']) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': [{'property': k, 'quick_cmd': 'python3 check.py %s quick' % k,
                 'thorough_cmd': 'python3 check.py %s thorough' % k,
                 'evidence_file': 'evidence/%s.json' % k,
                 'technique': CHECKS[k].get('technique', 'property-based testing: ' + ', '.join(p['prop'] for p in CHECKS[k]['parts'])),
                 'level': LEVEL, 'level_note': CHECKS[k]['note']} for k in sorted(CHECKS)],
     'not_applicable': [],
     'notes': 'No hooks: the checks use only the public interface. Fixes of genuine defects are listed in known_findings.json.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)

d = os.path.join(here, 'DESIGN.md')
head = open(d).read().split('## Per property')[0]
out = head + '## Per property\n\nCases: quick / thorough. The text of each property is in properties.jsonl.\n'
for k in sorted(CHECKS):
    c = CHECKS[k]
    out += '\n### %s %s\n\n' % (k, c['P']['title'])
    out += '* Generated: %s\n' % c['rule']
    out += '* Oracle and limits: %s\n' % c['note']
    if c['assumptions']: out += '* Assumes: %s.\n' % '; '.join(c['assumptions'])
    out += '* Beyond the tests: %s\n' % c['P']['why_tests_cant']
    out += '* Parts: %s\n' % ', '.join('%s/%s%s %d / %d' % (p['harness'], p['prop'], ' (sanitized)' if p['mode'] == 'asan' else '', p['n'][0], p['n'][1]) for p in c['parts'])
open(d, 'w').write(out)
