#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from spec/*.json (one file per property)."""
import json, glob, os
os.chdir('/verif')
props, checks, defs, na = [], [], {}, []
for f in sorted(glob.glob('spec/C*.json')):
    s = json.load(open(f))
    p = s['property']
    props.append(p)
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, (p['id'], 'more than three sentences')
    if 'not_applicable' in s:
        na.append({'property': p['id'], 'reason': s['not_applicable']})
        continue
    defs[p['id']] = s['check']
    checks.append({'property': p['id'],
        'quick_cmd': 'bash check.sh %s quick' % p['id'],
        'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
        'technique': s.get('technique', 'symbolic execution of the Go SSA of the real code; z3 decides every branch over symbolic document bytes and the property assertion'),
        'level': 'model_checking',
        'level_note': s['level_note']})
design = open('doc/head.md').read()
open('properties.jsonl', 'w').write(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in props))
json.dump(defs, open('checks.json', 'w'), indent=1); open('checks.json', 'a').write('\n')
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')

known = json.load(open('known_findings.json'))
for k in known:
    design += '* %s\n' % k['what'] if k['status'] == 'fixed' else '* known finding, %s: %s\n' % (k['property'], k['what'])
design += '\n## Planted bugs\n\nEach is in `seeded/<id>`; "caught by" names the harness that reported it (quick tier) against the property\'s own check.\n\n| bug | property | caught by | what it took |\n|---|---|---|---|\n'
for l in open('doc/seeded.tsv'):
    if l.strip():
        design += '| %s |\n' % ' | '.join((l.rstrip('\n').split('\t') + ['', ''])[:4])
design += '\n## Properties\n\n'
for f in sorted(glob.glob('spec/C*.json')):
    s = json.load(open(f))
    p = s['property']
    design += '### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if 'not_applicable' in s:
        design += 'Not applicable: %s\n\n' % s['not_applicable']
        continue
    design += '*Quantifier*: %s. *Why tests cannot settle it*: %s\n\n*Decided by*: %s\n\n' % (p['quantifier']['text'].rstrip('.'), p['why_tests_cant'], s['level_note'])
    if 'design' in s:
        design += s['design'] + '\n\n'
    design += '| harness | bound | quick s | thorough s |\n|---|---|---|---|\n'
    for h in s['check']['harnesses']:
        design += '| %s | %s | %s | %s |\n' % (h['name'], h['bound'], h['quick'] or '-', h['thorough'])
    design += '\n*Overall bounds*: %s. *Outside*: %s.\n\n' % (s['check']['bounds'], s['check']['outside'])
open('DESIGN.md', 'w').write(design)
