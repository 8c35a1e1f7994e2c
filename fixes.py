#!/usr/bin/env python3
"""Adds to known_findings.json the "fixed" entries of the fix: commits of /repo. Usage: fixes.py (reads fixes.map: <commit subject prefix> TAB <property>)."""
import json, subprocess
m = [l.rstrip('\n').split('\t') for l in open('/verif/fixes.map') if l.strip()]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'ce38b06..HEAD'], capture_output=True, text=True).stdout
old = [k for k in json.load(open('/verif/known_findings.json')) if k.get('status') != 'fixed']
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    w = s[5:]
    p = [v for k, v in m if w.startswith(k)]
    assert p, w
    out.append({'property': p[0], 'status': 'fixed', 'commit': h, 'what': 'fixed: property=%s %s %s' % (p[0], h, w)})
json.dump(out + old, open('/verif/known_findings.json', 'w'), indent=1)
open('/verif/known_findings.json', 'a').write('\n')
