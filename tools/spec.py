#!/usr/bin/env python3
"""spec.py < python defining dict s: writes spec/<id>.json"""
import sys, json
env = {}
exec(sys.stdin.read(), env)
s = env['s']
for h in s['check']['harnesses']:
    h.setdefault('covers', [])
json.dump(s, open('/verif/spec/%s.json' % s['property']['id'], 'w'), indent=1, ensure_ascii=False)
