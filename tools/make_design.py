#!/usr/bin/env python3
"""DESIGN.md from tools/design/*.md, tools/levels.py, the property modules, and the results of tools/try.sh in tools/design/detect.txt"""
import json
import os
import re
import sys
here = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, os.path.join(here, 'tools'))
from levels import L
rd = lambda p: open(os.path.join(here, p)).read()
out = [rd('tools/design/head.md'), '## Properties\n']
for l in rd('properties.jsonl').splitlines():
    q = json.loads(l)
    i = q['id']
    s = rd('harness/props/%s.py' % i.lower())
    rule = ' '.join(' '.join(re.findall(r"'((?:[^'\\]|\\.)*)'", re.search(r"RULE = \((.*?)\)\n", s, re.S).group(1))).replace("\\'", "'").split())
    n = L[i]
    out.append('### %s: %s\n' % (i, q['title']))
    out.append('* Technique: %s.' % n['technique'])
    out.append('* Generated and compared with: %s.' % rule)
    out.append('* Bounds: %s' % n['note'])
    out.append('* Beyond the tests: %s' % n['why'])
    subs = []
    for m in re.finditer(r"\n    Sub\('(\w+)',(.*?)(?=\n    Sub\(|\n\])", s, re.S):
        k = re.search(r'quick=(\d+)', m.group(2))
        t = re.search(r'thorough=(\d+)', m.group(2))
        subs.append('`%s` %s/%s' % (m.group(1), k and k.group(1), t.group(1) if t else int(k.group(1)) * 20))
    out.append('* Sub-checks (cases quick/thorough): %s.\n' % ', '.join(subs))
out.append(rd('tools/design/tail.md'))
det = {}
p = os.path.join(here, 'tools/design/detect.txt')
if os.path.exists(p):
    for l in open(p):
        m = re.match(r'([\w-]+): (caught|MISSED) by (C\d+)', l)
        if m:
            det[m.group(1)] = '%s by %s' % (m.group(2), m.group(3))
miss = set(rd('tools/design/missed_at_first.txt').split())
out.append('| planted bug | property | needs | result | missed at first |\n|---|---|---|---|---|')
for b in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', b, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), det.get(b, ''), 'yes' if b in miss else ''))
out.append('')
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len(det), 'results')
