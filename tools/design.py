#!/usr/bin/env python3
"""Fills DESIGN.md from tools/design.md (text), properties.jsonl, harness.json, known-findings.txt and seeded/ (development helper)."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(H, 'tools', 'design.md')).read()
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
meta = json.load(open(os.path.join(H, 'harness', 'harness.json')))
man = {c['property']: c for c in json.load(open(os.path.join(H, 'MANIFEST.json')))['checks']}
out = ''
for p in props:
    m = meta[p['id']]
    ev = os.path.join(H, 'evidence', p['id'] + '.json')
    out += '### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    out += '* method: %s\n* quantified over: %s\n* cases: %s\n* oracle: %s\n* why tests cannot settle it: %s\n' % (man[p['id']]['technique'], p['quantifier']['text'], m['rule'], m['oracle'], p['why_tests_cant'])
    if m.get('bounds'): out += '* bounds: %s\n' % m['bounds']
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e['tier'] == 'quick':
            out += '* cost (quick): about %d s, %d cases\n' % (round(e['wall_s']), e['coverage']['evaluations'])
    out += '\n'
s = s.replace('@@PROPS@@', out.strip())
fx = {}
for l in open(os.path.join(H, 'known-findings.txt')):
    mm = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if mm: fx.setdefault(mm[1], []).append('%s (%s)' % (mm[3], mm[2]))
s = s.replace('@@FIXES@@', '\n'.join('* **%s**: %s' % (k, '; '.join(v)) for k, v in sorted(fx.items())))
rows = ''
caught = os.path.join(H, 'tools', 'caught.json')
caught = json.load(open(caught)) if os.path.exists(caught) else {}
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(d)); j = json.load(open(d))
    rows += '| %s | %s | %s | %s | %s |\n' % (i, j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/'), caught.get(i, '?'))
s = s.replace('@@SEEDED@@', rows.strip())
open(os.path.join(H, 'DESIGN.md'), 'w').write(s)
