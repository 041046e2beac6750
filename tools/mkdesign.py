#!/usr/bin/env python3
"""DESIGN.md = design/head.md + one section per property (from properties.jsonl, the contract modules and design/remarks.py) + design/tail.md"""
import json, os, sys, importlib, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
exec(open(os.path.join(V,'design','remarks.py')).read())
w = lambda t: textwrap.fill(t, 150, break_long_words=False)
out = [open(os.path.join(V,'design','head.md')).read().rstrip(), '', '## Per property', '']
man = json.load(open(os.path.join(V,'MANIFEST.json'))); na = {d['property']: d['reason'] for d in man['not_applicable']}
know = [l.strip() for l in open(os.path.join(V,'KNOWN_FINDINGS.jsonl')) if l.strip()]
for l in open(os.path.join(V,'properties.jsonl')):
    d = json.loads(l); i = d['id']; out += ['### %s: %s' % (i, d['title']), '']
    if i in na: out += [w('Not applicable: ' + na[i]), '']; continue
    m = importlib.import_module('contracts.'+i.lower())
    out += [w('*Proved (all inputs, no bound).* ' + m.NOTE), '']
    if getattr(m,'BOUNDED',''): out += [w('*Bounded stand-in and replay (native/%s.cc, random search, never counted as proved).* ' % i.lower() + m.BOUNDED + '.'), '']
    if getattr(m,'ASSUMPTIONS',[]): out += [w('*Assumed.* ' + '; '.join(m.ASSUMPTIONS) + '.'), '']
    if i in REMARKS: out += [w('*Remarks.* ' + REMARKS[i]), '']
    f = [k for k in know if ('property='+i+' ') in k]
    if f: out += ['Defects found by this check and repaired:'] + [w('- ' + k.split(' ',2)[2] if k.startswith('fixed:') else '- ' + k) for k in f] + ['']
out += [open(os.path.join(V,'design','tail.md')).read().rstrip(), '']
open(os.path.join(V,'DESIGN.md'),'w').write('\n'.join(out))
