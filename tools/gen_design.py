#!/usr/bin/env python3
"""Assemble DESIGN.md from tools/design/*.md, props_data.py, the rules of the last run's evidence, and seeded/*/meta.json"""
import glob, importlib, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, 'tools'))
sys.dont_write_bytecode = True
from props_data import PROPS
D = os.path.join(ROOT, 'tools', 'design')
out = [open(os.path.join(D, 'head.md')).read()]
for p in PROPS:
    if p['na']:
        continue
    ev = json.load(open(os.path.join(ROOT, 'evidence', p['id'] + '.json')))['coverage']
    out.append("### %s. %s\n\n%s\n\n*Quantified over*: %s. *Method*: %s.\n" % (p['id'], p['title'], p['statement'], p['qtext'], p['technique']))
    out.append("*Rules* (%d obligations on the current tree, %d functions):\n" % (ev['obligations'], ev['functions']))
    for r, d in ev['rules'].items():
        out.append("- `%s` (%d): %s" % (r, d['obligations'], d['text']))
    out.append("\n*Scope*: %s\n\n*Beyond tests*: %s\n" % (p['note'], p['why']))
t = open(os.path.join(D, 'tail.md')).read()
fx = [l.strip()[len('fixed: '):] for l in open(os.path.join(ROOT, 'known_findings.txt')) if l.startswith('fixed:')]
t = t.replace('FIXES', '\n'.join('* ' + l.replace('property=', '') for l in fx))
rows = ['| id | property | needs | caught by |', '|---|---|---|---|']
cb = json.load(open(os.path.join(D, 'caught.json'))) if os.path.exists(os.path.join(D, 'caught.json')) else {}
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), cb.get(i, m['property'])))
t = t.replace('SEEDS', '\n'.join(rows))
n = 0
for f in glob.glob(os.path.join(ROOT, 'tools', 'mutants', 'c*.py')):
    g = {}
    exec(open(f).read(), g)
    n += len(g['M'])
for f in glob.glob(os.path.join(ROOT, 'tools', 'mutants', 'blind', 'b*.py')):
    g = {}
    exec(open(f).read(), g)
    n += len([x for x in g['B'] if x[4]])
t = t.replace('MUTCOUNT', str(n))
out.append(t)
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out)), 'bytes', n, 'mutants')
