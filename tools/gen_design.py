#!/usr/bin/env python3
"""Assemble DESIGN.md: design_head.md, the per-property part from properties, checks and the last evidence, design_tail.md."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'tools'))
import checks
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
out = open(os.path.join(root, 'tools/design_head.md')).read()
for p in props:
    i = p['id']
    out += f"### {i} {p['title']}\n\n"
    if i not in checks.CHECKS:
        out += 'Not claimed.\n\n'
        continue
    lvl, tech, bounds = checks.CHECKS[i]
    out += f"*How*: {tech}. *Level*: {lvl}; {bounds}.\n"
    try:
        e = json.load(open(os.path.join(root, 'evidence', i + '.json')))
        out += f"*Watched*: {e['coverage']['rule']}.\n"
        if e.get('assumptions'):
            out += '*Assumed*: ' + '; '.join(e['assumptions']) + '.\n'
    except FileNotFoundError:
        print('no evidence for', i)
    out += '\n'
tail = open(os.path.join(root, 'tools/design_tail.md')).read()
rows = ''
sd = os.path.join(root, 'seeded')
for d in sorted(os.listdir(sd), key=lambda d: (json.load(open(os.path.join(sd, d, 'meta.json')))['property'], d)):
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    rows += f"| {d} | {m['property']} | {m['what_it_breaks']} |\n"
out += tail.replace('@SEEDED@', '| change | caught by | what it breaks |\n|---|---|---|\n' + rows)
open(os.path.join(root, 'DESIGN.md'), 'w').write(out)
