#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, one section per property (props.py gives the statement, RULES below how it is decided), design_tail.md."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
RULES = {}
for blk in open(os.path.join(HERE, 'design_rules.txt')).read().split('\n@')[1:]:
    i, t = blk.split('\n', 1)
    RULES[i.strip()] = t.strip()
P = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))}
M = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
NA = {x['property']: x['reason'] for x in M['not_applicable']}
out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '', '## 4. The properties, one by one', '']
for i, p in P.items():
    out.append('### %s. %s' % (i, p['title']))
    out.append('')
    if i in NA:
        out.append('Not applicable: ' + NA[i])
    else:
        out.append(RULES[i])
        out.append('')
        out.append('*Why beyond tests:* ' + p['why_tests_cant'] + ' *Quantified over:* ' + p['quantifier']['text'] + '.')
    out.append('')
out += ['## 5. Defects found in the tree', '', 'Each is repaired in /repo by the named `fix:` commit (the check passes on the repaired tree and reports it on the base);', 'demonstrations of several are in `defects/`. None is left as a known finding.' if 'known: p' not in open(os.path.join(HERE, 'known_findings.txt')).read().split('repaired; exactly')[1] else 'the rest are known findings.', '', '| property | commit | what failed |', '|---|---|---|']
for l in open(os.path.join(HERE, 'known_findings.txt')):
    if l.startswith('fixed: '):
        a, b, c = l[len('fixed: property='):].strip().split(' ', 2)
        out.append('| %s | %s | %s |' % (a, b, c))
out += ['', open(os.path.join(HERE, 'design_tail.md')).read().rstrip(), '', '## 8. Planted bugs', '',
        'Each is in `seeded/<id>/` with a demonstration that passes on the tree and fails with the patch; all pass the 306 stable tests.', '',
        '| bug | property | needs | caught by |', '|---|---|---|---|']
C = json.load(open(os.path.join(HERE, 'caught.json')))
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], ', '.join(C.get(d, ['?']))))
out += ['', open(os.path.join(HERE, 'design_end.md')).read()]
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
