#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run after editing; both files are committed)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(), note='', technique='path-sensitive abstract interpretation (typestate) of compiled source'):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[], hook_needed=None),
                  note=note, technique=technique))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    P[-1]['na'] = reason


SCHED = 'every interleaving of callers, every outcome of every kernel wait and allocation'
exec(open(os.path.join(HERE, 'props.py')).read())

LEVEL = ('Static: every path through the listed entry points (all callees inlined, loops to a fixpoint) of the source as compiled, both library '
         'flavours. Trusts clang\'s IR, the models of Win32 calls, sequentially consistent interlocked operations; interference by other threads is '
         'modelled by forgetting or re-enumerating shared state at every atomic and blocking step. ')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ('note', 'technique', 'na')}
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps(q) + '\n')
    m = {'version': 1, 'setup_cmd': "python3 -B -c 'from sa import build; build.dumper()'", 'checks': [], 'not_applicable': [],
         'notes': 'Static analysis only; see DESIGN.md. Known findings: known_findings.txt.'}
    for p in P:
        if 'na' in p:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 -B check.py %s --tier quick' % p['id'],
                                'thorough_cmd': 'python3 -B check.py %s --tier thorough' % p['id'],
                                'technique': p['technique'], 'level': 'other', 'level_note': LEVEL + p['note']})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
