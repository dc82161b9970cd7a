#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and stages.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from stages import PROPS

P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=(), observe=()):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    P.append((d, note))


exec(open(os.path.join(HERE, 'properties.py')).read())

REASONS = {}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for d, _ in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d, note in P:
        i = d['id']
        if i in PROPS:
            kinds = {s['kind'] for s in PROPS[i]}
            tech = 'TLA+ specification checked with TLC; '
            tech += ' and '.join(
                ([{'trace': 'trace validation of recorded runs of the real code', 'gen': 'replay of TLC-generated behaviours into the real code',
                   'model': 'exhaustive model checking of the specification'}[k] for k in ('trace', 'gen', 'model') if k in kinds]))
            checks.append({
                'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i,
                'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                'technique': tech, 'level': 'model_checking', 'level_note': note})
        else:
            na.append({'property': i, 'reason': REASONS.get(i, 'not claimed yet: its specification exists in part, its check is not built')})
    json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo. TLC validates traces recorded by the harness in harness/ (crate cvh), which depends on /repo by path, '
                        'and the harness replays behaviours TLC generates; see DESIGN.md.'},
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties,', len(checks), 'checks')


main()
