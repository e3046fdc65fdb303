#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from texts.py and engine/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
import texts, props
root = os.path.join(HERE, '..')
checks, na = [], []
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for t in texts.PROPS:
        assert len(t['title']) <= 80, t['title']
        anchors = {'files': t['files'], 'mechanism': [{'name': a, 'where': b} for a, b in t['mech']]}
        if t['state']:
            anchors['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in t['state']]
        if t['observe']:
            anchors['observe_at'] = list(t['observe'])
        anchors['hook_needed'] = None
        f.write(json.dumps({'id': t['id'], 'title': t['title'], 'statement': t['statement'],
                            'quantifier': {'over': t['over'], 'text': t['qtext']}, 'why_tests_cant': t['why'], 'anchors': anchors}) + '\n')
        if t['id'] in props.PROPS:
            P = props.PROPS[t['id']]
            checks.append({'property': t['id'], 'quick_cmd': 'python3 check.py %s' % t['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % t['id'],
                           'technique': P.get('technique', texts.INV_TECH), 'level': 'other',
                           'level_note': P.get('note', 'Sound over the modelled C semantics for every argument state described in DESIGN.md: each obligation is proved for all values, on all paths; trusts clang, the libc models and the stated preconditions. ' + P['rule'])})
        else:
            na.append({'property': t['id'], 'reason': t['na'] or 'not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the analyses read the source as it is built.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
