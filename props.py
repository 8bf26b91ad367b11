#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (python3 props.py rewrites both)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS, CHECKS, NA = [], [], []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, tech=None, level=None, note=None, na=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = [observe]
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id, 'quick_cmd': 'python3 check.py %s quick' % id, 'thorough_cmd': 'python3 check.py %s thorough' % id,
                       'evidence_file': 'evidence/%s.json' % id, 'technique': tech, 'level': level, 'level_note': note})


exec(open(os.path.join(HERE, 'props_text.py')).read())

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': CHECKS, 'not_applicable': NA,
                   'notes': 'No hooks: nothing in /repo is instrumented. Checks compile /repo\'s headers and sources to LLVM IR (never executed) and analyse that.'}, f, indent=1)
        f.write('\n')
