#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json from the entries below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VALUE = 'abstract interpretation to value-flow normal forms, compared with a reference definition'
NOTE = ('Every value the current source can compute for the checked quantities is derived by abstract interpretation of '
        'the syntax tree (all branches, symbolic tensor shapes, no execution) and its normal form compared with the '
        'reference definition. Assumes real arithmetic (no rounding), the documented semantics of the TensorFlow/NumPy '
        'operations used, and the transcription of TR 38.811 / TR 38.901 in /verif/specs.')
SL = 'OpenNTN/system_level_scenario.py'
SCF = ['OpenNTN/dense_urban_scenario.py', 'OpenNTN/urban_scenario.py', 'OpenNTN/sub_urban_scenario.py']
P, NA = [], []


def p(id, title, statement, over, text, why, files, mech, technique=VALUE, note=NOTE, observe=(), thorough=True):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe)), technique=technique, note=note))


def na(id, title, statement, over, text, why, files, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                    why_tests_cant=why, anchors=dict(files=files, mechanism=[])), reason))


exec(open(os.path.join(HERE, 'tools', 'entries.py')).read())

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P + [a for a, _ in NA]:
            f.write(json.dumps({k: v for k, v in x.items() if k not in ('technique', 'note')}) + '\n')
    m = dict(version=1, setup_cmd='python3 tools/setup.py',
             checks=[dict(property=x['id'], quick_cmd='python3 check.py %s --tier quick' % x['id'],
                          thorough_cmd='python3 check.py %s --tier thorough' % x['id'],
                          technique=x['technique'], level='other', level_note=x['note']) for x in P],
             not_applicable=[dict(property=a['id'], reason=r) for a, r in NA])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    assert len({x['id'] for x in P}) == len(P)
    for x in P:
        assert len(x['title']) <= 80, x['title']
    print(len(P), 'claimed', len(NA), 'not applicable')
