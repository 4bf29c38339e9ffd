#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties with a contract module are claimed)."""
import json, os
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'pySailingVLM/solver/'
P = []


def p(id, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note))


exec(open(os.path.join(B, 'tools', 'texts.py')).read())

LEVEL = ('Every obligation generated from the current source is discharged for all real-valued inputs and all sizes (no bound); '
         'each contract is also executed on the real code under CPython. ')
TRUST = ('Trusts the VC generator in pyvc, its ring normaliser and z3, the assumed contracts of numpy/scipy/pandas, and floats read as mathematical reals.')


def main():
    with open(os.path.join(B, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps({k: v for k, v in q.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for q in P:
        i = q['id']
        if os.path.exists(os.path.join(B, 'props', i + '.py')):
            checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                               evidence_file='evidence/%s.json' % i,
                               technique='contract-based deductive verification: contracts on the real functions, obligations discharged by ring normaliser + z3',
                               level='proof', level_note=LEVEL + (q['_note'] + ' ' if q['_note'] else '') + TRUST))
        else:
            na.append(dict(property=i, reason=q['_note'] or 'contract under construction'))
    m = dict(version=1, setup_cmd='./tools/setup.sh', checks=checks, not_applicable=na,
             notes='See DESIGN.md. No hooks in /repo: contracts live in /verif/props and are applied to functions extracted mechanically from /repo on every run.')
    json.dump(m, open(os.path.join(B, 'MANIFEST.json'), 'w'), indent=1)


main()
