#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import NOT_APPLICABLE, PROPS  # noqa: E402

TECH = ('bounded symbolic execution of the current source + SMT (z3/cvc5), '
        'counterexamples replayed on the unmodified package')
NOTE = ('For every real/integer value of the symbolic inputs within the '
        'listed sizes the solver shows the assertion holds. ')
TRUST = (' Trusts the stand-ins for scipy.sparse/linalg and the exp/log laws '
         '(both cross-checked at witness points against the real libraries); '
         'exact arithmetic unless a case is marked fp.')


def main():
    props, checks = [], []
    for p in PROPS:
        i = p['id']
        props.append(dict(
            id=i, title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['q']),
            why_tests_cant=p['why'],
            anchors=dict(files=['src/pylogit/' + f for f in p['files']],
                         mechanism=[dict(name=a, where=b)
                                    for a, b in p['mech']])))
        assert len(p['title']) <= 80, i
        if not os.path.exists(os.path.join(ROOT, 'checks', i + '.py')):
            if i not in NOT_APPLICABLE:
                NOT_APPLICABLE[i] = 'check not built yet'
            continue
        checks.append(dict(
            property=i, quick_cmd='./run.py %s' % i,
            thorough_cmd='./run.py %s --thorough' % i, technique=TECH,
            level='other', level_note=NOTE + p['note'] + TRUST))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='true', checks=checks,
                       not_applicable=[dict(property=k, reason=v) for k, v in
                                       sorted(NOT_APPLICABLE.items())]),
                  f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
