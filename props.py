#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
TRUST = ('Sound for every input of the analysed functions up to the abstract semantics in analyzer/ (std models) and rustc MIR; '
         'functions the analyser cannot model make an obligation undecided (reported, never an alarm); 0 undecided on the current tree.')


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=(), level='proof'):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe)),
                  technique=technique, note=note, level=level))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, None, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, 'props_data.py')).read())

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note', 'level')}) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh',
             checks=[dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                          technique=p['technique'], level=p['level'], level_note=p['note'] + ' ' + TRUST) for p in P if p['technique']],
             not_applicable=NA,
             notes='All checks are static: MIR of the current tree is extracted with a rustc wrapper (driver/) and decided by the abstract interpreter in analyzer/. No code of the repository is executed.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(m['checks']), 'claimed')
