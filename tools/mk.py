#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
L = 'src/libscotch/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, observe=None, level='model_checking', technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note,
                  observe=observe or [], level=level, technique=technique or 'TLA+ specification checked with TLC, trace validation of the real library'))


exec(open(os.path.join(V, 'tools', 'props.py')).read())


def main():
    import registry
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    checks = []
    na = []
    for p in P:
        if p['id'] in registry.WHERE:
            checks.append(dict(property=p['id'], quick_cmd='python3 lib/check.py %s quick' % p['id'],
                               thorough_cmd='python3 lib/check.py %s thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level=p['level'],
                               level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason='no check built yet'))
    m = dict(version=1, setup_cmd='python3 lib/vbuild.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the checks build the unmodified sources and drive the public API. '
                   'Specification language: TLA+ (TLC). See DESIGN.md.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks')


main()
