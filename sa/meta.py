"""The properties: single source of properties.jsonl and MANIFEST.json (python3 sa/meta.py rewrites both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=[], hook_needed=None),
                  technique=technique, note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=[], hook_needed=None)))
    NA.append(dict(property=id, reason=reason))


TECH = 'static analysis: path-sensitive abstract interpretation of the clang CFG (typestate/dataflow, helpers inlined, no solver)'
NOTE = ('Every path of the named functions in /repo\'s current source (and in driver instantiations of its templates) is covered; '
        'library calls are modelled, loops are widened, code of the user of the library is an arbitrary effect. Trusted: clang\'s AST/CFG, the '
        'extractor and interpreter in /verif, the models of std components. ')

exec(open(os.path.join(V, 'sa', 'properties.txt')).read())


def main():
    P.sort(key=lambda x: x['id'])
    with open(V + '/properties.jsonl', 'w') as f:
        for x in P:
            y = {k: v for k, v in x.items() if k not in ('technique', 'note')}
            f.write(json.dumps(y) + '\n')
    nas = {x['property'] for x in NA}
    m = dict(version=1, setup_cmd='python3 sa/setup.py',
             checks=[dict(property=x['id'], quick_cmd='python3 sa/check.py ' + x['id'], thorough_cmd='VERIF_TIER=thorough python3 sa/check.py ' + x['id'],
                          evidence_file='evidence/%s.json' % x['id'], technique=x['technique'], level='other', level_note=x['note'])
                     for x in P if x['id'] not in nas],
             not_applicable=sorted(NA, key=lambda x: x['property']),
             notes='All checks are static: they read /repo\'s current source through a clang LibTooling extractor (tool/extract.cpp) and decide rules on '
                   'the control-flow graphs (sa/). No part of /repo is executed. See DESIGN.md.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')


if __name__ == '__main__':
    main()
