"""Writes properties.jsonl and MANIFEST.json from the table below (python3 gen.py)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
AI = 'abstract interpretation of the source to index-notation terms; normal-form equality with an independent specification'
NOTE = ('Decides the stated clauses for all sizes, indices and values at once (symbolic dimensions, uninterpreted user '
        'functions). Terms equal in normal form are proved; terms equal only under random interpretation are counted '
        'separately as agreed. Trusts the models of numpy/jax/scipy/PETSc/basix in sa/; real arithmetic, no rounding.')
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=AI, note=NOTE):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, note=note))


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), reason=reason))


exec(open(os.path.join(HERE, 'props_table.py')).read())


def main():
    keys = ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')
    live = [p for p in P if os.path.exists(os.path.join(HERE, 'sa', 'props', p['id'].lower() + '.py'))]
    for p in P + NA:
        assert len(p['title']) <= 80, p['title']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(live + NA, key=lambda p: p['id']):
            f.write(json.dumps({k: p[k] for k in keys}) + '\n')
    m = dict(version=1, setup_cmd='python3 -m compileall -q sa && python3 -m sa.selftest',
             checks=[dict(property=p['id'], quick_cmd='python3 -m sa.run %s --tier quick' % p['id'],
                          thorough_cmd='python3 -m sa.run %s --tier thorough' % p['id'],
                          technique=p['technique'], level='other', level_note=p['note']) for p in live],
             not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
             notes='Static analysis only: no code of /repo is imported or executed by any check. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    print(len(live), 'claimed', len(NA), 'not applicable')


main()
