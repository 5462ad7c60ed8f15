"""The catalogue of properties; `python3 tools/catalog.py` writes properties.jsonl and MANIFEST.json from it."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MX = 'src/matrix.rs'
P = []


def p(id, title, statement, q, why, files, mech, over=('inputs',), state=(), observe=(), note=None, technique=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, over=list(over), state=list(state), observe=list(observe),
                  note=note, technique=technique, level=level))


CONTRACT = 'symbolic loop-summary dataflow over rustc THIR, compared with contracts'
NOTE = ('Every function the property names is summarised from its typed source for all sizes and contents (loops by closed-form recurrences, '
        'no unrolling, no execution) and compared with its contract by a linear/normal-form prover. Trusts rustc\'s THIR, the models of std calls in '
        'sa/models.py, and reads element arithmetic as exact real arithmetic; a construct the summariser cannot follow is reported undecided and stays quiet.')
DATA = dict(name='matrix storage', meaning='row count, column count and a row-major element vector of exactly rows*columns elements', where='src/matrix.rs')
exec(open(os.path.join(ROOT, 'tools', 'catalog_entries.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for e in P + NA:
            d = dict(id=e['id'], title=e['title'], statement=e['statement'], quantifier=dict(over=e['over'], text=e['q']), why_tests_cant=e['why'],
                     anchors=dict(files=e['files'], state=e['state'], mechanism=[dict(name=n, where=w) for n, w in e['mech']], observe_at=e['observe'], hook_needed=None))
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3 tools/setup.py',
             checks=[dict(property=e['id'], quick_cmd='python3 check.py %s' % e['id'], thorough_cmd='python3 check.py %s' % e['id'],
                          evidence_file='evidence/%s.json' % e['id'], technique=e['technique'] or CONTRACT, level=e['level'], level_note=e['note'] or NOTE) for e in P],
             not_applicable=[dict(property=e['id'], reason=e['reason']) for e in NA],
             notes='No hooks are added to /repo: the checks read the compiler\'s typed intermediate representation of the unmodified crate.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')


NA = []


def na(id, title, statement, reason, files, q='every input', why='The tests sample a few matrices with a tolerance of 1e-6.', over=('inputs',)):
    NA.append(dict(id=id, title=title, statement=statement, reason=reason, files=files, q=q, why=why, over=list(over), state=[], mech=[('the algorithm', files[0])], observe=[]))


exec(open(os.path.join(ROOT, 'tools', 'catalog_na.py')).read())
if __name__ == '__main__':
    main()
