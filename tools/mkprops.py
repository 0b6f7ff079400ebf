"""Write properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('contract-based deductive verification: contracts on the real '
        'functions, verification conditions by symbolic execution of the '
        'current source, discharged by term normalisation and z3/cvc5; '
        'runtime contract checking as labelled bounded stand-in')
NOTE = ('Unbounded in array sizes and values for every case listed as proved '
        'in the evidence; ranks, axis choices and option settings are '
        'enumerated. Trusts the verifier in /verif/pyvc, z3/cvc5, exact '
        'arithmetic instead of floating point, and assumed contracts on '
        'numpy/scipy/pyfftw/numexpr. ')
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(),
         note='', level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  observe=list(observe), note=note, level=level))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

NA = globals().get('NA', [])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[
                    dict(name=a, where=b) for a, b in p['mech']],
                    observe_at=p['observe'], hook_needed=None))) + '\n')
    na = set(x['property'] for x in NA)
    m = dict(version=1,
             setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.append('
             "'/opt/veriftools/pyvenv/lib/python3.12/site-packages'); "
             'import z3, numpy"',
             checks=[dict(property=p['id'],
                          quick_cmd='./check.sh %s --tier quick' % p['id'],
                          thorough_cmd='./check.sh %s --tier thorough' %
                          p['id'],
                          evidence_file='evidence/%s.json' % p['id'],
                          technique=TECH, level=p['level'],
                          level_note=NOTE + p['note'])
                     for p in P if p['id'] not in na],
             not_applicable=NA,
             notes='See DESIGN.md. Known findings: known_findings.json.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
