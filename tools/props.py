"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
M = 'meshiphi/mesh_generation/'


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, na=None, note=None):
    a = dict(files=files, mechanism=mech)
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    if na:
        NA.append(dict(property=id, reason=na))


exec(open(os.path.join(HERE, 'tools', 'props_text.py')).read())


def check(pid):
    import re
    src = open(os.path.join(HERE, 'harness', pid.lower() + '.py')).read()
    return dict(property=pid, quick_cmd=f'python3 check.py {pid} quick', thorough_cmd=f'python3 check.py {pid} thorough',
                evidence_file=f'evidence/{pid}.json',
                technique='symbolic execution of the real Python code with z3 deciding every path and assertion; counterexamples replayed on the unpatched code',
                level='model_checking',
                level_note='Every feasible path of the encoded functions within the bounds listed in the evidence file is explored and every assertion on it is discharged by z3 over all '
                           'real/integer values of the symbolic inputs; numbers are exact rationals (rounding of doubles is outside), shapely/numpy/pandas leaves are modelled as listed under stubs. '
                           'Paths the encoding cannot follow are reported as inconclusive, never as a pass or an alarm.')


if __name__ == '__main__':
    assert all(len(p['title']) <= 80 for p in P), [p['title'] for p in P if len(p['title']) > 80]
    na = {x['property'] for x in NA}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[check(p['id']) for p in P if p['id'] not in na], not_applicable=NA,
               notes='check.py re-executes itself under /opt/venv/bin/python (the interpreter that has the project installed) and imports the code from /repo. '
                     'No hooks are needed in /repo. Counterexamples are written to /verif/replays/<id>.json; `python3 check.py --replay FILE` runs one again.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
    print(len(P), 'properties', len(man['checks']), 'checks', len(NA), 'not applicable')
