"""Write properties.jsonl and MANIFEST.json from tools/props.py and the checks present."""
import json, os, sys, re, ast
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import P

def module_consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')

checks, na = [], []
for p in P:
    path = os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py')
    c = module_consts(path) if os.path.exists(path) else {}
    if c.get('CLAIMED'):
        checks.append({
            'property': p['id'],
            'quick_cmd': './check %s quick' % p['id'],
            'thorough_cmd': './check %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': c['TECHNIQUE'],
            'level': c.get('LEVEL', 'model_checking'),
            'level_note': ' '.join(c['NOTE'].split()),
        })
    else:
        na.append({'property': p['id'], 'reason': c.get('NA_REASON', 'no check built yet')})
m = {'version': 1, 'setup_cmd': './check --selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all checks drive its public API on the current working tree. '
              'Known findings: known_findings.json. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'claimed;', [x['property'] for x in na], 'not claimed')


# DESIGN.md: the head, a section for each property, a table of planted bugs
import importlib
with open(os.path.join(ROOT, 'tools', 'design_head.md')) as f:
    out = [f.read().rstrip(), '', '## Properties', '']
for p in P:
    c = importlib.import_module('mc.checks.' + p['id'].lower())
    one = lambda s: ' '.join(s.split())
    out += ['### %s: %s' % (p['id'], p['title']), '',
            '* **Holds:** ' + one(p['statement']),
            '* **Why tests cannot settle it:** ' + one(p['why_tests_cant']),
            '* **Technique:** ' + one(c.TECHNIQUE) + '.',
            '* **What is decided:** ' + one(c.NOTE),
            '* **Bounds, quick:** ' + one(c.BOUNDS['quick']) + '. **Thorough:** ' + one(c.BOUNDS['thorough']) + '.']
    if c.ASSUMPTIONS:
        out.append('* **Assumed:** ' + '; '.join(one(a) for a in c.ASSUMPTIONS) + '.')
    out.append('')
path = os.path.join(ROOT, 'tools', 'seed_results.json')
results = json.load(open(path)) if os.path.exists(path) else {}
out += ['## Planted bugs', '',
        'Each was written from the text of the property; all pass the existing tests. "Caught by" is the result of the quick check of the property on the current machinery; the last column is what it needs in order to manifest.', '',
        '| bug | property | caught by | needs |', '|---|---|---|---|']
for sid in sorted(os.listdir(os.path.join(ROOT, 'seeded'))) if os.path.isdir(os.path.join(ROOT, 'seeded')) else []:
    meta = json.load(open(os.path.join(ROOT, 'seeded', sid, 'meta.json')))
    got = results.get(sid)
    out.append('| %s | %s | %s | %s |' % (sid, meta['property'], 'not run' if got is None else ', '.join(got) or '**missed**', ' '.join(meta['needs'].split()).replace('|', '/')))
with open(os.path.join(ROOT, 'tools', 'design_tail.md')) as f:
    out += ['', f.read().rstrip()]
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
