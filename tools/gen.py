import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.path.insert(0, HERE)
from catalog import NA, P  # noqa: E402
import re  # noqa: E402


def level(pid):
    s = open(f'{HERE}/mc/{pid.lower()}.py', encoding='utf-8').read()
    return re.search(r"^LEVEL = '(\w+)'", s, re.M).group(1)


out, checks, na = [], [], []
for p in sorted(P, key=lambda p: p['id']):
    if not os.path.exists(f'{HERE}/mc/{p["id"].lower()}.py'):
        print('no check for', p['id'])
        continue
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
    if p['state']:
        a['state'] = p['state']
    if p['observe']:
        a['observe_at'] = p['observe']
    out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'], 'anchors': a})
    checks.append({'property': p['id'], 'quick_cmd': f'./check.sh {p["id"]} quick', 'thorough_cmd': f'./check.sh {p["id"]} thorough',
                   'technique': p['technique'], 'level': level(p['id']), 'level_note': p['note']})
for pid, title, st, reason, files in NA:
    out.append({'id': pid, 'title': title, 'statement': st, 'quantifier': {'over': ['inputs'], 'text': 'all inputs'},
                'why_tests_cant': 'No finite sample settles it.', 'anchors': {'files': ['src/dga/' + f for f in files], 'mechanism': [{'name': title, 'where': 'src/dga/' + files[0]}]}})
    na.append({'property': pid, 'reason': reason})
with open(f'{HERE}/properties.jsonl', 'w', encoding='utf-8') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
with open(f'{HERE}/MANIFEST.json', 'w', encoding='utf-8') as f:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: the checks import the package from the working tree and replace the communicator / file layer at run time.'}, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    for name, sch, data in (('manifest', 'MANIFEST', [json.load(open(f'{HERE}/MANIFEST.json'))]), ('properties', 'PROPERTIES', out)):
        s = json.load(open(f'/root/.vp/{sch}.schema.json'))
        for d in data:
            jsonschema.validate(d, s)
    print('valid', len(checks), 'checks')
except ImportError:
    print('written', len(checks), 'checks')
