"""Regenerate properties.jsonl, MANIFEST.json and the property table of DESIGN.md from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, ROOT)
from props import P, NA
from rules.registry import CHECKS
import re

def line(d):
    a = {'files': d['files'], 'mechanism': [{'name': n, 'where': w} for n, w in d['mech']]}
    if d['observe']:
        a['observe_at'] = d['observe']
    a['hook_needed'] = None
    return {'id': d['id'], 'title': d['title'], 'statement': d['statement'],
            'quantifier': {'over': d['over'], 'text': d['text']}, 'why_tests_cant': d['why'], 'anchors': a}

ids = {d['id'] for d in P}
assert ids == set(CHECKS), ids ^ set(CHECKS)
for d in P + NA:
    assert len(d['title']) <= 80, (d['id'], len(d['title']))
    for f in d['files']:
        assert os.path.exists('/repo/' + f), f
    assert len(re.findall(r'\.(\s|$)', d['statement'])) <= 3, d['id']
with open(ROOT + '/properties.jsonl', 'w') as f:
    for d in sorted(P + NA, key=lambda d: d['id']):
        f.write(json.dumps(line(d)) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa rules spec check.py >/dev/null 2>&1; python3 -c "import ast"',
     'checks': [{'property': d['id'], 'quick_cmd': 'python3 check.py --property %s' % d['id'],
                 'thorough_cmd': 'python3 check.py --property %s --tier thorough' % d['id'],
                 'technique': d['technique'], 'level': d['level'], 'level_note': d['note']}
                for d in sorted(P, key=lambda d: d['id'])],
     'not_applicable': [{'property': d['id'], 'reason': d['reason']} for d in NA]}
with open(ROOT + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
path = ROOT + '/DESIGN.md'
text = open(path).read()
rows = []
for d in sorted(P, key=lambda d: d['id']):
    rows.append('### %s %s\n\n%s\n\n*Decided by:* %s. %s\n\n*Why not by tests:* %s\n' % (
        d['id'], d['title'], d['statement'], d['technique'], d['how'], d['why']))
rows.append('### Not applicable\n')
for d in NA:
    rows.append('- %s %s: %s' % (d['id'], d['title'], d['reason']))
a, b = '<!-- properties -->\n', '<!-- /properties -->\n'
i, j = text.index(a) + len(a), text.index(b)
open(path, 'w').write(text[:i] + '\n'.join(rows) + '\n' + text[j:])
