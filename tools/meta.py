"""Write properties.jsonl and MANIFEST.json from the table below (run: python3 tools/meta.py)."""
import importlib.util
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, text, why, files, mechanism, over=('inputs',), observe=(), state=()):
    PROPS.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
                  'quantifier': {'over': list(over), 'text': ' '.join(text.split())},
                  'why_tests_cant': ' '.join(why.split()),
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                              'state': [{'name': a, 'meaning': b, 'where': w} for a, b, w in state],
                              'observe_at': list(observe), 'hook_needed': None}})


exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        for a in p['anchors']['files']:
            assert os.path.exists(os.path.join('/repo', a)), a
        f.write(json.dumps(p) + '\n')

TECH = 'property-based testing (Hypothesis generators, '
checks, na = [], []
for p in PROPS:
    fn = os.path.join(HERE, 'props', p['id'] + '.py')
    if p['id'] in NOT_CLAIMED:
        na.append({'property': p['id'], 'reason': NOT_CLAIMED[p['id']]})
    elif not os.path.exists(fn):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
    else:
        src = open(fn).read()
        note = re.search(r"^LEVEL_NOTE = \(?(.*?)\)?\n(?=\S|\n)", src, re.S | re.M).group(1)
        note = eval('(' + note + ')')
        checks.append({'property': p['id'],
                       'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': TECH + ORACLE.get(p['id'], 'explicit oracle') + ', shrinking to a JSON replay)',
                       'level': 'exploration', 'level_note': note})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo are needed: every check drives the public API. See DESIGN.md.'}, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties,', len(checks), 'checks,', len(na), 'not claimed')
