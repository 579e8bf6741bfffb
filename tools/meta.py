"""Source of properties.jsonl and MANIFEST.json: run 'python3 tools/meta.py' after an edit.

A property whose module props/cXX.py exists is claimed; the others are listed under not_applicable.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': ['pdfsyntax/' + f for f in files],
                           'mechanism': [{'name': n, 'where': 'pdfsyntax/' + w} for n, w in mech]},
                  technique=technique, note=note))


exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}) + '\n')

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
        checks.append({'property': p['id'], 'quick_cmd': f"./check {p['id']} --tier quick",
                       'thorough_cmd': f"./check {p['id']} --tier thorough",
                       'evidence_file': f"evidence/{p['id']}.json", 'technique': p['technique'],
                       'level': 'exploration', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'not claimed: its generator and oracle are not built (yet); the technique applies'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Property-based testing and fuzzing only. No hooks: every check observes pdfsyntax through its public API, its CLI functions '
              'and the bytes it writes. Checks import pdfsyntax from the working tree of /repo (pure Python, nothing to build).'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(checks), 'claimed')
