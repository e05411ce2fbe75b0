"""Writes properties.jsonl and MANIFEST.json from one list."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_BUILT = 'check not built yet'
P = []


def prop(pid, title, statement, over, text, why, files, symbols, note,
         tech='TLA+ trace validation of recorded executions (TLC)',
         built=True, reason=NOT_BUILT):
    assert len(title) <= 80, title
    P.append(dict(pid=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, symbols=symbols, note=note,
                  tech=tech, built=built, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'list.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': ['spaudiopy/' + x for x in p['files']],
                        'mechanism': [{'name': n, 'where': 'spaudiopy/' +
                                       p['files'][0]}
                                      for n in p['symbols']],
                        'observe_at': ['return values, object attributes and '
                                       'files written by the public API'],
                        'hook_needed': None}}) + '\n')
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python harness/setup.py',
     'checks': [], 'not_applicable': [],
     'notes': 'Specification language: TLA+ (TLC). See DESIGN.md.'}
for p in P:
    if p['built']:
        cmd = '/opt/venv/bin/python harness/check.py ' + p['pid']
        m['checks'].append({
            'property': p['pid'],
            'quick_cmd': cmd,
            'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
            'technique': p['tech'], 'level': 'model_checking',
            'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': p['pid'],
                                    'reason': p['reason']})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
