'''Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py'''
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'beam_telescope_analysis/'
AU = P + 'tools/analysis_utils.py'
props = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, level='model_checking', note=None, observe=None):
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, level=level, note=note, observe=observe))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': anchors}) + '\n')

checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')) and p['technique']:
        cmd = '/opt/venv/bin/python -m mc %s' % p['id']
        checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p['note'] or 'check under construction in this session; nothing is claimed for it yet'})
man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m mc.overlay', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks are needed in /repo: the controlled scheduler replaces threading/multiprocessing primitives from outside. '
                'Every check copies the package from /repo\'s working tree to .cache/ (content addressed), compiles the extension there and imports that copy.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
print(len(props), 'properties,', len(checks), 'claimed')
