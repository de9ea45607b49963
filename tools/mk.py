"""Writes properties.jsonl and MANIFEST.json from the table below (one place for ids, texts and levels)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

PROPS = []
NA = {}


def P(id, title, statement, over, text, why, files, mech, observe, level='proof', note='', tech=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                      level=level, note=note, tech=tech))


DED = 'contract-based deductive verification (fvc: weakest-precondition style symbolic execution of the clang AST of /repo, z3/cvc5)'
S = 'src/'
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'table.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None},
        }) + '\n')
checks, na = [], []
for p in PROPS:
    pid = p['id']
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
    elif os.path.exists(os.path.join(ROOT, 'props', pid + '.py')):
        checks.append({'property': pid, 'quick_cmd': 'python3-vt -m fvc.check %s' % pid, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt -m fvc.check %s' % pid,
                       'technique': p['tech'] or DED, 'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': pid, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q fvc props', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read and compile the unmodified sources'}}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
