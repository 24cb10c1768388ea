"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(pid, title, statement, over, quant, why, files, mech, level='model_checking', technique='', note='',
         state=None, observe=None, check=True):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, state=state, observe=observe, check=check))


def na(pid, reason):
    NA.append(dict(property=pid, reason=reason))


SYM = ('symbolic execution of the real source (executed with solver-backed values in place of numbers), every path '
       'decided by z3; counterexamples replayed on the unmodified code')
exec(open(os.path.join(HERE, 'tools', 'propdata.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['pid']
        fh.write(json.dumps({'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['quant']},
                             'why_tests_cant': p['why'], 'anchors': a}) + '\n')
nas = {n['property'] for n in NA}
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'checks': [{'property': p['pid'], 'quick_cmd': 'bash run.sh ' + p['pid'],
                   'thorough_cmd': 'bash run.sh ' + p['pid'],
                   'technique': p['technique'] or SYM, 'level': p['level'], 'level_note': p['note'],
                   'evidence_file': 'evidence/%s.json' % p['pid']}
                  for p in P if p['pid'] not in nas and p['check']],
       'not_applicable': NA,
       'notes': 'Each check reads VERIF_TIER itself; tools/props.py generates this file. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
