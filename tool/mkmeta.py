"""mkmeta.py : writes properties.jsonl and MANIFEST.json from contracts/propdefs.py and contracts/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'contracts')); sys.path.insert(0, os.path.join(ROOT, 'tool'))
import propdefs, props
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d in propdefs.DEFS:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps({'id': d['id'], 'title': d['title'], 'statement': d['statement'],
            'quantifier': {'over': d['over'], 'text': d['quant']}, 'why_tests_cant': d['why'],
            'anchors': {'files': d['files'], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in d.get('state', [])],
                        'mechanism': [{'name': a, 'where': b} for a, b in d['mech']], 'observe_at': d.get('observe', []), 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [], 'notes': propdefs.NOTES}
for d in propdefs.DEFS:
    P = props.PROPS.get(d['id'])
    if P is None:
        m['not_applicable'].append({'property': d['id'], 'reason': d['na']}); continue
    c = {'property': d['id'], 'quick_cmd': './check %s' % d['id'], 'thorough_cmd': './check %s' % d['id'],
         'evidence_file': 'evidence/%s.json' % d['id'], 'technique': P.get('technique', propdefs.TECH),
         'level': P.get('level', 'proof'), 'level_note': (P.get('note', '') + ' ' + propdefs.NOTE).strip()}
    if c['level'] == 'proof': c['theorems'] = P['units']
    m['checks'].append(c)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not')
