"""Write properties.jsonl and MANIFEST.json from the one table in tools/properties.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from properties import CLAIMED, DECLINED, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prop(p):
    return {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}


allp = sorted(CLAIMED + DECLINED, key=lambda p: p['id'])
assert len({p['id'] for p in allp}) == len(allp)
with open(V + '/properties.jsonl', 'w') as f:
    for p in allp:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(prop(p)) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 sa/build.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 sa/run.py %s' % p['id'], 'thorough_cmd': 'python3 sa/run.py %s' % p['id'],
                 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in sorted(CLAIMED, key=lambda p: p['id'])],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in sorted(DECLINED, key=lambda p: p['id'])],
     'notes': NOTES}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import subprocess
r = subprocess.run(['python3-vt', '-c', '''
import json, jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("%s/properties.jsonl"): jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open("%s/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
print("ok")''' % (V, V)])
sys.exit(r.returncode)
