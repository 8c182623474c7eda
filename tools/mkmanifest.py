"""writes MANIFEST.json from the claims below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
claims = json.load(open(os.path.join(H, 'tools', 'claims.json')))
man = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
lv = {}
for p in props:
    c = claims[p['id']]
    if 'na' in c: man['not_applicable'].append(dict(property=p['id'], reason=c['na'])); continue
    lv[p['id']] = c['level']
    man['checks'].append(dict(property=p['id'], quick_cmd='VERIF_TIER=quick python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
        evidence_file='evidence/%s.json' % p['id'], technique=c['technique'], level=c['level'], level_note=c['note']))
man['notes'] = 'Contracts in contracts/, verification-condition generator in pyvc/, replay on the real code in replay/. No hooks in /repo.'
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
json.dump(lv, open(os.path.join(H, 'levels.json'), 'w'), indent=1)
print(len(man['checks']), 'claimed,', len(man['not_applicable']), 'not')
