import json, sys
sys.path.insert(0, '/verif/mc')
from checks import CHECKS
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = {}
if len(sys.argv) > 1:
    NA = json.load(open(sys.argv[1]))
m = dict(version=1, setup_cmd='python3 mc/run.py --selftest', checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        s = CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 mc/run.py %s' % p, thorough_cmd='python3 mc/run.py %s --tier thorough' % p,
            technique=s['technique'], level='model_checking',
            level_note=s.get('note', 'Complete enumeration of the bounded space below on the real code, no sampling; outside the bounds nothing is claimed. '
                'Trusts gcc 13 on x86-64 and the reference model (exact integers in __int128). Space: ' + s['space'])))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'the check is still being built')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
