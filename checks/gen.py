"""regenerates properties.jsonl and MANIFEST.json from props.py and claims.py"""
import json
import os
import props
import claims
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for d, *_ in props.PROPS:
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for d, tech, note, why in props.PROPS:
    i = d['id']
    if i in claims.CLAIMS:
        c = claims.CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='python3 checks/run.py ' + i, thorough_cmd='python3 checks/run.py %s --thorough' % i,
                           technique=c.get('technique', claims.T_CMP), level=c.get('level', 'other'), level_note=c.get('note', claims.NOTE_T)))
    else:
        na.append(dict(property=i, reason=why or 'not built yet'))
json.dump(dict(version=1, setup_cmd='python3 checks/build.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
