#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, os.path.join(V, 'lib'))
import props
pl = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
ids = [p['id'] for p in pl]
checks = []; na = []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i} quick', thorough_cmd=f'python3-vt check.py {i} thorough',
                           technique=P.get('technique', 'contract-based deductive verification: VCs generated from the LLVM IR of the real code, discharged by polynomial algebra + SMT'),
                           level=P.get('level', 'proof'), level_note=P['note'] + ' Assumes real/mathematical-integer arithmetic in the proof; native runs of the same contracts on the real code are supporting evidence only.'))
    else: na.append(dict(property=i, reason=props.NA.get(i, 'not built')))
assert set(props.PROPS) <= set(ids), set(props.PROPS) - set(ids)
json.dump(dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
