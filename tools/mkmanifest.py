#!/usr/bin/env python3
import json, sys, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/lib')
import props
NA = props.NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in props.PROPS: assert i in NA, i; continue
    P = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
        technique='symbolic execution of the LLVM IR of the real crates with z3 (bounded), counterexamples replayed natively', level='model_checking',
        level_note='Every path and every value within the bounds: ' + P['bounds']['quick'] + '. Outside: ' + (P.get('outside') or '-') + '.' + (' Stubs: ' + '; '.join(P['stubs']) + '.' if P.get('stubs') else '') + ' Trusts rustc\'s IR generation, the executor in /verif/symex (cross-checked by native runs of sampled paths) and z3.'))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[dict(property=k, reason=NA[k]) for k in ids if k in NA and k not in props.PROPS], notes='No hooks in /repo; harness crates use the public API only.'), open(R + '/MANIFEST.json', 'w'), indent=1)
