#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
checks=json.load(open(R+'/checks.json'))
m=dict(version=1,setup_cmd='bash engine/build.sh',checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in checks:
        m['checks'].append(dict(property=i,quick_cmd=f'bash run.sh {i} quick',thorough_cmd=f'bash run.sh {i} thorough',
            evidence_file=f'evidence/{i}.json',
            technique='symbolic execution of the Go SSA of the decoder with SMT (z3); counterexamples replayed natively',
            level='model_checking',
            level_note='Every document, prior value and history within the bounds given in DESIGN.md and the evidence file, for the destination types of the harness; nothing outside of them. Trusts the executor\'s Go/amd64 semantics (sampled path models are replayed natively and compared on every run), the models of run-time functions listed in the evidence, the reference decoder in harness/vref and z3.'))
    else:
        m['not_applicable'].append(dict(property=i,reason='no check has been built yet'))
m['notes']='The solver-based checker is /verif/engine (gosym); harnesses are in /verif/harness and reach /repo as an overlay. No hooks in /repo.'
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1); open(R+'/MANIFEST.json','a').write('\n')
