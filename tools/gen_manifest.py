#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the property table"""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from claims import CLAIMS, NOT_APPLICABLE, NOTES
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i in CLAIMS:
        checks.append(dict(property=i, quick_cmd=f'./check.py {i}', thorough_cmd=f'VERIF_TIER=thorough ./check.py {i}',
                           technique='contract-based deductive verification of the compiled MIR (mirv + z3/cvc5)',
                           level='proof', level_note=CLAIMS[i]))
na = [dict(property=i, reason=NOT_APPLICABLE[i]) for i in ids if i not in CLAIMS]
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd='./build.sh /verif/work', hooks=dict(guard='cfg(pddl_verif)', enable='RUSTFLAGS="--cfg pddl_verif" (build.sh, dump.sh)', source_commits=hook),
         checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
