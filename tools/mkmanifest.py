#!/usr/bin/env python3
# Regenerates MANIFEST.json from jobs.py and properties.jsonl.
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from jobs import JOBS, NOTE, NA
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in JOBS: checks.append(dict(property=i, quick_cmd='./check.py ' + i, thorough_cmd='VERIF_TIER=thorough ./check.py ' + i, technique='symbolic execution of the real C++ (LLVM IR) with Z3 deciding every branch side, native replay', level='model_checking',
        level_note=NOTE.get(i, 'Bounded: holds for every value of the symbolic inputs within the bounds listed per job in the evidence; nothing is claimed outside them. Trusts the symbolic engine (cross-checked by native replay of path models), Z3 and clang.')))
    else: na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
m = dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na, notes='See DESIGN.md. check.py compiles the harnesses of a property against /repo/src on every run, executes them symbolically and replays every counterexample natively before reporting it.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', len(na), 'not applicable')
