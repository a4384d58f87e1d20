#!/usr/bin/env python3
# regenerates MANIFEST.json from jobs.PROPS, notes.json-like tables below
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import jobs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'S09': 'frexp, ldexp, modf and the float/text conversions are x87 inline assembly or rest on it; there is no IR of the real code to encode, and a model of x87 arithmetic would replace the code under check.'}
checks = []; na = []
for p in props:
    i = p['id']
    if i in jobs.PROPS:
        d = jobs.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': 'solver-based checking of the real code: ' + d.get('technique', 'bounded symbolic execution of the clang IR of the real sources (vsym) with z3 deciding every branch and assertion; counterexamples replayed natively'),
            'level': 'model_checking', 'level_note': d.get('note', 'Decided for all inputs within the bounds listed per job in the evidence; nothing is claimed outside them.')})
    else: na.append({'property': i, 'reason': NA.get(i, 'No check has been built for it (yet); see DESIGN.md.')})
json.dump({'version': 1, 'setup_cmd': 'bash vsym/build.sh', 'hooks': {'guard': 'VSYM_HOOKS', 'enable': 'none needed: no hook is compiled into /repo', 'source_commits': []}, 'checks': checks, 'not_applicable': na,
  'notes': 'Every check recompiles the relevant /repo sources to LLVM bitcode on every run.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
