#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl, checks.py and the reasons below
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
from notes import N, NA
GEN = ("Every execution path of the real code (bitcode built from the working tree) within the stated bounds is followed with symbolic inputs; "
       "each branch and assertion is decided by Z3 over all remaining values. Trusts clang's lowering, the executor (cross-checked against native runs on sampled paths), "
       "Z3, and the C library model; counterexamples are replayed on a native build before being reported. ")
m = dict(version=1, setup_cmd='./vf.py setup', checks=[], not_applicable=[], notes='Engine: /verif/engine (symbolic executor for LLVM IR, Z3). See DESIGN.md.')
for i in ids:
    if i in checks.PROPS:
        m['checks'].append(dict(property=i, quick_cmd=f'./vf.py {i} quick', thorough_cmd=f'./vf.py {i} thorough', evidence_file=f'evidence/{i}.json',
            technique='symbolic execution of the compiled code, SMT-decided (Z3)', level='model_checking', level_note=GEN + N[i][0] + ' ' + N[i][1]))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check has been built for this property yet')))
import subprocess
m['hooks'] = dict(guard='VERIF_SMALL_TABLES', enable='-DVERIF_SMALL_TABLES (vf.py adds it to its own builds)', source_commits=[c for c in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep=^hook:'], capture_output=True, text=True).stdout.split()] or ['hook'])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
