#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.md (prose) and the tables of notes.py, properties.jsonl and the findings"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'tools'))
import notes
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl')) if l.strip()]
title = {p['id']: p['title'] for p in props}
WALL = dict(D01='4 s', D02='15 s', D03='39 s', D04='12 s', D05='22 s', D06='25 s', D07='37 s', D08='11 s', D09='13 s', D10='90 s', D11='26 s', D12='60 s',
            R01='46 s', R02='22 s', R03='45 s', R04='48 s', R05='24 s', R06='74 s', R07='19 s', R08='81 s', R09='34 s', R10='19 s', R11='51 s', R12='44 s', R13='40 s',
            P01='33 s', P02='24 s', P03='75 s', P04='38 s', P05='35 s')
per = []
for p in props:
    i = p['id']
    if i in notes.N:
        how, b = notes.N[i]
        per.append(f"### {i} {title[i]}\n{how}\n\n{b}\n\nQuick run: about {WALL.get(i, '?')} on 8 cores.\n")
na = [f"* **{i} {title.get(i, '')}**: {why}" for i, why in notes.NA.items()]
fixed = [f"* {e['what'][len('fixed: '):]}" for e in json.load(open(os.path.join(root, 'known_findings.json'))) if e['status'] == 'fixed']
open_ = [f"* {e['property']}: {e['what']}" for e in json.load(open(os.path.join(root, 'known_findings.json'))) if e['status'] != 'fixed']
t = open(os.path.join(root, 'tools', 'design.md')).read()
t = t.replace('@@PER@@', '\n'.join(per)).replace('@@NA@@', '\n'.join(na)).replace('@@FIXED@@', '\n'.join(fixed))
t = t.replace('@@OPEN@@', '\n'.join(open_) or 'None.')
open(os.path.join(root, 'DESIGN.md'), 'w').write(t)
