#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props
V = os.path.dirname(HERE)
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the checks compile the sources as they are. Repairs of genuine defects are the fix: commits listed in KNOWN_FINDINGS.'}
for p in props.PROPS:
    if p.get('na'):
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({
            'property': p['id'],
            'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p.get('technique', 'contract-based deductive verification of the LLVM IR of the real code (weakest-precondition style VCs discharged by z3)'),
            'level': 'proof', 'level_note': p['note'],
            'theorems': p.get('theorems', [])})
        if not m['checks'][-1]['theorems']:
            del m['checks'][-1]['theorems']
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
