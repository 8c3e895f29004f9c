#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import props
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        q = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        f.write(json.dumps(q) + '\n')
checks = []; na = []
for p in props.P:
    if 'na' in p:
        na.append(dict(property=p['id'], reason=p['na'])); continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                       technique=p['tech'], level='other', level_note=p['note']))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='Static analysis of the resolved program: /repo is compiled by clang to LLVM IR with type metadata on every run; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
