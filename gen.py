#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from propdefs.py (run after editing propdefs.py or spec.py)."""
import json, propdefs, spec
with open('properties.jsonl', 'w') as f:
    for p in propdefs.PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p.get('observe', []), hook_needed=None))) + '\n')
checks = []; na = []
for p in propdefs.PROPS:
    i = p['id']
    if i in spec.PROPS:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough', technique=p.get('technique', 'symbolic execution of the LLVM IR of the real sources (symx engine, Z3): every path within the bounds'),
            level='model_checking', level_note='Holds for every symbolic input, choice and crash point within: ' + spec.PROPS[i]['bounds'] + '. Assumes: ' + '; '.join(spec.COMMON_ASSUMPTIONS + spec.PROPS[i].get('assumptions', [])) + '. Says nothing outside these bounds.'))
    else: na.append(dict(property=i, reason=p['na']))
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the machinery compiles the unmodified sources to LLVM bitcode.'), open('MANIFEST.json', 'w'), indent=1)
