#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (single source)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'symbolic execution of LLVM IR + SMT'
W = 'The only test exercises the timing package once with real clocks; '
P = []
def prop(id, title, statement, over, text, files, mech, why, note='', na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, files=files, mech=mech, why=why, note=note, na=na, state=state))

exec(open(os.path.join(HERE, 'meta_props.py')).read())

ids = [p['id'] for p in P]; assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']: a['state'] = [dict(name=n, meaning=m) for n, m in p['state']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
import sys; sys.path.insert(0, HERE); import registry
for p in sorted(P, key=lambda p: p['id']):
    if p['na']: na.append(dict(property=p['id'], reason=p['na'])); continue
    assert p['id'] in registry.PROPS, p['id']
    b = '; '.join(f"{e['name']}: {e['bound']}" for e in registry.PROPS[p['id']]['entries'] if e.get('bound'))
    checks.append(dict(property=p['id'], quick_cmd=f"./check.py {p['id']} --tier quick", thorough_cmd=f"./check.py {p['id']} --tier thorough", technique=TECH, level='model_checking', level_note=(p['note'] + ' ' if p['note'] else '') + 'Real-arithmetic semantics for double; every value within the bounds. ' + (f'Bounds: {b}.' if b else '')))
json.dump(dict(version=1, setup_cmd='make -j4 -C /verif/engine OUT=/verif/build', checks=checks, not_applicable=na, notes='Single source: gen_meta.py + meta_props.py. Engine: engine/ (symbolic executor of LLVM IR with polynomial normal forms and z3). Harnesses: harness/. See DESIGN.md.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
missing = set(registry.PROPS) - set(ids)
if missing: print('registry entries without a property:', missing)
