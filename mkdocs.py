#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from meta.py and spec.py (developer tool; the results are committed)."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import meta, spec
assert os.system('true') == 0
ids = [p['id'] for p in meta.PROPERTIES]
assert len(set(ids)) == len(ids)
with open('properties.jsonl', 'w') as f:
    for p in meta.PROPERTIES:
        assert len(p['title']) <= 80, p['title']
        a = dict(files=p['files'], mechanism=p['mech'])
        if p['state']: a['state'] = p['state']
        if p['observe']: a['observe_at'] = p['observe']
        a['hook_needed'] = None
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
                                why_tests_cant=p['why'], anchors=a), ensure_ascii=False) + '\n')
checks, na = [], []
for p in meta.PROPERTIES:
    if p['na']:
        assert p['id'] not in spec.PROPS
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    s = spec.PROPS[p['id']]
    b = s['bounds']['quick'] if isinstance(s['bounds'], dict) else s['bounds']
    assert b != 'x', p['id']
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       technique='symbolic execution of the compiled code (LLVM IR) with Z3 deciding every branch and assertion',
                       level='other', evidence_file='evidence/%s.json' % p['id'],
                       level_note='Bounded: holds for every input within: ' + b + '. ' + ('Outside: ' + s['outside'] + '. ' if s.get('outside') else '') +
                       'Trusted: rustc code generation to LLVM IR, the executor in engine/, Z3; models of explored paths are replayed natively on every run.'
                       + (' Stubs: ' + s['stubs'] + '.' if s.get('stubs') else '')))
m = dict(version=1, setup_cmd='python3 setup.py', hooks=dict(guard='none', enable='no hooks: the checks compile the sources of /repo as they are', source_commits=[]),
         checks=checks, not_applicable=na, notes=spec.NOTES)
json.dump(m, open('MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open('MANIFEST.json', 'a').write('\n')
# DESIGN.md
out = []
for p in meta.PROPERTIES:
    out.append('### %s %s\n' % (p['id'], p['title']))
    if p['na']:
        out.append('Not applicable: ' + p['na'] + '\n')
        continue
    s = spec.PROPS[p['id']]
    out.append(p['statement'] + '\n')
    out.append('*How it is decided.* ' + meta.HOW[p['id']] + '\n')
    out.append('*Bounds (quick).* ' + s['bounds']['quick'] + '.\n\n*Bounds (thorough).* ' + s['bounds']['thorough'] + '.\n')
    if s.get('outside'): out.append('*Outside.* ' + s['outside'] + '.\n')
    if s.get('stubs'): out.append('*Stand-ins.* ' + s['stubs'] + '.\n')
    out.append('*Why tests cannot.* ' + p['why'] + '\n')
seeded = []
for d in sorted(os.listdir('seeded')):
    m2 = json.load(open('seeded/%s/meta.json' % d))
    seeded.append('| %s | %s | %s | %s |' % (d, m2['property'], m2['what_it_breaks'].replace('|', '/').replace('\n', ' '), meta.MISSED.get(d, 'yes')))
t = open('DESIGN.in.md').read()
open('DESIGN.md', 'w').write(t.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(seeded)))
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open('properties.jsonl'):
        jsonschema.validate(json.loads(l), sc)
    print('valid', len(checks), 'checks,', len(na), 'not applicable')
except ImportError:
    print('written (no jsonschema here; run with python3-vt)')
