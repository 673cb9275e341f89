#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and checks/info.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
C = {}      # id -> dict(technique, note, real, sim)
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=None, note='', real=None, sim=None, na=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None))
    P.append(d)
    C[id] = dict(technique=technique, note=note, real=real, sim=sim, na=na)
exec(open(V+'/tools/props.py').read())
with open(V+'/properties.jsonl', 'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
checks = [dict(property=d['id'], quick_cmd='python3 check.py %s quick' % d['id'], thorough_cmd='python3 check.py %s thorough' % d['id'],
    technique=C[d['id']]['technique'], level='exploration', level_note=C[d['id']]['note']) for d in P if not C[d['id']]['na']]
m = dict(version=1, setup_cmd='python3 sim/build.py',
    hooks=dict(guard='none (no source hook was needed)', enable='the unmodified sources are compiled with -fsanitize=thread call-backs and linked against the simulation runtime in /verif/sim', source_commits=[]),
    checks=checks, not_applicable=[dict(property=d['id'], reason=C[d['id']]['na']) for d in P if C[d['id']]['na']])
json.dump(m, open(V+'/MANIFEST.json', 'w'), indent=1)
json.dump({d['id']: {k: C[d['id']][k] for k in ('real', 'sim') if C[d['id']][k]} for d in P}, open(V+'/checks/info.json', 'w'), indent=1)
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d in P: jsonschema.validate(d, s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('schemas ok:', len(P), 'properties,', len(checks), 'checks')
except ImportError: pass
