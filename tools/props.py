#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  A property is claimed when checks/<id>/spec.py exists
   and it has no 'na' reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, na=None, level='proof', note='', technique='contract-based deductive verification (CBMC: contracts, loop invariants, ghost functions) of the functions taken mechanically from /repo', observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['v0100/' + f for f in files], mechanism=[dict(name=a, where='v0100/' + b) for a, b in mech], observe_at=list(observe), hook_needed=None),
        na=na, level=level, note=note, technique=technique))

exec(open(os.path.join(V, 'tools', 'proplist.py')).read())

assert len(set(p['id'] for p in P)) == len(P)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('na', 'level', 'note', 'technique')}) + '\n')
checks, na = [], []
for p in P:
    i = p['id']
    if not p['na'] and os.path.exists(os.path.join(V, 'checks', i, 'spec.py')):
        checks.append(dict(property=i, quick_cmd='python3 vf/vf.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 vf/vf.py ' + i,
            evidence_file='evidence/%s.json' % i, technique=p['technique'], level=p['level'], level_note=p['note'] or 'see DESIGN.md'))
    else:
        na.append(dict(property=i, reason=p['na'] or 'no check has been built for it: nothing is claimed'))
json.dump(dict(version=1, setup_cmd='python3 vf/vf.py setup', checks=checks, not_applicable=na,
    notes='Each check extracts the functions from /repo on every run, weaves the contracts in (insertions only) and discharges every obligation with CBMC; see DESIGN.md.'),
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
