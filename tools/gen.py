#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note, technique="exhaustive bounded enumeration of calls on the real library vs an exact reference model", observe=None, state=None, claim=True, reason=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = state
    P.append((d, level_note, technique, claim, reason))
exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, *_ in P: f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd="bash ./setup.sh", checks=[], not_applicable=[])
for d, note, tech, claim, reason in P:
    if claim:
        m['checks'].append(dict(property=d['id'], quick_cmd="bash ./check.sh %s --tier quick" % d['id'], thorough_cmd="bash ./check.sh %s --tier thorough" % d['id'],
                                technique=tech, level="model_checking", level_note=note))
    else:
        m['not_applicable'].append(dict(property=d['id'], reason=reason))
m['notes'] = "See DESIGN.md. No hooks are compiled into /repo; /repo carries fix: commits only (known_findings.txt)."
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
