#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table in tools/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props import PROPS, NA, TRUST, NOTES

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['forall']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'],
                              mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        f.write(json.dumps(d) + '\n')
m = dict(version=1,
         setup_cmd='./setup.sh',
         checks=[dict(property=p['id'], quick_cmd='./check %s' % p['id'],
                      thorough_cmd='./check %s --thorough' % p['id'],
                      technique=p.get('tech', 'path-sensitive typestate and value-numbering dataflow over clang CFGs of the current source'),
                      level='other', level_note=p['note'] + ' ' + TRUST)
                 for p in PROPS],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
         notes=NOTES)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'claimed', len(NA), 'not applicable')

# ---- DESIGN.md
import ast
def rule_texts(pid):
    p = os.path.join(H, 'rules', pid.lower() + '.py')
    out = []
    for n in ast.walk(ast.parse(open(p).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule' and len(n.args) == 2:
            try:
                out.append((n.lineno, ast.literal_eval(n.args[0]), ast.literal_eval(n.args[1])))
            except ValueError:
                pass
    return [(a, b) for _, a, b in sorted(out)]

with open(os.path.join(H, 'DESIGN.md'), 'w') as f:
    f.write(open(os.path.join(H, 'tools/design_head.md')).read())
    f.write('\n## Properties\n')
    for p in PROPS:
        f.write('\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement']))
        f.write('*Quantifies over* %s: %s. *Why tests cannot settle it:* %s\n\n' % (', '.join(p['over']), p['forall'], p['why']))
        f.write('*How it is decided* (%s): %s Rules:\n\n' % (', '.join(p['files']), p['note']))
        for a, b in rule_texts(p['id']):
            f.write('- **%s**: %s\n' % (a, b))
        if p.get('limits'):
            f.write('\n*Limits:* %s\n' % p['limits'])
    f.write('\n## Not applicable\n\n')
    for p in NA:
        f.write('- **%s %s**: %s\n' % (p['id'], p['title'], p['reason']))
    f.write('\n' + open(os.path.join(H, 'tools/design_tail.md')).read())
