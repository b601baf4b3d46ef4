#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the properties, the rules' RULES texts, tools/techniques.py and seeded/*/meta.json."""
import json, os, glob, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
src = open(os.path.join(V, 'tools', 'mkmanifest.py')).read()
NA = ast.literal_eval(src[src.index('NA = {') + 5:src.index('}\nTECH') + 1])
out = [open(os.path.join(V, 'tools', 'design_head.md')).read(), '\n## Property by property\n']
seeds = {}
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))


def rules(i):
    p = os.path.join(V, 'rules', i + '.py')
    if not os.path.exists(p):
        return None
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'RULES':
            return ast.literal_eval(n.value)


for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    r = rules(i)
    out.append('\n### %s %s\n' % (i, d['title']))
    if r is None:
        out.append('Not applicable: %s.\n' % NA.get(i, 'no check built yet'))
        continue
    out.append('*Method*: %s.\n\n*Decided*: %s.\n\n*Scope and bounds*: %s\n' % (TECH[i], r, BOUND[i]))
    if i in seeds:
        out.append('\n*Planted*: ' + '; '.join('`%s` (caught)' % n if not x.get('missed') else '`%s` (missed)' % n for n, x in seeds[i]) + '.\n')
out.append(open(os.path.join(V, 'tools', 'design_tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))
