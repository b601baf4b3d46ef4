"""Reading, plotting, rendering and reporting never change the model or its results: transitive effect analysis of every read operation."""
from rules.ctx import *
from sa.flow import Flow, ATTR_TY
from sa.types_ import TY

RULES = ('the transitive write set of every read operation (results, plots, renderings, reports), with the object each write lands on followed through calls, aliases and '
         'containers, contains nothing but the diagram caches, the local coordinates of quads, the contour values of the renderers and the renderers\' own state')
FLOOR = 80
VIS = ('Rendering', 'Visualization', 'Reporting')
CACHE = {'Member3D': {'_solved_combo', 'SegmentsX', 'SegmentsY', 'SegmentsZ', '__plt'}, 'PhysMember': {'_solved_combo', 'SegmentsX', 'SegmentsY', 'SegmentsZ'},
         'Quad3D': {'x1', 'x2', 'x3', 'x4', 'y1', 'y2', 'y3', 'y4'}}
SEGS = ('BeamSegZ', 'BeamSegY')
READERS = {'FEModel3D': ('K', 'Kg', 'Km', 'P', 'FER', 'D', 'load_cases', 'orphaned_nodes', 'unique_name', 'lookup')}
WHOLE = {'Member3D': (), 'PhysMember': ('descritize',), 'Spring3D': (), 'Plate3D': (), 'Quad3D': (), 'Node3D': (), 'BeamSegZ': (), 'BeamSegY': ()}
STATE = {a for d in TY.values() for a in d} | {'_D', 'NodeLoads', 'PtLoads', 'DistLoads', 'Releases', 'pressures', 'active'}


def check(ctx):
    repo = ctx.repo
    fl = Flow(repo)
    ctx.functions |= {f.qual for f in fl.funcs.values()}
    roots = []
    writers = set()
    helpers(fl, writers, lambda f: f.name.startswith('_not_ready_yet_') or f.cls is not None and f.name in WHOLE.get(f.cls.name, ()) or f.name == '__init__')
    for i, f in fl.funcs.items():
        if f.name.startswith('_not_ready_yet_') or f.name == '__init__' and f.mod.name not in VIS or i in writers:
            continue
        if f.mod.name in VIS:
            roots.append(f)
        elif f.cls is not None and f.cls.name in WHOLE:
            if f.name not in WHOLE[f.cls.name]:
                roots.append(f)
        elif f.cls is not None and f.name in READERS.get(f.cls.name, ()):
            roots.append(f)
        elif f.cls is not None and repo.is_a(f.cls.name, 'Mesh') and f.name.startswith(('max_', 'min_', 'is_')):
            roots.append(f)
    for f in roots:
        bad = []
        for w in fl.func(f).writes.values():
            if w.root[0] == 'n' or w.attr is None:
                continue
            if allowed(repo, f, w):
                continue
            bad.append('%s.%s is %s%s (%s)' % (w.cls or '?', w.attr, 'modified' if w.kind == 'mut' else 'assigned', ' of the object reached from ' + w.root[1] if w.root[0] == 'p' else '',
                                              w.src or w.where))
        ctx.ob('a read operation changes nothing but caches', f.qual, not bad, '; '.join(sorted(set(bad)))[:500], f.where)
        ctx.count('functions followed', len(fl.reachable(f)))


def helpers(fl, out, pred):
    """Private functions that some operation described by pred uses and nothing but such operations and their helpers."""
    callers = {}
    for g, hs in fl.calls.items():
        for h in hs:
            callers.setdefault(h, set()).add(g)
    base = {i for i, f in fl.funcs.items() if pred(f)}
    more = True
    while more:
        more = False
        for i, f in fl.funcs.items():
            if i not in base and i not in out and f.name.startswith('_') and not f.name.startswith('__'):
                c = callers.get(i, set()) - {i}
                if c and c <= base | out:
                    out.add(i)
                    more = True


def allowed(repo, f, w):
    c = w.cls
    if c == 'Renderer' or c is not None and c.startswith('Vis') or c in SEGS:
        return True
    if c is not None:
        for k, attrs in CACHE.items():
            if w.attr in attrs and (repo.is_a(c, k) or repo.is_a(k, c)):
                return True
        if c == 'Node3D' and w.attr == 'contour':
            return True
        # a private attribute that is not part of the model's state: a cache
        return w.attr.startswith('_') and w.attr not in STATE
    return w.attr not in STATE
