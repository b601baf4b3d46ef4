"""Global nodal force vector and global fixed end reaction vector."""
from rules.ctx import *
from rules.common import *
from rules import finite
from rules.members import distinct
from sa.dom import MatC

RULES = 'assembly: the vectors returned for a load combination equal the reference scatter of the element fixed end reactions and of the factored nodal loads'
FLOOR = 8


def check(ctx):
    op = elem_opaque()
    for m in ('P', 'FER'):
        op['FEModel3D.' + m] = None
    for m, rule in (('FER', 'global fixed end reaction vector'), ('P', 'global nodal force vector')):
        with ctx.group(rule, 'FEModel3D.' + m):
            w = ctx.spec('assembly', m, [MODEL, CN], opaque=op)
            r = ctx.run('FEModel3D.' + m, [CN], self_=MODEL, opaque=op)
            if r.dead:
                ctx.ob(rule, 'assembly', False, 'always raises %s' % ', '.join(sorted({x.exc for x in r.I.raises})), 'FEModel3D.' + m)
                continue
            families(ctx, rule, m, r.mat(), w.mat(), 'FEModel3D.' + m)
    # every load direction the model accepts is assembled
    with ctx.group('directions', 'FEModel3D.P'):
        p = r.mat().p
        for d in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ'):
            ctx.ob('every nodal load direction is assembled', d, any(is_str(t, d) for t in atoms_of(p)), 'no entry depends on loads in direction ' + d, 'FEModel3D.P')
    definite(ctx, 'global nodal force vector')


def definite(ctx, rule):
    """Two nodes with a definite list of loads each."""
    q = 'FEModel3D.P'
    with ctx.group('nodal loads, definite', q):
        op = elem_opaque()
        op[q] = None
        nodes = [sym('node 1', 'Node3D'), sym('node 2', 'Node3D')]
        lists = [finite.node_loads(), [('FY', num('M0'), finite.A), ('FX', num('M1'), finite.OUT)]]

        def pre(I, st):
            finite.heap(MODEL, {})(I, st)
            distinct(st, nodes)
            put = lambda o, a, v: st.loc.__setitem__(('a', o, a), v)
            put(MODEL, 'nodes', I.newref(st, finite.DictC((), tuple((n.args[0] + ' name', n) for n in nodes))))
            for i, (n, l) in enumerate(zip(nodes, lists)):
                put(n, 'ID', i)
                put(n, 'NodeLoads', I.newref(st, finite.ListC(tuple(('x', x) for x in l))))
        r, w = ctx.run(q, [CN], self_=MODEL, opaque=op, pre=pre), ctx.spec('assembly', 'P', [MODEL, CN], opaque=op, pre=pre)
        if r.dead:
            return ctx.ob(rule, 'definite loads', False, 'always raises %s' % ', '.join(sorted({x.exc for x in r.I.raises})), q)
        g, v = r.mat(), w.mat()
        if isinstance(g, MatC) and isinstance(v, MatC) and len(g.e) == len(v.e):
            for i, (a, b) in enumerate(zip(g.e, v.e)):
                ctx.eq(rule, 'definite loads, entry %d' % i, a, b, q)
        else:
            ctx.ob(rule, 'definite loads', None, 'vector not modelled: %s' % type(g).__name__, q)


def is_str(t, d):
    return any(a == d for a in t.args if isinstance(a, str)) or any(isinstance(a, Poly) and d in show(a) for a in t.args)
