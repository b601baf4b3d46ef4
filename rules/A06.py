"""Support reactions."""
from rules.ctx import *
from rules.common import *
from rules import finite
from sa.dom import dict_get, MISSING

RULES = 'the value stored in each of the six reaction tables of every node for every requested combination equals the reference sum, element family by element family'
FLOOR = 8
DIRS = (('RxnFX', 0), ('RxnFY', 1), ('RxnFZ', 2), ('RxnMX', 3), ('RxnMY', 4), ('RxnMZ', 5))


def check(ctx):
    q = 'Analysis._calc_reactions'
    op = elem_opaque()
    with ctx.group('reactions', q):
        r = ctx.run(q, [MODEL], opaque=op)
        for name, i in DIRS:
            c = store(r, NODE, name, 'dict:num')
            s = dict_sets(c)
            cn = mk_attr(COMBO, 'name', 'str')
            if len(s) != 1 or s[0][0] is None:
                # (several writes: only decide when nothing is written at all)
                ctx.ob('reaction stored', name, False if not s and not r.I.unk else None, 'writes to the reaction table: %s' % show([(k, v) for k, v, _, _ in s])[:300], q)
                continue
            k, v, loops, conds = s[0]
            ctx.ob('reaction stored for every combination', name, True if COMBO in loops and not conds and same(k, cn) else None, 'stored under %s in loops over %s if %s' % (show(k), show(loops), show(conds)), q)
            w = ctx.spec('analysis', 'reaction', [MODEL, NODE, COMBO, i], opaque=op)
            by_family(ctx, 'reaction value', name, v, w.fz(), q)
    definite(ctx, 'reaction value')


def definite(ctx, rule):
    """One supported node that carries a definite list of loads and nothing else."""
    q = 'Analysis._calc_reactions'
    op = elem_opaque()
    nd = sym('node', 'Node3D')
    with ctx.group('reactions, definite', q):
        def pre(I, st):
            finite.heap(nd, {'NodeLoads': finite.node_loads()})(I, st)
            put = lambda o, a, v: st.loc.__setitem__(('a', o, a), v)
            put(MODEL, 'nodes', I.newref(st, finite.DictC((), (('node name', nd),))))
            put(nd, 'ID', 0)
            for a in ('springs', 'members', 'plates', 'quads'):
                put(MODEL, a, I.newref(st, finite.DictC((), ())))
            for d in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ'):
                put(nd, 'support_' + d, True)
                put(nd, 'spring_' + d, I.newref(st, finite.ListC((('x', None), ('x', None), ('x', None)))))
        r = ctx.run(q, [MODEL], opaque=op, pre=pre)
        if r.dead:
            return ctx.ob(rule, 'definite loads', False, 'always raises %s' % ', '.join(sorted({x.exc for x in r.I.raises})), q)
        for name, i in DIRS:
            c = store(r, nd, name, 'dict:num')
            v = dict_get(c, CN) if isinstance(c, finite.DictC) else None
            v = None if v is MISSING else v
            w = ctx.spec('analysis', 'reaction', [MODEL, nd, finite.LC, i], opaque=op, pre=pre)
            if v is None:
                ctx.ob(rule, name + ' with definite loads', None, 'not stored under the name of the combination', q)
            else:
                ctx.eq(rule, name + ' with definite loads', r.fz(v), w.fz(), q)
