"""Fixed end reactions."""
from rules.ctx import *
from rules.common import *
from rules import finite

RULES = ('every component of each fixed end reaction function equals (polynomial identity) the work-equivalent reaction '
         'from the exact beam shape functions; every component of the assembled member vector equals the reference sum')
FLOOR = 8
P, X, L, W1, W2, X1, X2 = (num(n) for n in ('P', 'x', 'L', 'w1', 'w2', 'x1', 'x2'))
FUNCS = [('FER_PtLoad', [P, X, L, 'Fy']), ('FER_PtLoad', [P, X, L, 'Fz']), ('FER_Moment', [P, X, L, 'My']), ('FER_Moment', [P, X, L, 'Mz']),
         ('FER_LinLoad', [W1, W2, X1, X2, L, 'Fy']), ('FER_LinLoad', [W1, W2, X1, X2, L, 'Fz']),
         ('FER_AxialPtLoad', [P, X, L]), ('FER_AxialLinLoad', [W1, W2, X1, X2, L]), ('FER_Torque', [P, X, L])]
MEMBER = sym('member', 'Member3D')
OPQ = {k: v for k, v in elem_opaque().items() if k in ('Member3D.L', 'Member3D.T')}
COMP = ('axial i', 'shear y i', 'shear z i', 'torque i', 'moment y i', 'moment z i', 'axial j', 'shear y j', 'shear z j', 'torque j', 'moment y j', 'moment z j')


def vec12(ctx, rule, form, got, want, where):
    if not isinstance(got, MatC) or not isinstance(want, MatC) or len(got.e) != len(want.e):
        return ctx.ob(rule, form, None, 'vector not modelled: %s' % type(got).__name__, where)
    for n, g, w in zip(COMP, got.e, want.e):
        ctx.eq(rule, '%s, %s' % (form, n), g, w, where)


def check(ctx):
    for name, args in FUNCS:
        q = 'FixedEndReactions.' + name
        if not ctx.repo.has(q):
            continue      # (the assembled member vector below covers loads however they are computed)
        with ctx.group('formula ' + name, q):
            form = name + (' ' + args[-1] if isinstance(args[-1], str) else '')
            vec12(ctx, 'fixed end reaction formula', form, ctx.run(q, args).mat(), ctx.spec('beam', name, args).mat(), q)
    q = 'Member3D._fer_unc'
    with ctx.group('member vector', q):
        r = ctx.run(q, [CN], self_=MEMBER, opaque=OPQ)
        w = ctx.spec('beam', 'fer_unc', [MEMBER, CN], opaque=OPQ)
        vec12(ctx, 'member fixed end reactions', 'combination', r.mat(), w.mat(), q)
    definite(ctx, 'member fixed end reactions')


def definite(ctx, rule):
    q = 'Member3D._fer_unc'
    with ctx.group('member vector, definite loads', q):
        pre = finite.heap(MEMBER, {'PtLoads': finite.point_loads(), 'DistLoads': finite.dist_loads()})
        r = ctx.run(q, [CN], self_=MEMBER, opaque=OPQ, pre=pre)
        w = ctx.spec('beam', 'fer_unc', [MEMBER, CN], opaque=OPQ, pre=pre)
        vec12(ctx, rule, 'loads of two cases', r.mat(), w.mat(), q)
