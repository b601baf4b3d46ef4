"""Global stiffness and geometric stiffness assembly."""
from rules.ctx import *
from rules.common import families, CN

RULES = 'assembly: the matrix returned by each assembler (dense and sparse) equals the reference scatter of the element matrices of the active elements plus active support springs'
FLOOR = 8


def check(ctx):
    op = elem_opaque()
    for m in ('K', 'Kg', 'Km'):
        op['FEModel3D.' + m] = None
    want = {}
    with ctx.group('reference'):
        r = ctx.spec('assembly', 'K', [MODEL, CN], opaque=op)
        want['K'] = r.mat()
        for first in (True, False):
            r = ctx.spec('assembly', 'Kg', [MODEL, CN, first], opaque=op)
            want['Kg', first] = r.mat()
    for sparse in (True, False):
        form = 'sparse' if sparse else 'dense'
        with ctx.group('K ' + form, 'FEModel3D.K'):
            r = ctx.run('FEModel3D.K', [CN, False, False, sparse], self_=MODEL, opaque=op)
            families(ctx, 'global stiffness matrix', form, r.mat(), want['K'], 'FEModel3D.K')
        for first in (True, False):
            with ctx.group('Kg ' + form, 'FEModel3D.Kg'):
                r = ctx.run('FEModel3D.Kg', [CN, False, sparse, first], self_=MODEL, opaque=op)
                if r.dead:
                    ctx.ob('geometric stiffness matrix', '%s assembly' % form, False, 'assembly always raises %s' % ', '.join(sorted({x.exc for x in r.I.raises})), 'FEModel3D.Kg')
                    continue
                families(ctx, 'global geometric stiffness matrix', form + (', first step' if first else ', later step'), r.mat(), want['Kg', first], 'FEModel3D.Kg')
