"""A member that is inactive for a combination carries nothing in it."""
from rules.members import *

RULES = ('with the activity of the member false for the combination every point query, extreme and array of its internal forces has the normal form zero (array: zero at every '
         'requested position), for members and for physical members in one and three parts, and the global stiffness contains no term of it')
FLOOR = 30


def opaque():
    op = dict(seg_opaque())
    op['Member3D._segment_member'] = (None, True)
    return op


def zero_row(y, xs):
    """True: zero at every position; False: something else; None: form not known."""
    if isnum(y):
        return y == 0
    if isinstance(y, Term) and y.op == 'seq':
        its = y.args[0]
        if len(its) == 1 and its[0][0] == 'f' and len(its[0][2]) == 1 and its[0][2][0][0] == 'x':
            v = its[0][2][0][1]
            return same(v, 0) if not unmodelled(v) else None
    if isinstance(y, Term) and y.op == 'scat' and len(y.args) == 2 and isnum(y.args[1]):
        return y.args[1] == 0
    return None if unmodelled(y) else False


def check(ctx):
    from rules.R02 import rows
    cases = [('member', Heap(3), 'Member3D')] + [('physical member in %d part%s' % (n, 's' if n > 1 else ''), Parts(n), 'PhysMember') for n in (1, 3)]
    for label, H, cls in cases:
        L = L_of(H.m)
        for sol in ('Linear', 'P-Delta'):
            pre = lambda I, st: H.pre(I, st, sol, False)

            def ask(q, args, kw=None):
                f = '%s.%s' % (cls, q)
                if not ctx.repo.has(f):
                    f = 'Member3D.' + q
                return ctx.run(f, list(args) + [CN1], kw, self_=H.m, pre=pre, opaque=opaque()), f

            for q in FORCES:
                for d, (ax, op, takes) in POINT[q].items():
                    con = ' '.join([label, q] + ([d] if d else []) + [sol])
                    with ctx.group('point ' + con):
                        r, f = ask(q, args_of(d, X))
                        v = r.fz()
                        for lab, k, order, pt in regions([0] + partial(H) if cls == 'PhysMember' else H.xs):
                            ctx.eq('point value of an inactive member is zero', con, at_region(v, order, pt), 0, f, lab)
                    for mm in ('max', 'min'):
                        with ctx.group('extreme ' + con):
                            r, f = ask('%s_%s' % (mm, q), args_of(d))
                            ctx.eq('extreme of an inactive member is zero', mm + ' ' + con, r.fz(), 0, f)
                    with ctx.group('array ' + con):
                        for kw, xs in ((None, linspace(L, num('n_points'))), ({'x_array': mk('linspace', num('u'), num('v'), num('w'))}, mk('linspace', num('u'), num('v'), num('w')))):
                            r, f = ask(q + '_array', args_of(d, num('n_points')), kw)
                            v = r.fz()
                            rw = rows(v)
                            if rw is None:
                                ctx.ob('array of an inactive member is zero', con, None, 'form of the result not recognised: %s' % show(v)[:300], f)
                                continue
                            y = rw[1]
                            items = y.args[0] if isinstance(y, Term) and y.op == 'seq' else None
                            if cls == 'PhysMember' and items is not None and len(items) == 1 and items[0][0] == 'f' and len(items[0][2]) == 1:
                                x = items[0][1]
                                for lab, k, order, pt in regions([0] + partial(H), x):
                                    ctx.eq('array of an inactive member is zero', con, at_region(items[0][2][0][1], order, pt, x), 0, f, lab)
                            else:
                                ctx.ob('array of an inactive member is zero', con, zero_row(y, xs), 'values are %s' % show(y)[:300], f)
    stiffness(ctx)


def stiffness(ctx):
    """The assembled matrices of a model with one member contain its stiffness when it is active and nothing of it when it is not."""
    op = elem_opaque()
    for m in ('K', 'Kg'):
        op['FEModel3D.' + m] = None
    for f in ('FEModel3D.K', 'FEModel3D.Kg'):
        for sparse in (True, False):
            for active in (True, False):
                con = '%s %s, member %s' % (f, 'sparse' if sparse else 'dense', 'active' if active else 'inactive')
                H = Parts(2)

                def pre(I, st):
                    H.pre(I, st, 'Linear', active)
                    st.loc[('a', MODEL, 'members')] = I.newref(st, DictC((), ((sym('member name', 'str'), H.m),)))

                with ctx.group(con):
                    a = [CN1, False] + ([False, sparse] if f.endswith('K') else [sparse, False])
                    r = ctx.run(f, a, self_=MODEL, pre=pre, opaque=op)
                    v = r.fz()
                    calls = [t for t in atoms_of(v) if t.op == 'call' and t.args[0] in ('Member3D.K', 'Member3D.Kg') and t.args[1] in H.subs]
                    if active:
                        ctx.ob('an active member contributes its stiffness', con, True if calls else (None if unmodelled(v) else False), 'no term of the member', f)
                    else:
                        ctx.ob('an inactive member contributes no stiffness', con, False if calls else True, 'contains %s' % show(calls)[:300], f)


def partial(H):
    out, s = [], 0
    for l in H.Ls:
        s = alg.add(s, l)
        out.append(s)
    return out
