"""A member with intermediate nodes reports as one continuous member."""
from rules.members import *

RULES = ('the normal form of every result query of a physical member with three symbolic parts: the part containing the position is asked for the value at the position '
         'measured from its start, extremes are the extremes over all parts, arrays are the point values in order, end forces come from the outer parts')
FLOOR = 30


def part_opaque():
    op = {}
    for m in ('shear', 'moment', 'torque', 'axial', 'deflection', 'rel_deflection'):
        op['Member3D.' + m] = ('num', False)
        for k in ('max_', 'min_'):
            op['Member3D.' + k + m] = ('num', False)
        op['Member3D.%s_array' % m] = ('mat:2,N', False)
        op['PhysMember.' + m] = None
        op['PhysMember.%s_array' % m] = None
        for k in ('max_', 'min_'):
            op['PhysMember.' + k + m] = None
    op['Member3D._segment_member'] = (None, True)
    for m in ('f', 'F', 'd'):
        op['Member3D.' + m] = (V12, False)
    op['Member3D.T'] = (M12, False)
    op['Member3D.L'] = ('num', False)
    op['PhysMember.f'] = op['PhysMember.F'] = None
    return op


class Whole(Parts):
    """The parts cover the member: their lengths add up to the length of the member."""

    def __init__(self, n):
        Parts.__init__(self, n)
        self.ends = [0] + [num('xpart%d' % i) for i in range(1, n)] + [num('Lwhole')]

    def norm(self, v):
        """Lengths of the parts in terms of the positions of their ends."""
        if not isinstance(v, (Term, Poly, Phi)):
            return v
        m = {self.Ls[i]: alg.sub(self.ends[i + 1], self.ends[i]) for i in range(self.n)}
        m[L_of(self.m)] = self.ends[-1]
        return subst(v, m)


def ask(ctx, H, q, args, kw=None, active=True, default=False, extra=None):
    op = dict(part_opaque(), **(extra or {}))
    f = 'PhysMember.' + q
    if not ctx.repo.has(f):
        f = 'Member3D.' + q
    r = ctx.run(f, list(args) + ([] if default else [CN1]), kw, self_=H.m, pre=lambda I, st: H.pre(I, st, 'Linear', active), opaque={k: v for k, v in op.items() if v is not None or k.startswith('PhysMember')})
    return r, f


def own(cls, v):
    """Results asked of the whole member as if it was undivided."""
    return [t for t in atoms_of(v) if t.op == 'call' and str(t.args[0]).startswith('BeamSeg')] if isinstance(v, (Term, Poly, Phi)) else []


def check(ctx):
    for n in (1, 3):
        H = Whole(n)
        for q, dirs in POINT.items():
            for d in dirs:
                con = '%s%s' % (q, ' ' + d if d else '')
                with ctx.group('position ' + con):
                    r, f = ask(ctx, H, q, args_of(d, X))
                    places(ctx, H, 'the part containing the position answers', con, H.norm(r.fz()), q, d, f)
                if n == 1:
                    continue
                with ctx.group('array ' + con):
                    for label, kw, xs in (('evenly spaced', None, linspace(L_of(H.m), num('n_points'))), ('given positions', {}, mk('linspace', num('u'), num('v'), num('w')))):
                        if kw is not None:
                            kw = {'x_array': xs}
                        r, f = ask(ctx, H, q + '_array', args_of(d, num('n_points')), kw)
                        array_(ctx, H, con, label, r.fz(), xs, q, d, f)
        for q, dirs in list(EXTREME.items()) + [('deflection', {'dx': 0, 'dy': 0, 'dz': 0})]:
            for d in dirs:
                for mm in ('max', 'min'):
                    with ctx.group('extreme ' + q):
                        r, f = ask(ctx, H, mm + '_' + q, args_of(d))
                        want = [mk('call', 'Member3D.%s_%s' % (mm, q), s, *args_of(d, CN1), ty='num') for s in H.subs]
                        want = want[0] if n == 1 else mk(mm, frozenset(want), ty='num')
                        ctx.eq('extremes are taken over all parts', '%s %s%s' % (mm, q, ' ' + d if d else ''), r.fz(), want, f)
        with ctx.group('end forces'):
            r, f = ask(ctx, H, 'f', [])
            ends(ctx, H, r, r.fz(), 'local end forces', 'f', f)
        with ctx.group('global end forces'):
            r, f = ask(ctx, H, 'F', [], extra={'PhysMember.f': (V12, False)})
            from sa.models import as_mat, mat_mul
            from sa.dom import m_inv
            T = mk('call', 'Member3D.T', H.m, ty=M12)
            fv = [t for t in atoms_of(r.fz()) if t.op == 'call' and str(t.args[0]).endswith('.f') and t.args[1] is H.m]
            if len(fv) != 1:
                ctx.ob('global end forces are the local ones transformed', 'F', None, 'form not recognised: %s' % show(r.fz())[:200], f)
            else:
                want = mat_mul(r.I, r.st, as_mat(r.I, r.st, m_inv(T)), as_mat(r.I, r.st, fv[0]))
                ctx.eq('global end forces are the local ones transformed', 'F', r.fz(), nc_term(want), f)


def part_value(q, d, part, x):
    return mk('call', 'Member3D.' + q, part, *args_of(d, x, CN1), ty='num')


def places(ctx, H, rule, con, v, q, d, f, x=X):
    for lab, k, order, pt in regions(H.ends, x):
        got = H.norm(at_region(v, order, pt, x))
        spots = [(H.subs[k], alg.sub(pt, H.ends[k]))]
        if k > 0 and pt is not x and same(pt, H.ends[k]):
            spots.append((H.subs[k - 1], alg.sub(pt, H.ends[k - 1])))
        if q != 'rel_deflection':
            want = [part_value(q, d, *s) for s in spots]
        else:
            i, j = (1, 7) if d == 'dy' else (2, 8)
            dv = lambda m, i: mk('at', mk('call', 'Member3D.d', m, CN1, ty=V12), i, 0, ty='num')
            L = H.ends[-1]
            want = []
            for a, b in ((dv(H.m, i), dv(H.m, j)), (dv(H.subs[0], i), dv(H.subs[-1], j))):
                line = alg.add(a, alg.mul(alg.div(alg.sub(b, a), L), pt))
                want += [alg.sub(part_value('deflection', d, *s), line) for s in spots]
        for w in want[1:]:
            if same(got, w) or arith(got) and arith(w) and alg.equal(got, w):
                ctx.ob(rule, con, True, '', f)
                break
        else:
            ctx.eq(rule, con, got, want[0], f, lab)


def array_(ctx, H, con, label, v, xs, q, d, f):
    from rules.R02 import rows, seq_of
    rule = 'array values are the values of the parts (%s)' % label
    if own('', v):
        return ctx.ob(rule, con, False, 'the array is put together from segments of the undivided member', f)
    whole = [t for t in atoms_of(v) if t.op == 'call' and t.args[1] is H.m and str(t.args[0]).startswith('Member3D.') and t.args[0] not in ('Member3D.L', 'Member3D.d', 'Member3D.T')] if isinstance(v, (Term, Poly, Phi)) else []
    if whole:
        return ctx.ob(rule, con, False, 'the array is that of the undivided member: %s' % show(whole)[:200], f)
    rw = rows(v)
    if rw is None:
        return ctx.ob(rule, con, None, 'form of the result not recognised: %s' % show(v)[:300], f)
    ctx.eq('array positions (%s)' % label, con, rw[0], xs, f)
    items = seq_of(rw[1])
    if items is None or len(items) != 1 or items[0][0] != 'f' or len(items[0][2]) != 1 or items[0][2][0][0] != 'x':
        return ctx.ob(rule, con, None, 'form of the result not recognised: %s' % show(rw[1])[:300], f)
    places(ctx, H, rule, con, H.norm(items[0][2][0][1]), q, d, f, H.norm(items[0][1]))


def ends(ctx, H, r, v, rule, con, f):
    got = vec(r)
    for i in range(12):
        part = H.subs[0] if i < 6 else H.subs[-1]
        ctx.eq('end forces come from the outer parts', '%s[%d]' % (con, i), got[i],
               [t for t in [mk('at', mk('call', 'Member3D.f', part, CN1, 'Push', 1, ty=V12), i, 0, ty='num')]][0], f)
