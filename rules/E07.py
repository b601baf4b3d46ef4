"""Internal force diagrams of a member."""
from rules.ctx import *
from rules.common import *
from rules.segs import *
from rules import finite

RULES = ('break points of the diagram; force, moment, torque and load intensity on the generic segment; start and continuity of '
         'slope and displacement: each stored value equals the reference value')
FLOOR = 8
NAMES = (('SegmentsZ', 'P1', 0), ('SegmentsZ', 'V1', 1), ('SegmentsY', 'V1', 2), ('SegmentsX', 'T1', 3), ('SegmentsY', 'M1', 4),
         ('SegmentsZ', 'M1', 5), ('SegmentsZ', 'p1', 6), ('SegmentsZ', 'w1', 7), ('SegmentsY', 'w1', 8), ('SegmentsZ', 'p2', 9),
         ('SegmentsZ', 'w2', 10), ('SegmentsY', 'w2', 11), ('SegmentsY', 'P1', 0), ('SegmentsY', 'p1', 6), ('SegmentsY', 'p2', 9))


def check(ctx):
    q = 'Member3D._segment_member'
    op = elem_opaque()
    with ctx.group('segments', q):
        S = Segments(ctx, op)
        # division
        b = ctx.spec('segments', 'breaks', [MEMBER], opaque=op)
        bv = b.fz()
        n = mk('call', 'count of breaks', ty='num')
        for lst in LISTS:
            o = S.objs[lst]
            one = len(o) == 1 and isinstance(o[0][0], Term) and len(o[0][1]) == 1
            ctx.ob('one segment per division', lst, True if one else None, 'segments created: %s' % show(o)[:200], q)
            for a, sh in (('x1', 0), ('x2', 1)):
                v = S.created[lst].get(a)
                if v is None:
                    ctx.ob('segment limits', '%s %s' % (lst, a), None, 'not stored at creation', q)
                    continue
                i = o[0][1][0] if one else None
                if isinstance(v, Term) and v.op == 'item' and is_index(i):
                    ctx.eq('division points', lst + ' ' + a, v.args[0], bv, q)
                    ctx.eq('segment limits', '%s %s' % (lst, a), v.args[1], alg.add(i, sh), q)
                    g = i.args[0]
                    ctx.ob('every division is a segment', lst + ' ' + a, True if range_is(g, 0, alg.sub(count(bv), 1)) else None,
                           'segments for %s' % show(g)[:200], q)
                else:
                    ctx.ob('segment limits', '%s %s' % (lst, a), None, 'limit not recognised: %s' % show(v)[:200], q)
        E, A, Iz, Iy = (mk_attr(MEMBER, x, 'num') for x in ('E', 'A', 'Iz', 'Iy'))
        ctx.eq('bending stiffness', 'SegmentsZ', S.created['SegmentsZ'].get('EI'), alg.mul(E, Iz), q)
        ctx.eq('bending stiffness', 'SegmentsY', S.created['SegmentsY'].get('EI'), alg.mul(E, Iy), q)
        for lst in LISTS:
            ctx.eq('axial stiffness', lst, S.created[lst].get('EA'), alg.mul(E, A), q)
        w = vec(ctx.spec('segments', 'segment', [MEMBER, CN, X, XE], opaque=op))
        for lst, a, i in NAMES:
            v = S.value(lst, a)
            if v is None:
                ctx.ob('segment value', '%s %s' % (lst, a), None, 'not stored', q)
                continue
            ctx.eq('segment value', '%s %s' % (lst, a), v, w[i], q)
    with ctx.group('start and continuity', q):
        w = vec(ctx.spec('segments', 'start_slopes', [MEMBER, CN], opaque=op))
        tz, ty, dx, dy, dz = w
        for lst, a, want in (('SegmentsZ', 'theta1', tz), ('SegmentsY', 'theta1', ty), ('SegmentsZ', 'delta1', dy), ('SegmentsY', 'delta1', dz),
                             ('SegmentsZ', 'delta_x1', dx)):
            ctx.eq('start of the diagram', '%s %s' % (lst, a), S.first[lst].get(a), want, q)
        for lst in ('SegmentsZ', 'SegmentsY'):
            cls = {'SegmentsZ': 'BeamSegZ', 'SegmentsY': 'BeamSegY'}[lst]
            prev = sym('previous', cls)
            ln = alg.sub(mk_attr(prev, 'x2', 'num'), mk_attr(prev, 'x1', 'num'))
            for a, meth in (('theta1', 'slope'), ('delta1', 'deflection'), ('delta_x1', 'AxialDeflection')):
                t = S.vals[lst].get(a)
                if t is None or t[1] is None:
                    ctx.ob('continuity', '%s %s' % (lst, a), None, 'not stored on later segments', q)
                    continue
                want = ctx.run('%s.%s' % (cls, meth), [ln], self_=prev)
                wv = want.fz()
                mm = {}
                for x in atoms_of(wv):
                    if x.op == 'attr' and x.args[0] is prev:
                        mm[x] = mk('sym', 'previous %s.%s' % (lst, x.args[1]), ty='num')
                wv = subst(wv, mm)
                for i in (1, 2, 3):
                    ctx.eq('continuity from segment to segment', '%s %s, segment %d' % (lst, a, i), S.value(lst, a, i), wv, q)
                v0 = S.value(lst, a, 0)
                ctx.eq('first segment keeps the start value', '%s %s' % (lst, a), v0, mk('sym', '%s.%s' % (lst, a), ty='num'), q)
            ctx.count('segment lists')
    definite(ctx, 'segment value')


def definite(ctx, rule):
    """A member of length 12 with loads of symbolic intensity at given positions: all its segments."""
    q = 'Member3D._segment_member'
    op = elem_opaque()
    op['Member3D.L'] = lambda *a: 12
    n = lambda a, i: num('%s_%s' % (a, i))
    at = (0, 3, 7, 12, 3)
    pts = [(d, num('P%d' % i), at[(i + i//12) % 5], finite.case(i + i//12)) for i, d in enumerate(finite.ALL*2)] + [('Fy', num('Pout'), 3, finite.OUT)]
    span = ((0, 12), (3, 7), (0, 7), (3, 12))
    ds = [(d, n('w1', i), n('w2', i)) + span[i % 4] + (finite.case(i),) for i, d in enumerate(('Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ', 'Fy', 'Fz', 'Fx', 'FZ', 'FX', 'FY'))] + [('Fy', n('w1', 'out'), n('w2', 'out'), 3, 7, finite.OUT)]
    with ctx.group('definite loads', q):
        pre = finite.heap(MEMBER, {'PtLoads': pts, 'DistLoads': ds})
        r = ctx.run(q, [CN], self_=MEMBER, opaque=op, pre=pre)
        if r.dead:
            return ctx.ob(rule, 'definite loads', False, 'always raises %s' % ', '.join(sorted({x.exc for x in r.I.raises})), q)
        segs = {}
        for lst in LISTS:
            c = store(r, MEMBER, lst, 'list:BeamSegZ')
            segs[lst] = c.concrete() if isinstance(c, ListC) else None
            if segs[lst] is None:
                ctx.ob(rule, 'definite loads, ' + lst, None, 'segments not resolved', q)
                continue
            ends = [tuple(r.fz(r.st.loc.get(('a', s, a))) for a in ('x1', 'x2')) for s in segs[lst]]
            ctx.ob('division points', 'definite loads, ' + lst, ends == [(0, 3), (3, 7), (7, 12)] or (False if all(isinstance(x, (int, Fraction)) for e in ends for x in e) else None), 'segments %s' % show(ends), q)
        for k, (a, b) in enumerate(((0, 3), (3, 7), (7, 12))):
            w = vec(ctx.spec('segments', 'segment', [MEMBER, CN, a, b], opaque=op, pre=pre))
            for lst, at_, i in NAMES:
                if segs[lst] is None or len(segs[lst]) != 3:
                    continue
                v = r.st.loc.get(('a', segs[lst][k], at_))
                if v is None:
                    ctx.ob(rule, 'definite loads, %s %d %s' % (lst, k, at_), None, 'not stored', q)
                else:
                    ctx.eq(rule, 'definite loads, %s %d %s' % (lst, k, at_), r.fz(v), w[i], q)


def count(v):
    return mk('len', v, ty='num')


def range_is(g, a, b):
    if not (isinstance(g, Term) and g.op == 'range'):
        return False
    return same(g.args[0], a) and same(g.args[1], b) and (len(g.args) < 3 or g.args[2] == 1)
