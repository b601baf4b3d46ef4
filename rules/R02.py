"""Result queries of a member: the same plane, sign convention and second-order setting in point values, extremes and arrays."""
from rules.members import *
from rules import E06

RULES = ('the normal form of every point query, extreme and array of a member whose planes are divided into three symbolic segments equals the value of the segment '
         'of the right plane containing the position, the extreme over all segments of that plane, that value at every requested position in order; the extremes of a segment equal '
         'the extremes over its ends and stationary points; an array request with a position outside the member always raises')
FLOOR = 40
SOL = ('Linear', 'P-Delta')


def ask(ctx, H, q, args, sol='Linear', kw=None, extra=None, cls='Member3D', active=True):
    op = dict(seg_opaque())
    op['Member3D._segment_member'] = (None, True)
    op.update(extra or {})
    f = '%s.%s' % (cls, q)
    if not ctx.repo.has(f):
        f = 'Member3D.' + q
    r = ctx.run(f, list(args) + [CN1], kw, self_=H.m, pre=lambda I, st: H.pre(I, st, sol, active), opaque=op)
    return r, f


def name(ctx, ax, op):
    c = cls_of(ax)
    return '%s.%s' % (c if op in ctx.repo.classes[c].methods else 'BeamSegZ', op)


def point(ctx, H, ax, op, k, x, flag):
    a = (x,) + ((flag,) if flag is not None else ())
    return mk('call', name(ctx, ax, op), H.segs[ax][k], *a, ty='num')


def expect(ctx, H, q, d, ax, op, k, x, pt, flag):
    """The accepted values for a position on segment k: at a boundary the value of either neighbour."""
    loc = alg.sub(x, H.xs[k])
    torsion = op == 'Torsion'
    out = [point(ctx, H, ax, op, k, loc, flag)]
    if torsion:
        out.append(point(ctx, H, ax, op, k, 0, None))
    if k > 0 and same(x, H.xs[k]):
        out.append(point(ctx, H, ax, op, k - 1, alg.sub(x, H.xs[k - 1]), flag))
        if torsion:
            out.append(point(ctx, H, ax, op, k - 1, 0, None))
    if q == 'rel_deflection':
        dv = lambda i: chord(H, i)
        i, j = (1, 7) if d == 'dy' else (2, 8)
        line = alg.add(dv(i), alg.mul(alg.div(alg.sub(dv(j), dv(i)), H.L), x))
        out = [alg.sub(v, line) for v in out]
    return out


def chord(H, i):
    return mk('at', mk('call', 'Member3D.d', H.m, CN1, ty=V12), i, 0, ty='num')


FLAG_RULE = 'second-order values in a second-order solution and only there'


def same_flag(ctx, H, con, v, flag, f):
    """The second-order flag of every segment value is decided by a rule of its own; elsewhere it is taken as right."""
    if flag is None or not isinstance(v, (Term, Poly, Phi)):
        return v
    calls = [t for t in atoms_of(v) if t.op == 'call' and str(t.args[0]).startswith('BeamSeg') and isinstance(t.args[-1], bool)]
    wrong = [t for t in calls if t.args[-1] is not flag]
    ctx.ob(FLAG_RULE, con, not wrong, 'evaluated without the right second-order setting: %s' % show(wrong)[:300], f)
    return subst(v, {t: mk('call', *(t.args[:-1] + (flag,)), ty='num') for t in wrong}) if wrong else v


def positions(ctx, H, rule, con, v, q, d, ax, op, flag, f, x=X):
    v = same_flag(ctx, H, con, v, flag, f)
    for lab, k, order, pt in regions(H.xs, x):
        got = at_region(v, order, pt, x)
        if x is not X and any(t is x for t in atoms_of(got)) and pt is not x:
            got = subst(got, {x: pt})
        want = expect(ctx, H, q, d, ax, op, k, pt, pt, flag)
        eq_any(ctx, rule, con, got, want, f, lab)


def eq_any(ctx, rule, con, got, want, f, note=''):
    for w in want[1:]:
        if same(got, w) or arith(got) and arith(w) and alg.equal(got, w):
            return ctx.ob(rule, con, True, '', f)
    return ctx.eq(rule, con, got, want[0], f, note)


def flags(q, takes, sol):
    if not takes:
        return None
    return sol == 'P-Delta'


def check(ctx):
    H = Heap(3)
    for q, dirs in POINT.items():
        for d, (ax, op, takes) in dirs.items():
            for sol in SOL:
                con = ' '.join([q] + ([d] if d else []) + ([sol] if takes else []))
                if not takes and sol != SOL[0]:
                    # a quantity without second-order part: the same in both kinds of solution
                    pass
                with ctx.group('point value ' + con):
                    r, f = ask(ctx, H, q, args_of(d, X), sol)
                    positions(ctx, H, 'point value of the segment containing the position', con, r.fz(), q, d, ax, op, flags(q, takes, sol), f)
                with ctx.group('array range ' + con):
                    array_range(ctx, H, con, q, d, sol)
                with ctx.group('array ' + con):
                    for label, kw, xs in (('evenly spaced', None, linspace(H.L, num('n_points'))), ('given positions', {}, mk('linspace', num('u'), num('v'), num('w')))):
                        if kw is not None:
                            kw = {'x_array': xs}
                        r, f = ask(ctx, H, q + '_array', args_of(d, num('n_points')), sol, kw)
                        array_(ctx, H, con, label, r.fz(), xs, q, d, ax, op, flags(q, takes, sol), f)
    for q, dirs in EXTREME.items():
        for d, (ax, what, takes) in dirs.items():
            for sol in SOL:
                for mm in ('max', 'min'):
                    con = ' '.join([mm, q] + ([d] if d else []) + ([sol] if takes else []))
                    with ctx.group('extreme ' + con):
                        r, f = ask(ctx, H, '%s_%s' % (mm, q), args_of(d), sol)
                        extreme(ctx, H, con, r.fz(), mm, q, d, ax, what, flags(q, takes, sol), f)
    for d in ('dx', 'dy', 'dz'):
        for mm in ('max', 'min'):
            with ctx.group('deflection extreme ' + d):
                r, f = ask(ctx, H, mm + '_deflection', [d], extra={'Member3D.deflection': ('num', False)})
                sampled(ctx, H, '%s deflection %s' % (mm, d), r.fz(), mm, d, f)
    unknown(ctx, H)
    for cls in ('BeamSegZ', 'BeamSegY'):
        E06.extremes(ctx, cls)


def extreme(ctx, H, con, v, mm, q, d, ax, what, flag, f):
    rule = 'extreme over all segments of the plane'
    op = {'Torsion': {'max': 'MaxTorsion', 'min': 'MinTorsion'}[mm]}.get(what, '%s_%s' % (mm, q))
    point_op = POINT[q][d][1]
    u = unmodelled(v)
    if not (isinstance(v, Term) and v.op == mm):
        return ctx.ob(rule, con, None if u else False, 'the result is %s' % show(v)[:400], f)
    members = set(v.args[0])
    want = [mk('call', name(ctx, ax, op), s, *((flag,) if flag is not None else ()), ty='num') for s in H.segs[ax]]
    miss = [w for w in want if not any(same(w, t) for t in members)]
    extra = []
    for t in members:
        if any(same(t, w) for w in want):
            continue
        # a value of the same quantity at an end of a segment does not exceed the extreme of that segment
        ok = isinstance(t, Term) and t.op == 'call' and t.args[0] == name(ctx, ax, point_op) and t.args[1] in H.segs[ax] and (flag is None or t.args[-1] is flag or same(t.args[2], 0))
        if ok and point_op != 'Torsion':
            k = H.segs[ax].index(t.args[1])
            ok = same(t.args[2], 0) or same(t.args[2], alg.sub(H.xs[k + 1], H.xs[k]))
        if not ok:
            extra.append(t)
    ctx.ob(rule, con, None if u else not miss and not extra, '; '.join((['not taken into account: %s' % show(miss)] if miss else []) + (['belongs to another quantity: %s' % show(extra)] if extra else []))[:500], f)


def sampled(ctx, H, con, v, mm, d, f):
    rule = 'deflection extreme over the whole member'
    if not (isinstance(v, Term) and v.op == mm):
        return ctx.ob(rule, con, None if unmodelled(v) else False, 'the result is %s' % show(v)[:400], f)
    at, bad = [], []
    for t in v.args[0]:
        if isinstance(t, Term) and t.op == 'call' and t.args[0] == 'Member3D.deflection' and t.args[1] is H.m and t.args[2] == d and same(t.args[4], CN1):
            k = alg.low(alg.div(t.args[3], H.L))
            (at if isnum(k) else bad).append(k if isnum(k) else t)
        else:
            bad.append(t)
    at.sort()
    gap = max([b - a for a, b in zip(at, at[1:])] or [1])
    ok = not bad and at and at[0] == 0 and at[-1] == 1 and gap <= Fraction(1, 20)
    ctx.ob(rule, con, None if unmodelled(v) else bool(ok), 'positions from %s to %s of the length, largest step %s; other values: %s' % (at[:1], at[-1:], gap, show(bad)[:200]), f)


# ---------------------------------------------------------------- arrays
def array_range(ctx, H, con, q, d, sol):
    """Two requested positions, one of them before the start or beyond the end: the request is rejected."""
    rule = 'positions outside the member are rejected'
    A, B = num('a'), num('b')
    L = H.L
    inside = lambda x: [alg.c_lt(0, x), alg.c_lt(x, L)]
    for lab, conds, bad in (('first position before the start', [alg.c_lt(A, 0), alg.c_lt(A, L)] + inside(B), True),
                            ('last position beyond the end', inside(A) + [alg.c_lt(L, B), alg.c_lt(0, B)], True),
                            ('positions inside', inside(A) + inside(B), False)):
        op = dict(seg_opaque())
        op['Member3D._segment_member'] = (None, True)
        f = 'Member3D.%s_array' % q

        def pre(I, st):
            H.pre(I, st, sol, True)
            for c in conds:
                st.assume(c)
        r = run_array(ctx, f, H, d, pre, op, A, B)
        rej = [x for x in r.I.raises if x.exc == 'ValueError']
        if bad:
            ctx.ob(rule, '%s, %s' % (con, lab), True if r.dead and rej else False if not rej else None, 'the request is answered', f)
        else:
            ctx.ob(rule, '%s, %s' % (con, lab), False if r.dead and rej else True, 'the request is rejected', f)


def run_array(ctx, f, H, d, pre, op, A, B):
    from sa.interp import Interp, State
    from sa.query import run
    I = Interp(ctx.repo, op, {'FEModel3D': MODEL}, implicit=False)
    st = State()
    xs = I.newref(st, MatC((2,), [A, B]))
    r = run(ctx.repo, f, args_of(d, 2) + [CN1], {'x_array': xs}, self_=H.m, pre=pre, st=st, I=I)
    ctx.note(r)
    return r


def rows(v):
    if isinstance(v, Term) and v.op == 'vstack' and len(v.args) == 1 and isinstance(v.args[0], tuple) and len(v.args[0]) == 2:
        return v.args[0]
    if isinstance(v, Term) and v.op == 'mat' and v.args[0] in ((2,), 2) and len(v.args[1]) == 2:
        return v.args[1]
    return None


def seq_of(t):
    return t.args[0] if isinstance(t, Term) and t.op == 'seq' else None


def array_(ctx, H, con, label, v, xs, q, d, ax, op, flag, f):
    rule = 'array values are the point values (%s)' % label
    rw = rows(v)
    if rw is None:
        return ctx.ob(rule, con, None, 'form of the result not recognised: %s' % show(v)[:300], f)
    ctx.eq('array positions (%s)' % label, con, rw[0], xs, f)
    y = rw[1]
    items = seq_of(y)
    if items is not None and len(items) == 1 and items[0][0] == 'f' and len(items[0][2]) == 1 and items[0][2][0][0] == 'x':
        x = items[0][1]
        return positions(ctx, H, rule, con, items[0][2][0][1], q, d, ax, op, flag, f, x)
    y = same_flag(ctx, H, con, y, flag, f)
    if q == 'rel_deflection':
        inner = [t for t in atoms_of(y) if t.op == 'item' and t.args[1] == 1 and rows(t.args[0]) is not None] if isinstance(y, (Term, Poly)) else []
        if len(inner) != 1:
            return ctx.ob(rule, con, None, 'form of the result not recognised: %s' % show(y)[:300], f)
        i, j = (1, 7) if d == 'dy' else (2, 8)
        Y = num('Y')
        line = alg.add(chord(H, i), alg.mul(alg.div(alg.sub(chord(H, j), chord(H, i)), H.L), xs))
        ctx.eq(rule, con, subst(y, {inner[0]: Y}), alg.sub(Y, line), f)
        y = rows(inner[0].args[0])[1]
    pieces(ctx, H, rule, con, y, xs, ax, op, flag, f)


def pieces(ctx, H, rule, con, y, xs, ax, op, flag, f):
    if not (isinstance(y, Term) and y.op == 'hstack' and isinstance(y.args[0], Term) and seq_of(y.args[0]) is not None):
        return ctx.ob(rule, con, None, 'form of the result not recognised: %s' % show(y)[:300], f)
    got = []
    for p in seq_of(y.args[0]):
        c = 1
        if p[0] == 'c':
            c, p = p[1], p[2][0] if len(p[2]) == 1 else ('?',)
        if p[0] != 'x' or not (isinstance(p[1], Term) and p[1].op == 'call'):
            return ctx.ob(rule, con, None, 'form of the result not recognised: %s' % show(p)[:300], f)
        got.append((c, p[1]))
    want = name(ctx, ax, op)
    segs = H.segs[ax]
    wrong = [t for c, t in got if t.args[0] != want or t.args[1] not in segs or flag is not None and t.args[-1] is not flag]
    if wrong or [t.args[1] for c, t in got] != segs:
        return ctx.ob(rule, con, False, 'the array is put together from %s; required: %s of every segment of the plane in order%s' % (
            show([t for c, t in got])[:400], want, '' if flag is None else ', second order: %s' % flag), f)
    last = 0
    n = mk('len', xs, ty='num')
    for k, (c, t) in enumerate(got):
        arg = t.args[2]
        sl = [u for u in atoms_of(arg) if u.op == 'slice' and u.args[0] is xs] if isinstance(arg, (Term, Poly)) else []
        sl = [u for u in sl if not any(u is not w and u in atoms_of(w) for w in sl)]
        if len(sl) != 1 or len(sl[0].args) != 4:
            return ctx.ob(rule, con, None, 'positions on a segment not recognised: %s' % show(arg)[:300], f)
        S = num('S')
        ctx.eq('positions are measured from the start of the segment', con, subst(arg, {sl[0]: S}), alg.sub(S, H.xs[k]), f)
        _, lo, hi, step = sl[0].args
        if not same(lo, last) or step not in (None, 1):
            b = is_bound(lo, xs, H)
            return ctx.ob(rule, con, False if b is not None else None, 'segment %d takes the positions from %s, the one before ends at %s' % (k + 1, show(lo), show(last)), f)
        if k == len(got) - 1:
            b = is_bound(hi, xs, H)
            ctx.ob(rule, con, True if hi is None or same(hi, n) else (False if b is not None else None), 'the last segment ends at %s' % show(hi), f)
        else:
            b = is_bound(hi, xs, H)
            ctx.ob(rule, con, None if b is None else b == k + 1, 'segment %d ends at %s' % (k + 1, show(hi)), f)
        last = hi


def is_bound(v, xs, H):
    """Index k when v is the index of the first position beyond boundary k."""
    if not isinstance(v, Term) or v.op != 'item':
        return None
    w = [t for t in atoms_of(v) if t.op == 'ext' and t.args[0] == 'where']
    if len(w) != 1 or len(w[0].args) != 2:
        return None
    c = w[0].args[1]
    for k, b in enumerate(H.xs):
        for cc in (alg.c_lt(b, xs), alg.c_not(alg.c_lt(xs, b))):
            if same(c, cc) or arith(c) and alg.equal(c, cc):
                return k
    return None


def unknown(ctx, H):
    """A direction that does not exist must not be answered with the value of a plane."""
    rule = 'an unknown direction has no value'
    for q in ('shear', 'moment', 'deflection', 'rel_deflection'):
        for form in ('', 'max_', 'min_', '_array'):
            if q == 'rel_deflection' and form in ('max_', 'min_'):
                continue
            m = q + '_array' if form == '_array' else form + q
            with ctx.group('unknown direction ' + m):
                a = ['an unknown direction'] + ([X] if not form else [num('n_points')] if form == '_array' else [])
                r, f = ask(ctx, H, m, a)
                v = None if r.dead or r.v is None else r.fz()
                bad = [t for t in atoms_of(v) if t.op == 'call' and str(t.args[0]).startswith('BeamSeg')] if isinstance(v, (Term, Poly, Phi)) else []
                ok = not bad and (not isnum(v) or v is None)
                ctx.ob(rule, m, ok, 'answered with %s' % (show(v)[:200] if v is not None else ''), f)
