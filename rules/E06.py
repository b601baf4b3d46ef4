"""Beam differential relations on one diagram segment, and its extremes."""
from rules.ctx import *
from rules.common import *

RULES = ('the normal form of every segment curve is differentiated term by term: value at the start, derivative and end intensity equal the '
         'beam relations; extremes equal the reference extremes under every combination of their conditions')
FLOOR = 20
X1, LN, XX = num('x1'), num('L'), num('x')
ATTRS = ('w1', 'w2', 'p1', 'p2', 'V1', 'M1', 'P1', 'T1', 'theta1', 'delta1', 'delta_x1', 'EI', 'EA')


def seg_state(cls):
    s = sym('seg ' + cls, cls)
    A = {a: num(a) for a in ATTRS}

    def pre(I, st):
        from sa.interp import State
        put = lambda a, v: st.loc.__setitem__(('a', s, a), v)
        put('x1', X1)
        put('x2', alg.add(X1, LN))
        for a, v in A.items():
            put(a, v)
    return s, A, pre


def check(ctx):
    for cls in ('BeamSegZ', 'BeamSegY'):
        s, A, pre = seg_state(cls)
        sg = 1 if cls == 'BeamSegZ' else -1

        def q(meth, *args, **kw):
            f = '%s.%s' % (cls, meth)
            if not ctx.repo.has(f):
                f = 'BeamSegZ.%s' % meth
            r = ctx.run(f, list(args), kw, self_=s, pre=pre)
            return r.fz(), f

        def start(name, v, want, f):
            ctx.eq('value at the start of the segment', '%s.%s' % (cls, name), subst(v, {XX: 0}), want, f)

        def rate(name, v, want, f, what):
            try:
                d = alg.diff(v, XX)
            except alg.NoDerivative as e:
                ctx.ob(what, '%s.%s' % (cls, name), None, 'not differentiable symbolically: %s' % e, f)
                return
            ctx.eq(what, '%s.%s' % (cls, name), d, want, f)

        lin = lambda a, b: alg.add(A[a], alg.div(alg.mul(alg.sub(A[b], A[a]), XX), LN))
        with ctx.group(cls):
            L, f = q('Length')
            ctx.eq('segment length', cls, L, LN, f)
            V, f = q('Shear', XX)
            start('Shear', V, A['V1'], f)
            rate('Shear', V, lin('w1', 'w2'), f, 'shear changes by the load')
            M, f = q('moment', XX)
            start('moment', M, alg.mul(sg, A['M1']), f)
            rate('moment', M, alg.neg(V), f, 'moment changes by the shear')
            th, f = q('slope', XX)
            start('slope', th, A['theta1'], f)
            rate('slope', th, alg.mul(-sg, alg.div(M, A['EI'])), f, 'slope changes by the curvature')
            dl, f = q('deflection', XX)
            start('deflection', dl, A['delta1'], f)
            rate('deflection', dl, alg.mul(sg, th), f, 'deflection changes by the slope')
            N, f = q('axial', XX)
            start('axial', N, A['P1'], f)
            rate('axial', N, lin('p1', 'p2'), f, 'axial force changes by the axial load')
            da, f = q('AxialDeflection', XX)
            start('AxialDeflection', da, A['delta_x1'], f)
            rate('AxialDeflection', da, alg.neg(alg.div(N, A['EA'])), f, 'axial displacement changes by the axial strain')
            t, f = q('Torsion')
            ctx.eq('torsion is constant', cls, t, A['T1'], f)
            for m in ('MaxTorsion', 'MinTorsion'):
                t, f = q(m)
                ctx.eq('torsion is constant', '%s.%s' % (cls, m), t, A['T1'], f)
            M2, f = q('moment', XX, P_delta=True)
            ctx.eq('second-order moment', cls, M2, alg.add(M, alg.mul(A['P1'], alg.sub(dl, A['delta1']))), f)
            # the caller's default is the first-order diagram
            for m, v in (('moment', M), ('slope', th), ('deflection', dl)):
                e, f = q(m, XX, P_delta=False)
                ctx.eq('first-order diagram unless second-order is requested', '%s.%s' % (cls, m), e, v, f)
        extremes(ctx, cls)


def extremes(ctx, cls):
    s, A, pre = seg_state(cls)

    def q(meth, *args, **kw):
        f = '%s.%s' % (cls, meth)
        if not ctx.repo.has(f):
            f = 'BeamSegZ.%s' % meth
        r = ctx.run(f, list(args), kw, self_=s, pre=pre)
        return r.fz(), f
    for pd in (False, True):
        with ctx.group(cls + ' extremes'):
            want = vec(ctx.spec('beamseg', 'extremes', [s, pd], pre=pre))
            for i, m in enumerate(('max_shear', 'min_shear', 'max_moment', 'min_moment', 'max_axial', 'min_axial')):
                if pd and 'moment' not in m:
                    continue
                v, f = q(m, P_delta=True) if pd else q(m)
                extreme(ctx, '%s.%s%s' % (cls, m, ' second-order' if pd else ''), v, want[i], f)


def extreme(ctx, name, got, want, f):
    rule = 'extreme over ends and stationary points'
    u = unmodelled(got) | (weak(got) - weak(want))
    if u:
        return ctx.ob(rule, name, None, 'not fully modelled: %s' % ', '.join(sorted(u)), f)
    ok, d = eq_cases(got, want)
    if ok is False:
        path, a, b = d
        d = 'when %s: code takes %s ; required %s' % (' and '.join('%s is %s' % (show(t), bool(v)) for t, v in path), show(a)[:300], show(b)[:300])
    ctx.ob(rule, name, ok, d, f)
