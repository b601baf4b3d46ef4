"""Participation and scaling of loads in every consumer."""
from rules.ctx import *
from rules.common import *
from rules.segs import Segments, MEMBER, X, XE
from rules.E02 import vec12, OPQ
from rules.E07 import NAMES
from rules import A02, A06, E02, E07, E08, finite

RULES = ('every consumer of loads: the fixed end reactions of members (component by component, the effect of a unit load taken from '
         'the code), the pressure that acts on a plate or quad, the nodal force vector and the internal force diagrams contain each '
         'load once, multiplied by the factor of its own case, and only when that case is in the combination')
FLOOR = 8
# load list -> (positions of magnitudes, position of the load case)
LOADS = {'PtLoads': ((1,), 3), 'DistLoads': ((1, 2), 5), 'pressures': ((0,), 1), 'NodeLoads': ((1,), 2)}


def load_list(t):
    """Name of the load list a loop variable runs over."""
    if isinstance(t, Term) and t.op == 'elem' and isinstance(t.args[0], Term) and t.args[0].op == 'attr' and t.args[0].args[1] in LOADS:
        return t.args[0].args[1]
    return None


def is_factors(t):
    return isinstance(t, Term) and t.op == 'attr' and t.args[1] == 'factors'


def own_case(v):
    """(status, detail, number of contributions): every contribution of a load has its own case's factor exactly once."""
    n = 0
    for t in atoms_of(v):
        if t.op != 'sum':
            continue
        bs, body = t.args
        for m, c in poly(body).t.items():
            loads = {a for x, _ in m for a in atoms_of(x) if load_list(a)}
            if not loads:
                continue
            if len(loads) > 1:
                return None, 'two loads in one term: %s' % show(loads)[:200], n
            ld, = loads
            mags, case = LOADS[load_list(ld)]
            deg, fac, guard = 0, 0, False
            for x, e in m:
                if x.op == 'item' and x.args[0] is ld and x.args[1] in mags:
                    deg += e
                if x.op == 'item' and is_factors(x.args[0]):
                    if not (isinstance(x.args[1], Term) and x.args[1].op == 'item' and x.args[1].args[0] is ld and x.args[1].args[1] == case):
                        return False, 'factor of %s applied to the load %s' % (show(x.args[1])[:200], show(ld)[:120]), n
                    fac += e
                if x.op == 'ind' and x.args[0] == 'in' and is_factors(x.args[2]):
                    guard = True
            if deg == 0:
                continue
            n += 1
            if deg != 1 or fac != 1:
                return False, 'a load enters with magnitude to the power %s and case factor to the power %s: %s' % (deg, fac, show(low(Poly({m: c})))[:400]), n
            if not guard:
                return False, 'a load enters although its case need not be in the combination: %s' % show(low(Poly({m: c})))[:400], n
    return True, '', n


def participation(ctx, rule, construct, v, where):
    u = unmodelled(v) | weak(v)
    ok, d, n = own_case(v)
    ctx.count('load contributions', n)
    if u and ok is not False:
        return ctx.ob(rule, construct, None, 'not fully modelled: %s' % ', '.join(sorted(u))[:200], where)
    return ctx.ob(rule, construct, None if ok is False and u else ok, d, where)


def check(ctx):
    q = 'Member3D._fer_unc'
    with ctx.group('member fixed end reactions', q):
        r = ctx.run(q, [CN], self_=MEMBER, opaque=OPQ)
        if ctx.repo.has('FixedEndReactions.FER_LinLoad') and ctx.repo.has('FixedEndReactions.FER_PtLoad'):
            w = ctx.spec('loads', 'fer_unc', [MEMBER, CN], opaque=OPQ)
            vec12(ctx, 'each member load acts once', 'combination', r.mat(), w.mat(), q)
        m = r.mat()
        if isinstance(m, MatC):
            E02.definite(ctx, 'each member load acts once')
            for i, e in enumerate(m.e):
                participation(ctx, 'factor of its own case', 'member fixed end reaction %d' % i, e, q)
    for cls in ('Plate3D', 'Quad3D'):
        q = cls + '.fer'
        with ctx.group('pressures', q):
            o = sym('element', cls)
            op = {k: v for k, v in elem_opaque().items() if k not in (q,)}
            op['Quad3D.J'] = ('mat:2,2', False)
            r = ctx.run(q, [CN], self_=o, opaque=op)
            w = ctx.spec('loads', 'pressure', [o, CN], opaque=op).v
            m = r.mat()
            pr = mk('sym', 'pressure', ty='num')
            vals = list(m.e) if isinstance(m, MatC) else nc_leaves(m)
            if not vals:
                ctx.ob('pressure', cls, None, 'vector not modelled', q)
                continue
            nz = 0
            for i, e in enumerate(vals):
                p = replace_sum(e, w, pr)
                participation(ctx, 'factor of its own case', '%s entry %d' % (cls, i), e, q)
                left = {a for a in atoms_of(p) if load_list(a)}
                if left:
                    ctx.ob('each pressure acts once', '%s entry %d' % (cls, i), None if unmodelled(p) or weak(p) else False,
                           'depends on the pressures other than through their factored sum: %s' % show(p)[:400], q)
                    continue
                if not arith(p):
                    continue
                d = {sum(x[1] for x in mono if x[0] is pr) for mono in poly(p).t}
                nz += 1 in d
                ctx.ob('each pressure acts once', '%s entry %d' % (cls, i), not (d - {1}) or None, 'not proportional to the factored pressure: %s' % show(p)[:300], q)
            if cls == 'Plate3D':
                E08.rect_loads(ctx, ' with definite pressures', E08.OPP, finite.heap(E08.PL, {'pressures': finite.pressures()}))
            else:
                E08.quad_loads(ctx)
            ctx.ob('pressures act', cls, True if nz or not isinstance(m, MatC) else None if any(unmodelled(e) for e in vals) else False, 'no entry depends on the pressures', q)
    q = 'FEModel3D.P'
    with ctx.group('nodal loads', q):
        op = elem_opaque()
        op['FEModel3D.P'] = None
        r = ctx.run(q, [CN], self_=MODEL, opaque=op)
        m = r.mat()
        if m is not None and not r.dead:
            participation(ctx, 'factor of its own case', 'nodal force vector', getattr(m, 'p', m), q)
            A02.definite(ctx, 'each nodal load acts once')
    A06.definite(ctx, 'each nodal load is subtracted once from the reaction')
    E07.definite(ctx, 'each load acts once on the diagrams')
    q = 'Member3D._segment_member'
    with ctx.group('diagrams', q):
        S = Segments(ctx, elem_opaque())
        w = vec(ctx.spec('segments', 'segment', [MEMBER, CN, X, XE], opaque=elem_opaque()))
        for lst, a, i in NAMES:
            v = S.value(lst, a)
            if v is None:
                ctx.ob('factor of its own case', '%s %s' % (lst, a), None, 'not stored', q)
                continue
            participation(ctx, 'factor of its own case', '%s %s' % (lst, a), v, q)
            got, want = kinds(v), kinds(w[i])
            ctx.ob('the loads that act on the diagram are those of the specification', '%s %s' % (lst, a), got == want or (None if unmodelled(v) or weak(v) else False),
                   'loads taking part: %s; required: %s' % (show(sorted(got, key=repr))[:300], show(sorted(want, key=repr))[:300]), q)


def kinds(v):
    """The (load list, direction) pairs that contribute to a value."""
    out = set()
    for t in atoms_of(v):
        if t.op == 'sum':
            for m, c in poly(t.args[1]).t.items():
                for x, _ in m:
                    if x.op == 'ind':
                        for a in atoms_of(x):
                            if load_list(a):
                                for y in x.args:
                                    if isinstance(y, str) and y[:1] in 'FM' and len(y) == 2:
                                        out.add((load_list(a), y))
    return out


def replace_sum(e, w, s):
    """Replace the factored sum of pressures w by the symbol s."""
    p = poly(w)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1:
            (a, k), = m
            return subst(e, {a: mul_(s, c)})
    return e


def mul_(s, c):
    return s if c == 1 else alg.div(s, c)


def nc_leaves(m):
    return [m] if m is not None else []
