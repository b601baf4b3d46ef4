"""Plates and quadrilaterals: stiffness, loads and results at the right degrees of freedom."""
from rules.ctx import *
from rules.common import *
from rules import E03, E04, finite
from sa.dom import nc_of, MatC, NC
from sa.models import mat_mul

RULES = ('every entry of the stiffness matrices, nodal loads and results of plates and quads has the normal form of its definition (isotropic laws, bilinear and DKMQ interpolation, '
         'twelve-term polynomial of the rectangle: its bending stiffness k satisfies transpose(C) k C = integral of transpose(Q) D Q, its loads C transposed times them is the integral of the terms)')
FLOOR = 500
QD, PL = sym('quad', 'Quad3D'), sym('plate', 'Plate3D')
XI, ETA, X, Y = num('xi'), num('eta'), num('x'), num('y')
W, H = num('+W'), num('+H')
LK = {k: num('+L%d' % k) for k in (5, 6, 7, 8)}


def side_length(I, st, self_, bound, f):
    k = [v for v in bound.values() if isinstance(v, int)] if isinstance(bound, dict) else [v for v in bound if isinstance(v, int)]
    return LK[k[0]]


OPJ = {'Quad3D.J': ('mat:2,2', False), 'Quad3D.L_k': side_length}
OPB = dict(OPJ, **{'Quad3D.B_b': ('mat:3,12', False), 'Quad3D.B_s': ('mat:2,12', False), 'Quad3D.B_m': ('mat:3,8', False), 'Quad3D.d': ('mat:24,1', False),
                   'Quad3D.Hb': ('mat:3,3', False), 'Quad3D.Hs': ('mat:2,2', False), 'Quad3D.Cm': ('mat:3,3', False)})
OPP = {'Plate3D.width': lambda *a: W, 'Plate3D.height': lambda *a: H, 'Plate3D.d': ('mat:24,1', False)}


def full(r, v):
    """The entries of a matrix value with every product multiplied out."""
    m = r.mat(v)
    if isinstance(m, NC):
        m = nc_full(m)
    if not isinstance(m, MatC):
        return None
    return MatC(m.shape, [scalar(x) for x in m.e])


def opaque_entries(t):
    if t.op == 'mat':
        return MatC(t.args[0], t.args[1])
    sh = mshape(t.ty)
    if t.op == 'mT':
        b = opaque_entries(t.args[0])
        return MatC(sh, [b.at(j, i) for i in range(sh[0]) for j in range(sh[1])])
    if t.op == 'eye':
        return MatC(sh, [int(i == j) for i in range(sh[0]) for j in range(sh[1])])
    return MatC(sh, [mk('at', t, i, j, ty='num') for i in range(sh[0]) for j in range(sh[1])])


def nc_full(n):
    acc = None
    for w, c in n.t.items():
        q = None
        for t in w:
            e = opaque_entries(t)
            e = MatC(e.shape, [scalar(x) for x in e.e])
            q = e if q is None else mat_mul(None, None, q, e)
        q = MatC(q.shape, [alg.mul(c, x) for x in q.e])
        acc = q if acc is None else MatC(q.shape, [alg.add(a, b) for a, b in zip(acc.e, q.e)])
    return acc if acc is not None else MatC(n.shape, [0]*(n.shape[0]*(n.shape[1] if len(n.shape) > 1 else 1)))


_cache = {}


def scalar(v):
    """Entries of products of matrices inside a number, multiplied out."""
    if not isinstance(v, (Term, Poly)):
        return v
    m = {}
    for t in atoms_of(v):
        if t.op == 'at' and isinstance(t.args[0], Term) and t.args[0].op in ('mx', 'mat') and all(isinstance(i, int) for i in t.args[1:]):
            if t.args[0] not in _cache:
                _cache[t.args[0]] = nc_full(nc_of(t.args[0]))
            m[t] = _cache[t.args[0]].at(*t.args[1:])
    return subst(v, m) if m else v


def compare(ctx, rule, con, r, w, where, shape=None):
    """Entry by entry."""
    g, s = full(r, r.v), full(w, w.v)
    if s is None or g is None:
        return ctx.ob(rule, con, None, 'the matrix is not fully modelled: %s' % show(r.fz())[:200], where)
    if g.shape != s.shape:
        flat = [n for n in g.shape if n != 1] == [n for n in s.shape if n != 1]
        return ctx.ob(rule, con, False if not flat else False, 'shape %s, required %s' % (g.shape, s.shape), where)
    for i, (a, b) in enumerate(zip(g.e, s.e)):
        if a is b or isnum(a) and isnum(b) and a == b:
            ctx.ob(rule, '%s entry %s' % (con, divmod(i, s.shape[1])), True, '', where)
            continue
        ctx.eq(rule, '%s entry %s' % (con, divmod(i, s.shape[1])), a, b, where)


def both(ctx, rule, q, args, spec, sargs, el, opaque, pre=None, note=''):
    with ctx.group(q + note, q):
        r = ctx.run(q, args, self_=el, opaque=opaque, pre=pre)
        w = ctx.spec('plates', spec, [el] + sargs, opaque=opaque, pre=pre)
        if r.dead:
            return ctx.ob(rule, q, False, 'raises %s' % ', '.join(sorted({x.exc for x in r.I.raises})), q)
        compare(ctx, rule, q + note, r, w, q)


def check(ctx):
    laws(ctx)
    quads(ctx)
    plates(ctx)
    E04.elements(ctx, ('Plate3D', 'Quad3D'))
    E03.four_nodes(ctx)


def laws(ctx):
    rule = 'the law between strains and stresses is the isotropic one (in-plane stiffness scaled by the modification factors)'
    for q, el, spec in (('Quad3D.Cm', QD, 'membrane_law'), ('Quad3D.Hb', QD, 'bending_law'), ('Quad3D.Hs', QD, 'shear_law'), ('Plate3D.Dm', PL, 'membrane_law'), ('Plate3D.Db', PL, 'bending_law')):
        both(ctx, rule, q, [], spec, [], el, {})
        with ctx.group(q + ' symmetric', q):
            m = full(*(lambda r: (r, r.v))(ctx.run(q, [], self_=el)))
            n = m.shape[0]
            bad = [(i, j) for i in range(n) for j in range(i) if not (same(m.at(i, j), m.at(j, i)) or alg.equal(m.at(i, j), m.at(j, i)))]
            ctx.ob('the matrix is symmetric', q, not bad, 'entries %s differ from their mirror image: %s and %s' % (bad, show(m.at(*bad[0])) if bad else '', show(m.at(*bad[0][::-1])) if bad else ''), q)


def quad_loads(ctx):
    both(ctx, 'pressures act as work-equivalent nodal forces', 'Quad3D.fer', [CN], 'quad_fer', [CN], QD, {}, finite.heap(QD, {'pressures': finite.pressures()}), ' with definite pressures')


def quads(ctx):
    s = 'strains are the derivatives of the interpolated displacements'
    both(ctx, 'the Jacobian is the derivative of the bilinear map', 'Quad3D.J', [XI, ETA], 'jacobian', [XI, ETA], QD, {})
    for k in LK:
        with ctx.group('Quad3D.L_k %d' % k, 'Quad3D.L_k'):
            r, w = ctx.run('Quad3D.L_k', [k], self_=QD), ctx.spec('plates', 'length', [QD, k])
            ctx.eq('sides of the quad', 'L_k(%d)' % k, r.fz(), w.fz(), 'Quad3D.L_k')
    both(ctx, s, 'Quad3D.B_m', [XI, ETA], 'membrane_B', [XI, ETA], QD, OPJ)
    both(ctx, s, 'Quad3D.B_b', [XI, ETA], 'bending_B', [XI, ETA], QD, OPJ)
    both(ctx, s, 'Quad3D.B_s', [XI, ETA], 'shear_B', [XI, ETA], QD, OPJ)
    k = 'stiffness at the degrees of freedom of the nodes in order'
    both(ctx, k, 'Quad3D.k_b', [], 'quad_bending', [], QD, OPB)
    both(ctx, k, 'Quad3D.k_m', [], 'quad_membrane', [], QD, OPB)
    f = 'pressures act as work-equivalent nodal forces'
    both(ctx, f, 'Quad3D.fer', [CN], 'quad_fer', [CN], QD, {})
    quad_loads(ctx)
    v = 'results follow from the displacements of the nodes of the element'
    for m, w in (('shear', 'quad_shear'), ('moment', 'quad_moment'), ('membrane', 'quad_stress')):
        both(ctx, v, 'Quad3D.' + m, [XI, ETA, True, CN], w, [XI, ETA, CN], QD, OPB)
    local_axes(ctx)


def plates(ctx):
    k = 'stiffness at the degrees of freedom of the nodes in order'
    both(ctx, k, 'Plate3D.k_m', [], 'rect_membrane', [], PL, OPP)
    v = 'results follow from the displacements of the nodes of the element'
    for m, w in (('shear', 'rect_shear'), ('moment', 'rect_moment'), ('membrane', 'rect_stress')):
        both(ctx, v, 'Plate3D.' + m, [X, Y, True, CN], w, [X, Y, CN], PL, OPP)
    rect_bending(ctx, k)
    rect_fer(ctx)


def integral(p, x, a, y, b):
    """The integral of a polynomial in x, y over (0, a) by (0, b)."""
    out = 0
    for m, c in poly(p).t.items():
        d = dict(m)
        i, j = d.pop(x, 0), d.pop(y, 0)
        t = Poly({frozenset(d.items()): c})
        f = alg.mul(alg.power(a, i + 1), alg.power(b, j + 1))
        out = alg.add(out, alg.mul(alg.mul(low(t), f), Fraction(1, (i + 1)*(j + 1))))
    return out


def transpose(m):
    return MatC(m.shape[::-1], [m.at(i, j) for j in range(m.shape[1]) for i in range(m.shape[0])])


DOF12 = [6*n + a for n in range(4) for a in (2, 3, 4)]


def rect_bending(ctx, rule):
    q = 'Plate3D.k_b'
    with ctx.group(q, q):
        r = ctx.run(q, [], self_=PL, opaque=OPP)
        k = full(r, r.v)
        w = ctx.spec('plates', 'rect_C', [PL], opaque=OPP)
        C = full(w, w.v)
        w = ctx.spec('plates', 'curvature', [X, Y], opaque=OPP)
        Q = full(w, w.v)
        w = ctx.spec('plates', 'bending_law', [PL], opaque=OPP)
        D = full(w, w.v)
        if k is None or k.shape != (24, 24):
            return ctx.ob(rule, q, None if k is None else False, 'the matrix is not recognised', q)
        for i in range(24):
            for j in range(24):
                if not (i in DOF12 and j in DOF12) and i != j:
                    ctx.eq(rule, '%s entry %s' % (q, (i, j)), k.at(i, j), 0, q)
        k12 = MatC((12, 12), [k.at(i, j) for i in DOF12 for j in DOF12])
        w = run(ctx.repo, ctx.repo.add_spec('plates') + '.drilling', [k12_val(k12)], opaque=OPP)
        for i in range(24):
            if i not in DOF12:
                ctx.eq(rule, '%s entry %s' % (q, (i, i)), k.at(i, i), w.fz() if i % 6 == 5 else 0, q)
        left = mat_mul(None, None, mat_mul(None, None, transpose(C), k12), C)
        right = mat_mul(None, None, mat_mul(None, None, transpose(Q), D), Q)
        for i in range(12):
            for j in range(12):
                ctx.eq('bending stiffness is the strain energy of the displacement of the rectangle', '%s term %s' % (q, (i, j)), left.at(i, j), integral(right.at(i, j), X, W, Y, H), q)


def k12_val(m):
    from sa.dom import mat_term
    return mat_term(m)


def rect_fer(ctx):
    rect_loads(ctx, '', OPP, None)
    rect_loads(ctx, ' with definite pressures', OPP, finite.heap(PL, {'pressures': finite.pressures()}))


def rect_loads(ctx, note, op, pre):
    rule = 'pressures act as work-equivalent nodal forces'
    q = 'Plate3D.fer'
    with ctx.group(q + note, q):
        r = ctx.run(q, [CN], self_=PL, opaque=op, pre=pre)
        f = full(r, r.v)
        w = ctx.spec('plates', 'rect_C', [PL], opaque=op)
        C = full(w, w.v)
        p = ctx.spec('plates', 'pressure', [PL, CN], opaque=op, pre=pre).fz()
        if f is None or f.shape != (24, 1):
            return ctx.ob(rule, q + note, None if f is None else False, 'the vector is not recognised', q)
        for i in range(24):
            if i not in DOF12:
                ctx.eq(rule, '%s entry %d%s' % (q, i, note), f.at(i, 0), 0, q)
        f12 = MatC((12, 1), [f.at(i, 0) for i in DOF12])
        left = mat_mul(None, None, transpose(C), f12)
        for c, (a, b) in enumerate(((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (3, 0), (2, 1), (1, 2), (0, 3), (3, 1), (1, 3))):
            t = alg.mul(alg.power(X, a), alg.power(Y, b))
            ctx.eq(rule, '%s work of the pressure in x^%d y^%d%s' % (q, a, b, note), left.at(c, 0), alg.mul(alg.mul(-1, p), integral(t, X, W, Y, H)), q)


def local_axes(ctx):
    """The stiffness matrix is computed with coordinates measured in the element's own axes."""
    rule = 'the stiffness of a quad uses the coordinates of its nodes in its own axes'
    q = 'Quad3D.k'
    with ctx.group(q, q):
        seen = {}

        def spy(name):
            def h(I, st, self_, bound, f):
                seen[name] = {a: I.fz(st.loc.get(('a', self_, a)), st) if st.loc.get(('a', self_, a)) is not None else None for a in ('x1', 'y1', 'x2', 'y2', 'x3', 'y3', 'x4', 'y4')}
                return mk('call', name, self_, ty='mat:24,24')
            return h
        r = ctx.run(q, [], self_=QD, opaque={'Quad3D.k_b': spy('k_b'), 'Quad3D.k_m': spy('k_m')})
        tot = r.mat()
        ok = isinstance(tot, NC) and {k: v for k, v in tot.t.items()} == {(mk('call', n, QD, ty='mat:24,24'),): 1 for n in ('k_b', 'k_m')}
        ctx.ob('the stiffness of an element is its bending plus its membrane stiffness', q, ok, 'k is %s' % show(r.fz())[:300], q)
        P = [[mk_attr(mk_attr(QD, n + '_node', 'Node3D'), a, 'num') for a in 'XYZ'] for n in 'ijmn']
        v = lambda a, b: [alg.sub(x, y) for x, y in zip(P[b], P[a])]
        dot = lambda u, w: alg.add(alg.add(alg.mul(u[0], w[0]), alg.mul(u[1], w[1])), alg.mul(u[2], w[2]))
        cross = lambda u, w: [alg.sub(alg.mul(u[a], w[b]), alg.mul(u[b], w[a])) for a, b in ((1, 2), (2, 0), (0, 1))]
        unit = lambda u: [alg.mul(a, alg.power(dot(u, u), Fraction(-1, 2))) for a in u]
        v2, v3, v4 = v(0, 1), v(0, 2), v(0, 3)
        x = unit(v2)
        y = unit(cross(cross(v2, v3), v2))
        want = {'x1': 0, 'y1': 0, 'x2': dot(v2, x), 'y2': 0, 'x3': dot(v3, x), 'y3': dot(v3, y), 'x4': dot(v4, x), 'y4': dot(v4, y)}
        for n in ('k_b', 'k_m'):
            for a in want:
                g = seen.get(n, {}).get(a)
                if g is None:
                    ctx.ob(rule, '%s when %s is computed' % (a, n), False, 'not set', q)
                else:
                    ctx.eq(rule, '%s when %s is computed' % (a, n), g, want[a], 'Quad3D._local_coords')
    q = 'Plate3D.k'
    with ctx.group(q, q):
        r = ctx.run(q, [], self_=PL, opaque={'Plate3D.k_b': ('mat:24,24', False), 'Plate3D.k_m': ('mat:24,24', False)})
        tot = r.mat()
        names = sorted(t.op if t.op != 'call' else t.args[0] for w in (tot.t if isinstance(tot, NC) else ()) for t in w)
        ctx.ob('the stiffness of an element is its bending plus its membrane stiffness', q, names == ['Plate3D.k_b', 'Plate3D.k_m'] and all(c == 1 for c in tot.t.values()), 'k is %s' % show(r.fz())[:300], q)
    for m, a, b in (('width', 'i_node', 'j_node'), ('height', 'i_node', 'n_node')):
        q = 'Plate3D.' + m
        with ctx.group(q, q):
            r = ctx.run(q, [], self_=PL)
            p, s = [mk_attr(mk_attr(PL, a, 'Node3D'), c, 'num') for c in 'XYZ'], [mk_attr(mk_attr(PL, b, 'Node3D'), c, 'num') for c in 'XYZ']
            dd = [alg.sub(u, w) for u, w in zip(p, s)]
            ctx.eq('sides of the rectangle', q, r.fz(), alg.power(alg.add(alg.add(alg.mul(dd[0], dd[0]), alg.mul(dd[1], dd[1])), alg.mul(dd[2], dd[2])), Fraction(1, 2)), q)
