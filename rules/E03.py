"""Direction cosines of members, springs, plates and quads."""
from rules.ctx import *
from rules.common import *

RULES = ('for every orientation case (symbolic coordinates) the transformation matrix equals block by block the right-handed triad of the '
         'documented convention; the rows are orthonormal with determinant one; everything outside the blocks is zero; the length is the '
         'distance between the two nodes')
FLOOR = 40
X0, Y0, Z0, DX, DZ, DY, H = num('X'), num('Y'), num('Z'), num('dx'), num('dz'), num('dy'), num('+h')
PX, PZ = num('+dx'), num('+dz')
A3 = (num('ax'), num('ay'), num('az'))
B3 = (num('bx'), num('by'), num('bz'))


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = alg.add(r, alg.mul(x, y))
    return r


def cross(a, b):
    return tuple(alg.sub(alg.mul(a[i], b[j]), alg.mul(a[j], b[i])) for i, j in ((1, 2), (2, 0), (0, 1)))


def unit(a):
    n = alg.power(dot(a, a), Fraction(1, 2))
    return tuple(alg.div(x, n) for x in a)


BASES = []


def units(v):
    """Normalising factors that are identically one are removed; roots of products are split."""
    v = alg.split_roots(v, BASES)
    for _ in range(4):
        m = {}
        for t in atoms_of(v) if isinstance(v, (Term, Poly)) else ():
            if t.op == 'P' and alg.is_zero(alg.sub(t.args[0], 1)):
                m[t] = 1
        if not m:
            return v
        v = subst(v, m)
    return v


def place(elem, nodes, cond=(), extra=()):
    def pre(I, st):
        for attr, pos in nodes.items():
            n = mk_attr(elem, attr, 'Node3D')
            for a, v in zip('XYZ', pos):
                st.loc[('a', n, a)] = v
        for a, v in extra:
            st.loc[('a', elem, a)] = v
        for c in cond:
            st.assume(c)
    return pre


def off(d):
    return tuple(alg.add(a, b) for a, b in zip((X0, Y0, Z0), d))


def line_cases():
    """(name, vector from i to j, facts, expected rows)"""
    # a member that is not vertical: z horizontal on the right hand side, y upwards
    for name, h in (('horizontal', 0), ('inclined upwards', H), ('inclined downwards', alg.neg(H))):
        for way, dx, dz in (('X+', PX, DZ), ('X-', alg.neg(PX), DZ), ('Z+', 0, PZ), ('Z-', 0, alg.neg(PZ))):
            x = unit((dx, h, dz))
            z = unit((alg.neg(dz), 0, dx))
            yield '%s towards %s' % (name, way), (dx, h, dz), (), (x, cross(z, x), z)
    yield 'vertical upwards', (0, H, 0), (), ((0, 1, 0), (-1, 0, 0), (0, 0, 1))
    yield 'vertical downwards', (0, alg.neg(H), 0), (), ((0, -1, 0), (1, 0, 0), (0, 0, 1))


def blocks(ctx, rule, name, r, rows, n, q):
    m = r.mat() if not r.dead else None
    if isinstance(m, NC):
        from sa.models import expand
        m = expand(m)
    if not isinstance(m, MatC) or m.shape != (n, n):
        ctx.ob(rule, name, None, 'the transformation is not resolved entry by entry', q)
        return
    e = lambda i, j: units(m.e[i*n + j])
    for b in range(n//3):
        bad = [(i, j) for i in range(3) for j in range(3) if not alg.equal(e(3*b + i, 3*b + j), units(rows[i][j]))]
        u = any(unmodelled(e(3*b + i, 3*b + j)) or weak(e(3*b + i, 3*b + j)) for i, j in bad)
        ctx.ob(rule, '%s, block %d' % (name, b), True if not bad else None if u else False, '; '.join(
            'local axis %s component %s: code gives %s ; required %s' % ('xyz'[i], 'XYZ'[j], show(e(3*b + i, 3*b + j))[:160], show(rows[i][j])[:160])
            for i, j in bad[:2]), q)
    outside = [(i, j) for i in range(n) for j in range(n) if i//3 != j//3 and not (isnum(m.e[i*n + j]) and m.e[i*n + j] == 0)]
    ctx.ob('nothing outside the node blocks', name, not outside, 'entries %s' % outside[:4], q)
    R = [[e(i, j) for j in range(3)] for i in range(3)]
    for i in range(3):
        for j in range(i, 3):
            v = units(alg.sub(dot(R[i], R[j]), int(i == j)))
            ctx.ob('orthonormal rows', '%s %s.%s' % (name, 'xyz'[i], 'xyz'[j]), True if alg.is_zero(v) else None if unmodelled(v) or weak(v) else False,
                   'product is off by %s' % show(v)[:200], q)
    c = cross(R[0], R[1])
    v = [units(alg.sub(a, b)) for a, b in zip(c, R[2])]
    ok = all(alg.is_zero(x) for x in v)
    ctx.ob('right-handed', name, True if ok else None if any(unmodelled(x) or weak(x) for x in v) else False, 'x cross y is not z: %s' % [show(x)[:80] for x in v], q)
    ctx.count('orientation cases')


def check(ctx):
    for cls in ('Member3D', 'Spring3D'):
        el = sym('element ' + cls, cls)
        q = cls + '.T'
        for name, d, cond, rows in line_cases():
            with ctx.group('%s %s' % (cls, name), q):
                BASES[:] = [dot(d, d), alg.add(alg.mul(d[0], d[0]), alg.mul(d[2], d[2]))]
                pre = place(el, {'i_node': (X0, Y0, Z0), 'j_node': off(d)}, cond, (('auxNode', None),) if cls == 'Member3D' else ())
                blocks(ctx, 'local axes', '%s %s' % (cls, name), ctx.run(q, [], self_=el, pre=pre), rows, 12, q)
                v = ctx.run(cls + '.L', [], self_=el, pre=pre).fz()
                ctx.eq('length', '%s %s' % (cls, name), v, alg.power(dot(d, d), Fraction(1, 2)), cls + '.L')
        if cls == 'Member3D':
            d = (DX, DY, DZ)
            for name, d in (('any direction', (DX, DY, DZ)), ('vertical', (0, DY, 0)), ('horizontal', (DX, 0, DZ))):
                with ctx.group('%s with auxiliary node, %s' % (cls, name), q):
                    aux = sym('auxiliary', 'Node3D')
                    pre0 = place(el, {'i_node': (X0, Y0, Z0), 'j_node': off(d)}, (), (('auxNode', aux),))

                    def pre(I, st):
                        pre0(I, st)
                        st.assume(alg.c_not(alg.c_eq(aux, None)))
                        for a, v in zip('XYZ', off(A3)):
                            st.loc[('a', aux, a)] = v
                    BASES[:] = [dot(d, d), dot(cross(A3, d), cross(A3, d))]
                    x = unit(d)
                    y = unit(cross(A3, x))
                    blocks(ctx, 'local axes', '%s with auxiliary node, %s' % (cls, name), ctx.run(q, [], self_=el, pre=pre), (x, y, cross(x, y)), 12, q)
    four_nodes(ctx)
    d = (DX, DY, DZ)
    # dimensions measured between the nodes
    for cls, meth, a, b in (('Plate3D', 'width', 'i_node', 'j_node'), ('Plate3D', 'height', 'i_node', 'n_node')):
        el = sym('element ' + cls, cls)
        with ctx.group('%s %s' % (cls, meth)):
            pre = place(el, {a: (X0, Y0, Z0), b: off(d)})
            ctx.eq('length', '%s.%s' % (cls, meth), ctx.run('%s.%s' % (cls, meth), [], self_=el, pre=pre).fz(), alg.power(dot(d, d), Fraction(1, 2)), '%s.%s' % (cls, meth))
    with ctx.group('Node3D.distance'):
        n1, n2 = sym('node 1', 'Node3D'), sym('node 2', 'Node3D')

        def pre(I, st):
            for a, v, w in zip('XYZ', (X0, Y0, Z0), off(d)):
                st.loc[('a', n1, a)] = v
                st.loc[('a', n2, a)] = w
        ctx.eq('length', 'distance between nodes', ctx.run('Node3D.distance', [n2], self_=n1, pre=pre).fz(), alg.power(dot(d, d), Fraction(1, 2)), 'Node3D.distance')


def four_nodes(ctx):
    d = (DX, DY, DZ)
    for cls in ('Plate3D', 'Quad3D'):
        el = sym('element ' + cls, cls)
        q = cls + '.T'
        with ctx.group(cls, q):
            pre = place(el, {'i_node': (X0, Y0, Z0), 'j_node': off(d), 'n_node': off(A3), 'm_node': off(B3)})
            BASES[:] = [dot(d, d), dot(cross(A3, d), cross(A3, d))]
            x = unit(d)
            z = unit(cross(x, A3))
            blocks(ctx, 'local axes', cls, ctx.run(q, [], self_=el, pre=pre), (x, cross(z, x), z), 24, q)
