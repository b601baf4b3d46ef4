"""Generated meshes: geometry, connectivity, properties and registration."""
import math
from itertools import product
from rules.ctx import *
from rules.common import *
from rules.members import distinct
from sa.dom import DictC, ListC, MISSING
from sa.interp import Interp, State, Dead

RULES = ('for every kind of mesh, plane/axis, element type and a set of divisions (with control points, openings and transitions) and symbolic origin, thickness, stiffness modifiers '
         'and material: the state after add_*_mesh and generate holds exactly one element for every cell of the requested surface, between its own corner nodes in order and with the '
         'properties given; neighbours share nodes, no node is left over, everything is registered under its own name in the mesh and the model, and what was in the model before is '
         'still there; generating again replaces the first generation; an analysis generates every mesh that has not been generated before it numbers nodes and elements')
FLOOR = 60
O = [num('X0'), num('Y0'), num('Z0')]
T_, KX, KY, MAT = num('thickness'), num('kx'), num('ky'), sym('material', 'Material')
OLD_N, OLD_Q, OLD_P = sym('old node', 'Node3D'), sym('old quad', 'Quad3D'), sym('old plate', 'Plate3D')
COLLS = dict(nodes='Node3D', aux_nodes='Node3D', quads='Quad3D', plates='Plate3D', members='PhysMember', springs='Spring3D', meshes='Mesh', materials='Material')
AXES = {'X': 0, 'Y': 1, 'Z': 2}


class NotDefinite(Exception):
    pass


def val(v):
    """The number an expression in numbers, pi, sines, cosines and roots stands for."""
    if isinstance(v, bool):
        raise NotDefinite(show(v))
    if isnum(v):
        return float(v)
    if isinstance(v, Poly):
        return sum(float(c) * math.prod(val(a) ** float(k) for a, k in m) for m, c in v.t.items())
    if isinstance(v, Term):
        if v.op == 'sym' and v.args == ('pi',):
            return math.pi
        n, a = (v.args[0], v.args[1:]) if v.op == 'ext' else (v.op, v.args)
        if n in ('sin', 'cos', 'tan') and len(a) == 1:
            return getattr(math, n)(val(a[0]))
        if n in ('pow',) and len(a) == 2:
            return val(a[0]) ** val(a[1])
        if n == 'P' and len(a) == 1:
            return val(a[0])
        if n == 'sqrt' and len(a) == 1:
            return math.sqrt(val(a[0]))
    raise NotDefinite(show(v)[:200])


def rnd(x):
    return round(x, 7) + 0.0


class Model:
    """A model with one material and, if wanted, objects whose names a mesh would use."""

    def __init__(self, ctx, opaque=None, old=(), origin=None):
        self.ctx, self.old, self.origin = ctx, dict(old), list(origin or O)
        self.I = Interp(ctx.repo, opaque or {}, {'FEModel3D': MODEL})
        self.st = State()
        self.I.implicit = True
        st, I = self.st, self.I
        for o in (OLD_N, OLD_Q, OLD_P):
            distinct(st, [o, None])
        for a, ty in COLLS.items():
            top = {'materials': (('Mat', MAT),)}.get(a, tuple((n, o) for n, o in self.old.items() if o.ty == ty and a != 'aux_nodes'))
            st.loc[('r', mk_attr(MODEL, a, 'dict:' + ty))] = DictC((), top)
        for n, o in self.old.items():
            st.loc[('a', o, 'name')] = n
            for x in ('i_node', 'j_node', 'm_node', 'n_node') if o is not OLD_N else ():
                st.loc[('a', o, x)] = OLD_N
        for k, x in enumerate('XYZ'):
            st.loc[('a', OLD_N, x)] = num('old ' + x)
        self.dead = None

    def call(self, q, args=(), kw=None, self_=MODEL):
        if self.dead:
            return None
        r = run(self.ctx.repo, q, list(args), kw or {}, self_=self_, st=self.st, I=self.I)
        self.ctx.functions |= r.I.visited
        for u, n in r.I.unk.items():
            self.ctx.unmodelled[u] = self.ctx.unmodelled.get(u, 0) + n
        if r.dead:
            self.dead = '%s raises %s' % (q, ', '.join(sorted({'%s (%s)' % (x.exc, x.where) for x in self.I.raises})[:4]))
        return r.v

    def attr(self, o, a):
        v = self.I.attr_of(self.st, o, a) if hasattr(self.I, 'attr_of') else self.st.loc.get(('a', o, a))
        return self.I.fz(v, self.st) if v is not None else v

    def coll(self, o, a):
        """(name, object) pairs of a dictionary attribute."""
        if o is MODEL:
            c = self.st.loc.get(('r', mk_attr(MODEL, a, 'dict:' + COLLS[a])))
            v = self.st.loc.get(('a', MODEL, a))
            if v is not None:
                c = self.I.content(self.st, v)
        else:
            c = self.I.content(self.st, self.st.loc.get(('a', o, a)))
        if not isinstance(c, DictC) or c.parts:
            raise NotDefinite('%s of %s' % (a, show(o)))
        return [(n, o) for n, o in c.top if o is not MISSING]

    def list_(self, xs):
        return self.I.newref(self.st, ListC(tuple(('x', x) for x in xs)))


# ---------------------------------------------------------------- the surfaces requested
def lines(length, size, control):
    pts = sorted({Fraction(0), Fraction(length), *map(Fraction, control)})
    out = [pts[0]]
    for a, b in zip(pts, pts[1:]):
        n = math.ceil(max(1, (b - a) / Fraction(size)))
        out += [a + (b - a) * Fraction(k, n) for k in range(1, n + 1)]
    return out


def rect_cells(plane, w, h, size, xc, yc, openings):
    ax, ay = {'XY': (0, 1), 'YZ': (2, 1), 'XZ': (0, 2)}[plane]
    xs = lines(w, size, list(xc) + [x for o in openings for x in (o[0], o[0] + o[2])])
    ys = lines(h, size, list(yc) + [y for o in openings for y in (o[1], o[1] + o[3])])

    def at(x, y):
        p = [0.0, 0.0, 0.0]
        p[ax], p[ay] = rnd(float(x)), rnd(float(y))
        return tuple(p)
    out = []
    for y0, y1 in zip(ys, ys[1:]):
        for x0, x1 in zip(xs, xs[1:]):
            if not any(o[0] <= x0 and x1 <= o[0] + o[2] and o[1] <= y0 and y1 <= o[1] + o[3] for o in openings):
                out.append((at(x0, y0), at(x1, y0), at(x1, y1), at(x0, y1)))
    return out


def polar(axis, r, angle, z):
    c, s = rnd(r * math.cos(angle)), rnd(r * math.sin(angle))
    z = rnd(z)
    return {'Y': (c, z, s), 'X': (z, s, c), 'Z': (s, c, z)}[axis]


def ring(axis, ro, zo, ri, zi, n):
    t = 2 * math.pi / n
    return [tuple(polar(axis, r, t * k, z) for r, z, k in ((ro, zo, i), (ro, zo, i + 1), (ri, zi, i + 1), (ri, zi, i))) for i in range(n)]


def trans_ring(axis, ro, ri, n, f):
    """Ring with three times as many elements outside as inside."""
    t, u, rm = 2 * math.pi / n, 2 * math.pi / (3 * n), (ro + ri) / 2
    p = lambda r, a: polar(axis, r, a, f(r))
    out = []
    for i in range(n):
        a = t * i
        out.append((p(rm, a + u), p(rm, a + 2 * u), p(ri, a + t), p(ri, a)))
        out.append((p(ro, a), p(ro, a + u), p(rm, a + u), p(ri, a)))
        out.append((p(ro, a + u), p(ro, a + 2 * u), p(rm, a + 2 * u), p(rm, a + u)))
        out.append((p(ro, a + 2 * u), p(ro, a + t), p(ri, a + t), p(rm, a + 2 * u)))
    return out


def annulus_cells(axis, ro, ri, size, height=None):
    f = lambda r: 0 if height is None else height * (r - ro) / (ro - ri)
    n, r, out = int(2 * math.pi * ri / size), ri, []
    while round(r, 9) < round(ro, 9):
        b = 2 * math.pi * r / n
        h = (ro - r) / int((ro - r) / min(size, 3 * b) + 1e-9)
        if b > 3 * size:
            out += trans_ring(axis, r + h, r, n, f)
            n *= 3
        else:
            out += ring(axis, r + h, f(r + h), r, f(r), n)
        r += h
    return out


def cylinder_cells(axis, r, h, size, num_elements):
    n = num_elements or int(round(2 * math.pi * r / size))
    m = max(int(h / size), 1)
    return [c for k in range(m) for c in ring(axis, r, h * (k + 1) / m, r, h * k / m, n)]


# ---------------------------------------------------------------- obligations
def examine(ctx, m, con, mesh, cells, cls, where, others=()):
    """The mesh consists of one element per cell, and is registered in the model together with the meshes in others."""
    if m.dead:
        return ctx.ob('the mesh can be generated', con, False, m.dead, where)
    try:
        nodes, elements = m.coll(mesh, 'nodes'), m.coll(mesh, 'elements')
        reg = {a: m.coll(MODEL, a) for a in ('nodes', 'quads', 'plates')}
    except NotDefinite as e:
        return ctx.ob('the mesh can be generated', con, None, 'not definite: %s' % e, where)
    vague = [o for n, o in nodes + elements if not (isinstance(o, Term) and o.op == 'new')]
    vague += [x for n, e in elements if not vague for x in (m.attr(e, k) for k in ('i_node', 'j_node', 'm_node', 'n_node')) if not (isinstance(x, Term) and x.op in ('new', 'sym'))]
    if vague:
        return ctx.ob('the mesh can be generated', con, None, 'not definite: %s' % show(vague[:2])[:300], where)
    ctx.ob('the mesh can be generated', con, True, '', where)
    # registration
    fam = 'quads' if cls == 'Quad3D' else 'plates'
    bad = ['%s is stored as %s' % (show(o), show(n)) for n, o in nodes + elements if m.attr(o, 'name') != n]
    bad += ['%s is not in the model under its name %s' % (show(o), show(n)) for n, o in nodes if (n, o) not in reg['nodes']]
    bad += ['%s is not in the model under its name %s' % (show(o), show(n)) for n, o in elements if (n, o) not in reg[fam]]
    ctx.ob('every node and element is registered under its name', con, not bad, '; '.join(bad[:4]), where)
    lost = [n for n, o in m.old.items() if (n, o) not in reg[{'Node3D': 'nodes', 'Quad3D': 'quads', 'Plate3D': 'plates'}[o.ty]]]
    ctx.ob('what was in the model stays', con, not lost, 'overwritten: %s' % lost, where)
    have = {o for n, o in nodes + elements} | set(m.old.values()) | set(others)
    extra = [o for a in reg for n, o in reg[a] if o not in have]
    twice = [o for a in reg for n, o in reg[a] if sum(1 for x in reg[a] if x[1] is o) > 1]
    ctx.ob('nothing else is added to the model', con, not extra and not twice, 'left over: %s; twice: %s' % (show(extra[:4]), show(twice[:4])), where)
    # geometry
    at, undef = {}, []
    for n, o in nodes:
        try:
            at[o] = tuple(rnd(val(alg.sub(m.attr(o, a), m.origin[k]))) for k, a in enumerate('XYZ'))
        except (NotDefinite, TypeError) as e:
            undef.append('%s: %s' % (show(o), e))
    if undef:
        return ctx.ob('one element for every cell of the surface', con, None, '; '.join(undef[:3]), where)
    dup = [p for p in set(at.values()) if sum(1 for q in at.values() if q == p) > 1]
    ctx.ob('neighbours share their nodes', con, not dup, 'several nodes at %s' % dup[:3], where)
    got, wrong = [], []
    for n, e in elements:
        c = [m.attr(e, x) for x in ('i_node', 'j_node', 'm_node', 'n_node')]
        if any(x not in at for x in c):
            wrong.append('%s is attached to nodes outside the mesh' % show(n))
        else:
            got.append(tuple(at[x] for x in c))
    ctx.ob('elements are attached to nodes of the mesh', con, not wrong, '; '.join(wrong[:3]), where)
    miss, more = [c for c in cells if c not in got], [c for c in got if c not in cells]
    ctx.ob('one element for every cell of the surface', con, not miss and not more and len(got) == len(set(got)),
           'missing (corners i, j, m, n relative to the origin): %s; not requested: %s' % (miss[:2], more[:2]), where)
    used = {m.attr(e, x) for n, e in elements for x in ('i_node', 'j_node', 'm_node', 'n_node')}
    ctx.ob('no node without an element', con, all(o in used for n, o in nodes), 'nodes %s' % show([n for n, o in nodes if o not in used][:4]), where)
    # properties
    want = dict(t=T_, kx_mod=KX, ky_mod=KY, model=MODEL, E=mk_attr(MAT, 'E', 'num'), nu=mk_attr(MAT, 'nu', 'num'))
    for a, w in want.items():
        x = [(n, m.attr(e, a)) for n, e in elements]
        x = [(n, v) for n, v in x if v is not None and not (v is w or same(v, w))]
        ctx.ob('elements have the properties of the mesh', '%s %s' % (con, a), not x, '%s of %s is %s instead of %s' % (
            a, show(x[0][0]) if x else '', show(x[0][1]) if x else '', show(w)), where)
    ctx.ob('elements are of the requested kind', con, all(e.args[0] == cls for n, e in elements), 'elements %s' % show([e for n, e in elements][:2]), where)
    for n, e in elements:
        ctx.count('elements')
    ctx.count('nodes', len(nodes))


def first_names(ctx, m, con, mesh, where):
    """The first node and element have the names asked for (N11, and number 21 of its kind)."""
    if m.dead:
        return
    for coll, k in (('nodes', 11), ('elements', 21)):
        try:
            no = [int(n[1:]) for n, o in m.coll(mesh, coll)]
        except (NotDefinite, ValueError, TypeError) as e:
            ctx.ob('numbering starts at the requested name', '%s %s' % (con, coll), None, str(e), where)
            continue
        ctx.ob('numbering starts at the requested name', '%s %s' % (con, coll), bool(no) and min(no) == k, 'the first has number %s instead of %d' % (min(no) if no else None, k), where)


def mesh_of(m, name):
    for n, o in m.coll(MODEL, 'meshes'):
        if n == name or (isinstance(n, str) and isinstance(name, str) and n == name):
            return o
    raise NotDefinite('mesh %s' % show(name))


PLACE = (7, -5, Fraction(9, 2))           # an origin of known position
OLDS = {'N2': OLD_N, 'Q1': OLD_Q, 'R1': OLD_P}
RECTS = [  # width, height, mesh size, x control, y control, openings
    (2, 1, 1, (), (), ()),
    (3, 2, 1, (), (), ()),
    (1, 3, 2, (), (), ()),
    (3, 2, 1, (Fraction(1, 2),), (), ()),
    (2, 3, 1, (), (Fraction(5, 2), 1), ()),
    (3, 3, 1, (), (), ((1, 1, 1, 1),)),
    (4, 4, 1, (), (), ((1, 1, 2, 2),)),
    (4, 3, 1, (2,), (), ((0, 0, 1, 2), (2, 1, 2, 1))),
    (4, 3, 1, (), (), ((Fraction(1, 2), Fraction(3, 4), Fraction(9, 4), Fraction(3, 2)),)),
    (6, 6, 1, (), (), ((1, 1, 3, 3), (2, 2, 3, 3))),
]


def start(ctx, m, op, kw, generate=True):
    """add_*_mesh followed by generate: (mesh, class)."""
    base = dict(thickness=T_, material_name='Mat', kx_mod=KX, ky_mod=KY, origin=m.list_(m.origin))
    base.update({k: m.list_(v) if isinstance(v, tuple) else v for k, v in kw.items()})
    name = m.call('FEModel3D.' + op, [], base)
    if m.dead:
        return None
    return mesh_of(m, name)


def rect(ctx, m, name, case, plane, et, **kw):
    w, h, size, xc, yc, ops = case
    mesh = start(ctx, m, 'add_rectangle_mesh', dict(dict(name=name, mesh_size=size, width=w, height=h, plane=plane, element_type=et,
                                                          x_control=tuple(xc), y_control=tuple(yc)), **kw))
    for k, o in enumerate(ops):
        m.call('RectangleMesh.add_rect_opening', ['opening %d' % k, *o], self_=mesh)
    return mesh


def check(ctx):
    ctx.group_limit, ctx.total_limit = 25, 300
    # rectangles
    for case, plane, et in list(product(RECTS, ('XY',), ('Quad', 'Rect'))) + list(product(RECTS[1:7:4], ('YZ', 'XZ'), ('Quad', 'Rect'))):
        for old, place in ((OLDS, PLACE), ({}, None)):
            con = 'rectangle %sx%s by %s, %d openings, plane %s, %s%s' % (*map(str, case[:3]), len(case[5]), plane, et, ', names in use' if old else '')
            if case[3] or case[4]:
                con += ', control points %s' % show([float(x) for x in case[3] + case[4]])
            with ctx.group(con, 'RectangleMesh.generate'):
                m = Model(ctx, old=old, origin=place)
                mesh = rect(ctx, m, 'M', case, plane, et, **(dict(start_node='N1', start_element='Q1') if old else {}))
                m.call('RectangleMesh.generate', self_=mesh)
                examine(ctx, m, con, mesh, rect_cells(plane, *case), 'Quad3D' if et == 'Quad' else 'Plate3D', 'RectangleMesh.generate')
    # annuli, cones
    for axis, (ro, ri, size) in product('YXZ', ((3, 1, 1), (2, Fraction(1, 2), Fraction(1, 4)), (8, 1, 2))):
        if axis != 'Y' and size != 1 and (axis, size) != ('X', 2):
            continue
        for kind, h in (('annulus', None), ('frustrum', 5)):
            for old, place in ((({}, None), (OLDS, PLACE)) if axis == 'Y' and size == 1 else (({}, None), ({}, PLACE))[size == 1:]):
                con = '%s %s to %s by %s, axis %s%s' % (kind, ri, ro, size, axis, ', names in use' if old else '')
                q = ('AnnulusMesh' if h is None else 'FrustrumMesh') + '.generate'
                with ctx.group(con, q):
                    m = Model(ctx, old=old, origin=place)
                    kw = dict(name='M', mesh_size=size, axis=axis)
                    kw.update(dict(outer_radius=ro, inner_radius=ri) if h is None else dict(large_radius=ro, small_radius=ri, height=h))
                    if old:
                        kw.update(start_node='N1', start_element='Q1')
                    mesh = start(ctx, m, 'add_%s_mesh' % kind, kw)
                    m.call(q, self_=mesh)
                    examine(ctx, m, con, mesh, annulus_cells(axis, float(ro), float(ri), float(size), h), 'Quad3D', q)
    # cylinders
    for axis, et, (r, h, size, n) in product('YXZ', ('Quad', 'Rect'), ((1, 2, 1, 4), (1, Fraction(5, 2), 1, None), (2, 1, 3, None))):
        if axis != 'Y' and n is None:
            continue
        for old, place in ((({}, None), (OLDS, PLACE)) if axis == 'Y' else (({}, PLACE),)):
            con = 'cylinder radius %s height %s by %s, %s elements around, axis %s, %s%s' % (r, h, size, n or 'default', axis, et, ', names in use' if old else '')
            q = 'CylinderMesh.generate'
            with ctx.group(con, q):
                m = Model(ctx, old=old, origin=place)
                kw = dict(name='M', mesh_size=size, axis=axis, radius=r, height=h, num_elements=n, element_type=et)
                if old:
                    kw.update(start_node='N1', start_element='Q1')
                mesh = start(ctx, m, 'add_cylinder_mesh', kw)
                m.call(q, self_=mesh)
                examine(ctx, m, con, mesh, cylinder_cells(axis, float(r), float(h), float(size), n), 'Quad3D' if et == 'Quad' else 'Plate3D', q)
    histories(ctx)


def both(m, *meshes):
    return {o for x in meshes for a in ('nodes', 'elements') for n, o in m.coll(x, a)}


def histories(ctx):
    """Several meshes in one model, generating again, generating during an analysis."""
    q = 'RectangleMesh.generate'
    for kind, cls, et, kw in (('rectangle', 'RectangleMesh', 'Quad', dict(width=2, height=1)), ('rectangle', 'RectangleMesh', 'Rect', dict(width=2, height=1)),
                              ('annulus', 'AnnulusMesh', None, dict(outer_radius=3, inner_radius=1)), ('frustrum', 'FrustrumMesh', None, dict(large_radius=3, small_radius=1, height=2)),
                              ('cylinder', 'CylinderMesh', 'Quad', dict(radius=1, height=2)), ('cylinder', 'CylinderMesh', 'Rect', dict(radius=1, height=2))):
        con = 'first names of %s %s' % (kind, et or '')
        with ctx.group(con, cls + '.generate'):
            m = Model(ctx)
            mesh = start(ctx, m, 'add_%s_mesh' % kind, dict(kw, name='M', mesh_size=1, start_node='N11', start_element='R21' if et == 'Rect' else 'Q21', **(dict(element_type=et) if et else {})))
            m.call(cls + '.generate', self_=mesh)
            first_names(ctx, m, con, mesh, cls + '.generate')
    with ctx.group('two meshes', q):
        for order in ((0, 1), (1, 0)):
            m = Model(ctx)
            a = rect(ctx, m, 'A', RECTS[0], 'XY', 'Quad')
            b = start(ctx, m, 'add_annulus_mesh', dict(name='B', mesh_size=1, outer_radius=3, inner_radius=1, axis='Y'))
            c = start(ctx, m, 'add_annulus_mesh', dict(name='C', mesh_size=1, outer_radius=2, inner_radius=1, axis='Z'))
            for k in order:
                m.call((q, 'AnnulusMesh.generate')[k], self_=(a, b)[k])
            m.call('AnnulusMesh.generate', self_=c)
            con = 'three meshes added before any is generated, order %s' % (order,)
            oth = set() if m.dead else both(m, a, b, c)
            examine(ctx, m, con + ', rectangle', a, rect_cells('XY', *RECTS[0]), 'Quad3D', q, oth)
            examine(ctx, m, con + ', annulus', b, annulus_cells('Y', 3., 1., 1.), 'Quad3D', 'AnnulusMesh.generate', oth)
            examine(ctx, m, con + ', second annulus', c, annulus_cells('Z', 2., 1., 1.), 'Quad3D', 'AnnulusMesh.generate', oth)
    with ctx.group('generating again', q):
        m = Model(ctx)
        a = rect(ctx, m, 'A', RECTS[5][:5] + ((),), 'XY', 'Rect')
        m.call(q, self_=a)
        m.call('RectangleMesh.add_rect_opening', ['opening', 1, 1, 1, 1], self_=a)
        m.call(q, self_=a)
        examine(ctx, m, 'opening added after generating', a, rect_cells('XY', *RECTS[5]), 'Plate3D', q)
        m = Model(ctx)
        b = start(ctx, m, 'add_annulus_mesh', dict(name='B', mesh_size=1, outer_radius=3, inner_radius=1, axis='Y'))
        m.call('AnnulusMesh.generate', self_=b)
        m.call('AnnulusMesh.generate', self_=b)
        examine(ctx, m, 'annulus generated twice', b, annulus_cells('Y', 3., 1., 1.), 'Quad3D', 'AnnulusMesh.generate')
    with ctx.group('meshes are generated by an analysis', 'Analysis._prepare_model'):
        m = Model(ctx)
        a = rect(ctx, m, 'A', RECTS[0], 'XY', 'Quad')
        b = rect(ctx, m, 'B', RECTS[5], 'XZ', 'Rect')
        m.call(q, self_=b)
        m.call('RectangleMesh.add_rect_opening', ['late', 0, 0, 1, 1], self_=b)
        c = start(ctx, m, 'add_annulus_mesh', dict(name='C', mesh_size=1, outer_radius=2, inner_radius=1, axis='Z'))
        m.st.loc[('r', mk_attr(MODEL, 'load_combos', 'dict:LoadCombo'))] = DictC((), (('LC', sym('combination', 'LoadCombo')),))
        m.call('Analysis._prepare_model', [MODEL], self_=None)
        if m.dead:
            ctx.ob('an analysis generates the meshes', 'three meshes', False, m.dead, 'Analysis._prepare_model')
        else:
            oth = both(m, a, b, c)
            for x, cells, cls in ((a, rect_cells('XY', *RECTS[0]), 'Quad3D'), (b, rect_cells('XZ', *RECTS[5][:5], RECTS[5][5] + ((0, 0, 1, 1),)), 'Plate3D'), (c, annulus_cells('Z', 2., 1., 1.), 'Quad3D')):
                examine(ctx, m, 'mesh in an analysis, %s %d cells' % (cls, len(cells)), x, cells, cls, 'Analysis._prepare_model', oth)
            for coll in ('nodes', 'quads', 'plates'):
                ids = [m.attr(o, 'ID') for n, o in m.coll(MODEL, coll)]
                ctx.ob('objects of generated meshes take part in the numbering', coll, ids == list(range(len(ids))) if all(isnum(i) for i in ids) else False,
                       'numbers %s' % show(ids)[:200], 'Analysis._prepare_model')
    for op, cls, gen in (('add_rectangle_mesh', 'RectangleMesh', False), ('add_annulus_mesh', 'AnnulusMesh', False), ('add_frustrum_mesh', 'FrustrumMesh', False)):
        with ctx.group(op + ' defaults', 'FEModel3D.' + op):
            m = Model(ctx)
            kw = dict(name='M', mesh_size=1, thickness=T_, material_name='Mat')
            kw.update(dict(width=2, height=1) if 'rect' in op else dict(outer_radius=2, inner_radius=1) if 'ann' in op else dict(large_radius=2, small_radius=1, height=3))
            m.call('FEModel3D.' + op, [], kw)
            if m.dead:
                ctx.ob('a mesh with default values can be added', op, False, m.dead, 'FEModel3D.' + op)
                continue
            x = mesh_of(m, 'M')
            for a, w in dict(kx_mod=1, ky_mod=1, thickness=T_, material_name='Mat', start_node='N1', start_element='Q1').items():
                ctx.eq('default value', '%s %s' % (op, a), m.attr(x, a), w, 'FEModel3D.' + op)
