"""Every defined property, support, release and load is recorded as given."""
from rules.api import *
from sa.dom import DictC, ListC
from rules.P01 import T

RULES = ('for every definition operation and every valid direction/degree of freedom the set of slots that may change is exactly the expected one, '
         'each holds exactly the argument belonging to it (or the documented default), new objects hold their constructor arguments and start without '
         'supports, releases, loads or enforced displacements')
FLOOR = 250
SOLK = (MODEL, 'solution')
DOF = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
NODE_DIRS = ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')
DIST_DIRS = ('Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ')
PT_DIRS = DIST_DIRS + ('Mx', 'My', 'Mz', 'MX', 'MY', 'MZ')
CASE = 'Case 1'


def coll(n):
    return mk_attr(MODEL, n, 'dict:' + T[n] if n in T else 'dict:LoadCombo')


def obj(n, key):
    return mk_item(coll(n), key)


class Rec:
    """Expected content of a list: the former items followed by one new item."""
    def __init__(self, *items):
        self.items = items


class New:
    """Expected new entry of a collection."""
    def __init__(self, key, cls, **attrs):
        self.key, self.cls, self.attrs = key, cls, attrs


def S(n, ty=None):
    return sym(n, ty)


def nm(n):
    return sym(n, 'str')


def value(ctx, rule, lab, r, got, want, q):
    """want: a term, a tuple (list/tuple of values) or []."""
    if isinstance(want, (tuple, list)):
        c = r.I.fz(got, r.st)
        v = vec(r, got)
        if v is None:
            it = seq_items(c)
            return ctx.ob(rule, lab, None if unmodelled(c) or it is None else False, 'holds %s' % show(c)[:300], q)
        if len(v) != len(want):
            return ctx.ob(rule, lab, False, 'holds %d values %s instead of %d' % (len(v), show(c)[:300], len(want)), q)
        for i, (a, b) in enumerate(zip(v, want)):
            ctx.eq(rule, '%s[%d]' % (lab, i), a, b, q)
        return True
    g = r.I.fz(got, r.st)
    if isinstance(g, Term) and g.op in ('dict', 'seq') and g.args[0] == (('b', want),) and not (g.op == 'dict' and len(g.args) > 1 and g.args[1]):
        return ctx.ob(rule, lab, True, '', q)      # a copy of the container given
    return ctx.eq(rule, lab, g, want, q)


def getv(r, o, a):
    v = r.st.loc.get(('a', o, a))
    if v is None and ('a', o, a) not in r.st.loc:
        return mk('unk', 'attribute %s not set' % a)
    return v


def new_object(ctx, lab, r, v, want, q):
    if not (isinstance(v, Term) and v.op == 'new'):
        ctx.ob('a new object is stored', lab, False if isinstance(v, (Term, Poly)) and not unmodelled(v) else None, 'stored value is %s' % show(v)[:200], q)
        return
    ctx.ob('a new object is stored', lab, ctx.repo.is_a(v.args[0], want.cls), 'object of class %s' % v.args[0], q)
    for a, w in want.attrs.items():
        if ('a', v, a) not in r.st.loc:
            ctx.ob('the object holds what was defined', '%s: %s' % (lab, a), None, 'attribute is never set', q)
            continue
        value(ctx, 'the object holds what was defined', '%s: %s' % (lab, a), r, r.st.loc[('a', v, a)], w, q)


def expect(ctx, n, form, args, want, kw=None, pre=None, frame=True):
    q = 'FEModel3D.' + n
    lab = n + (' (%s)' % form if form else '')
    with ctx.group(lab, q):
        r = ctx.run(q, args, kw=kw or {}, self_=MODEL, pre=pre)
        if r.dead:
            ctx.ob('a valid definition is accepted', lab, False if any(not x.implicit for x in r.I.raises) else None,
                   'every path raises %s' % ', '.join(sorted({x.exc for x in r.I.raises})), q)
            return
        ctx.ob('a valid definition is accepted', lab, True, '', q)
        e = effects(r.st, r.I)
        e.pop(SOLK, None)
        slots(ctx, lab, r, e, want, q, frame)


def slots(ctx, lab, r, e, want, q, frame=True):
    seen = set()
    for k, w in want.items():
        slot = label(k)
        if isinstance(w, New):
            c = store(r, MODEL, k[1], 'dict:X')
            t = coll(k[1])
            for kk in ((MODEL, k[1]), (t,)):
                seen.add(kk)
            if not isinstance(c, DictC):
                ctx.ob('the object is registered', lab, None if c is not None and unmodelled(c) else False, 'collection is %s' % show(c)[:200], q)
                continue
            ws = dict_writes(t, c)
            hit = [x for x in ws if same(x[0], w.key)]
            ctx.ob('the object is registered', lab, True if len(hit) == 1 and len(ws) == 1 else None if any(unmodelled(x[1]) for x in ws) else False,
                   'entries written: %s' % ', '.join(show(x[0]) for x in ws)[:300], q)
            if hit:
                new_object(ctx, lab, r, hit[0][1], w, q)
            continue
        o, a = k
        t = mk_attr(o, a, 'list')
        if isinstance(w, Rec):
            for kk in [(t,), (o, a)] + [kk for kk in e if len(kk) == 1 and isinstance(kk[0], Term) and kk[0].op == 'attr' and kk[0].args[0] is o and kk[0].args[1] == a]:
                if kk in e:
                    t = kk[0] if len(kk) == 1 else t
                seen.add(kk)
            b = r.st.loc.get(('a', o, a))
            cont = r.content(b if isinstance(b, Term) and b.op == 'ref' else t)
            if (t,) not in e and (o, a) not in e:
                ctx.ob('the record is stored', lab, False if not r.I.unk else None, 'nothing is added to %s' % slot, q)
                continue
            if not isinstance(cont, ListC):
                ctx.ob('the record is stored', lab, None, '%s holds %s' % (slot, show(cont)[:200]), q)
                continue
            parts = list(cont.seq)
            ok = len(parts) == 2 and parts[0][0] == 'b' and parts[1][0] == 'x'
            ctx.ob('one record is added after the existing ones', lab, True if ok else None if unmodelled(cont) else False,
                   '%s becomes %s' % (slot, show(mk('seq', tuple(parts), 'list'))[:400]), q)
            if ok:
                value(ctx, 'the record holds what was defined', '%s: %s' % (lab, a), r, parts[1][1], list(w.items), q)
            continue
        seen.add((o, a))
        seen |= {kk for kk in e if len(kk) == 1 and isinstance(kk[0], Term) and kk[0].op == 'attr' and kk[0].args[0] is o and kk[0].args[1] == a}
        if ('a', o, a) not in r.st.loc:
            ctx.ob('the value is stored', '%s: %s' % (lab, a), False if not r.I.unk else None, '%s keeps its former value' % slot, q)
            continue
        value(ctx, 'the value is stored', '%s: %s' % (lab, a), r, r.st.loc[('a', o, a)], w, q)
    if frame:
        other = [k for k in e if k not in seen]
        ctx.ob('nothing else changes', lab, True if not other else None if any('unk' in label(k) for k in other) else False,
               'also changes %s' % ', '.join(label(k) for k in other)[:300], q)
    ctx.count('slots', len(want))


def check(ctx):
    objects(ctx)
    sections(ctx)
    nodes(ctx)
    releases(ctx)
    loads(ctx)
    self_weight(ctx)


NAME = nm('name')


def fresh_name(c):
    def pre(I, st):
        st.assume(ind('truthy', NAME))
        st.assume(alg.c_not(ind('in', NAME, coll(c))))
    return pre


def objects(ctx):
    X, Y, Z = num('X'), num('Y'), num('Z')
    node = dict(name=NAME, X=X, Y=Y, Z=Z, NodeLoads=[])
    for d in DOF:
        node['support_' + d] = False
        node['Enforced' + d] = None
        node['spring_' + d] = [None, None, None]
    for n, c in (('add_node', 'nodes'), ('add_auxnode', 'aux_nodes')):
        expect(ctx, n, '', [NAME, X, Y, Z], {(MODEL, c): New(NAME, 'Node3D', **node)}, pre=fresh_name(c))

    v = {x: num(x) for x in ('E', 'G', 'nu', 'rho', 'fy')}
    expect(ctx, 'add_material', '', [NAME] + list(v.values()), {(MODEL, 'materials'): New(NAME, 'Material', name=NAME, **v)}, pre=fresh_name('materials'))
    w = dict(v, fy=None)
    expect(ctx, 'add_material', 'without yield strength', [NAME] + [v[x] for x in ('E', 'G', 'nu', 'rho')],
           {(MODEL, 'materials'): New(NAME, 'Material', name=NAME, **w)}, pre=fresh_name('materials'))

    sec = S('section', 'Section')
    q = 'FEModel3D.add_section'
    with ctx.group('add_section', q):
        r = ctx.run(q, [NAME, sec], self_=MODEL, pre=fresh_name('sections'))
        c = store(r, MODEL, 'sections', 'dict:Section')
        w = dict_writes(coll('sections'), c)
        ctx.ob('the section itself is stored', 'add_section', len(w) == 1 and same(w[0][1], sec) or (None if not w or unmodelled(w[0][1]) else False), 'stores %s' % show(w and w[0][1])[:200], q)
        other = [label(k) for k in effects(r.st, r.I) if k not in (SOLK, (MODEL, 'sections'), (coll('sections'),))]
        ctx.ob('nothing else changes', 'add_section', not other, 'also changes %s' % ', '.join(other)[:300], q)

    i, j, m, n_ = (nm(x) for x in ('i node', 'j node', 'm node', 'n node'))
    I_, J_, M_, N_ = (obj('nodes', x) for x in (i, j, m, n_))
    ks, t_, c_ = num('ks'), S('tension_only', 'bool'), S('comp_only', 'bool')
    expect(ctx, 'add_spring', '', [NAME, i, j, ks], {(MODEL, 'springs'): New(NAME, 'Spring3D', name=NAME, i_node=I_, j_node=J_, ks=ks, tension_only=False, comp_only=False)}, pre=fresh_name('springs'))
    expect(ctx, 'add_spring', 'one-way', [NAME, i, j, ks], {(MODEL, 'springs'): New(NAME, 'Spring3D', name=NAME, i_node=I_, j_node=J_, ks=ks, tension_only=t_, comp_only=c_)},
           kw=dict(tension_only=t_, comp_only=c_), pre=fresh_name('springs'))

    mat = nm('material')
    MAT = obj('materials', mat)
    E, G, nu = (mk_attr(MAT, x) for x in ('E', 'G', 'nu'))
    base = dict(name=NAME, i_node=I_, j_node=J_, material_name=mat, E=E, G=G, PtLoads=[], DistLoads=[], Releases=[False] * 12, model=MODEL)
    Iy, Iz, J, A = (num(x) for x in ('Iy', 'Iz', 'J', 'A'))
    expect(ctx, 'add_member', 'properties', [NAME, i, j, mat, Iy, Iz, J, A],
           {(MODEL, 'members'): New(NAME, 'PhysMember', **dict(base, Iy=Iy, Iz=Iz, J=J, A=A, auxNode=None, tension_only=False, comp_only=False, section=None))}, pre=fresh_name('members'))
    aux = nm('aux node')

    def pre_aux(I, st):
        fresh_name('members')(I, st)
        st.assume(alg.c_not(alg.c_eq(aux, None)))
    expect(ctx, 'add_member', 'auxiliary node, one-way', [NAME, i, j, mat, Iy, Iz, J, A],
           {(MODEL, 'members'): New(NAME, 'PhysMember', **dict(base, Iy=Iy, Iz=Iz, J=J, A=A, auxNode=obj('aux_nodes', aux), tension_only=t_, comp_only=c_, section=None))},
           kw=dict(aux_node=aux, tension_only=t_, comp_only=c_), pre=pre_aux)
    sn = nm('section name')
    SEC = obj('sections', sn)

    def pre_sec(I, st):
        fresh_name('members')(I, st)
        st.assume(alg.c_not(alg.c_eq(sn, None)))
    at = {x: mk_attr(SEC, x) for x in ('Iy', 'Iz', 'J', 'A')}
    expect(ctx, 'add_member', 'section', [NAME, i, j, mat],
           {(MODEL, 'members'): New(NAME, 'PhysMember', **dict(base, auxNode=None, tension_only=t_, comp_only=c_, section=SEC, **at))},
           kw=dict(section_name=sn, tension_only=t_, comp_only=c_), pre=pre_sec)

    def pre_sec_aux(I, st):
        pre_sec(I, st)
        pre_aux(I, st)
    expect(ctx, 'add_member', 'section and auxiliary node', [NAME, i, j, mat],
           {(MODEL, 'members'): New(NAME, 'PhysMember', **dict(base, auxNode=obj('aux_nodes', aux), tension_only=t_, comp_only=c_, section=SEC, **at))},
           kw=dict(section_name=sn, aux_node=aux, tension_only=t_, comp_only=c_), pre=pre_sec_aux)

    t, kx, ky = num('t'), num('kx'), num('ky')
    for n, c, cls in (('add_plate', 'plates', 'Plate3D'), ('add_quad', 'quads', 'Quad3D')):
        b = dict(name=NAME, i_node=I_, j_node=J_, m_node=M_, n_node=N_, t=t, E=E, nu=nu, pressures=[], model=MODEL)
        expect(ctx, n, '', [NAME, i, j, m, n_, t, mat], {(MODEL, c): New(NAME, cls, **dict(b, kx_mod=1, ky_mod=1))}, pre=fresh_name(c))
        expect(ctx, n, 'stiffness modifiers', [NAME, i, j, m, n_, t, mat, kx, ky], {(MODEL, c): New(NAME, cls, **dict(b, kx_mod=kx, ky_mod=ky))}, pre=fresh_name(c))

    f, tags = S('factors', 'dict:num'), S('tags', 'list:str')
    expect(ctx, 'add_load_combo', '', [NAME, f], {(MODEL, 'load_combos'): New(NAME, 'LoadCombo', name=NAME, factors=f, combo_tags=None)})
    expect(ctx, 'add_load_combo', 'tags', [NAME, f, tags], {(MODEL, 'load_combos'): New(NAME, 'LoadCombo', name=NAME, factors=f, combo_tags=tags)})

    ms, h, th = num('mesh size'), num('height'), num('thickness')
    org, ax, sn_, se = S('origin', 'list:num'), S('axis', 'str'), nm('start node'), nm('start element')

    def pre_mesh(I, st):
        fresh_name('meshes')(I, st)
        for x in (sn_, se):
            st.assume(alg.c_not(alg.c_eq(x, None)))
    xc, yc = S('x control', 'list:num'), S('y control', 'list:num')

    def pre_rect(I, st):
        pre_mesh(I, st)
        for x in (xc, yc):
            st.assume(alg.c_not(alg.c_eq(x, None)))
    com = dict(thickness=th, material_name=mat, kx_mod=kx, ky_mod=ky, start_node=sn_, start_element=se, mesh_size=ms, origin=org, model=MODEL)
    kw = dict(kx_mod=kx, ky_mod=ky, origin=org, start_node=sn_, start_element=se)
    wd, ro, ri = num('width'), num('r outer'), num('r inner')
    pl, et = S('plane', 'str'), S('element type', 'str')
    expect(ctx, 'add_rectangle_mesh', '', [NAME, ms, wd, h, th, mat], {(MODEL, 'meshes'): New(NAME, 'RectangleMesh', **dict(com, width=wd, height=h, plane=pl, element_type=et))},
           kw=dict(kw, plane=pl, element_type=et), pre=pre_mesh)
    expect(ctx, 'add_annulus_mesh', '', [NAME, ms, ro, ri, th, mat], {(MODEL, 'meshes'): New(NAME, 'AnnulusMesh', **dict(com, outer_radius=ro, inner_radius=ri, axis=ax))},
           kw=dict(kw, axis=ax), pre=pre_mesh)
    expect(ctx, 'add_frustrum_mesh', '', [NAME, ms, ro, ri, h, th, mat], {(MODEL, 'meshes'): New(NAME, 'FrustrumMesh', **dict(com, outer_radius=ro, inner_radius=ri, height=h, axis=ax))},
           kw=dict(kw, axis=ax), pre=pre_mesh)


def sections(ctx):
    for cls, extra in (('Section', ()), ('SteelSection', ('Zy', 'Zz'))):
        q = cls + '.__init__'
        with ctx.group(q, q):
            o = S('section', cls)
            mat = nm('material')
            args = [MODEL, NAME] + [num(x) for x in ('A', 'Iy', 'Iz', 'J') + extra] + [mat]
            r = ctx.run(q, args, self_=o)
            want = {(o, x): num(x) for x in ('A', 'Iy', 'Iz', 'J') + extra}
            want[(o, 'name')] = NAME
            want[(o, 'material_name')] = mat
            slots(ctx, cls, r, effects(r.st, r.I), want, q, frame=False)


def nodes(ctx):
    n = nm('node')
    N = obj('nodes', n)
    fl = {d: S('flag ' + d, 'bool') for d in DOF}
    expect(ctx, 'def_support', '', [n] + [fl[d] for d in DOF], {(N, 'support_' + d): fl[d] for d in DOF})
    expect(ctx, 'def_support', 'defaults', [n], {(N, 'support_' + d): False for d in DOF})
    for d in DOF:
        expect(ctx, 'def_support', 'only ' + d, [n], {(N, 'support_' + x): fl[d] if x == d else False for x in DOF}, kw={'support_' + d: fl[d]})
    k = num('stiffness')
    for d in DOF:
        for s in ('+', '-', None):
            expect(ctx, 'def_support_spring', '%s, %s' % (d, s), [n, d, k, s], {(N, 'spring_' + d): [k, s, True]})
        expect(ctx, 'def_support_spring', '%s, default' % d, [n, d, k], {(N, 'spring_' + d): [k, None, True]})
        expect(ctx, 'def_node_disp', d, [n, d, k], {(N, 'Enforced' + d): k})


def releases(ctx):
    m = nm('member')
    Mb = obj('members', m)
    names = [a + e for e in 'ij' for a in ('Dx', 'Dy', 'Dz', 'Rx', 'Ry', 'Rz')]
    fl = [S('release ' + x, 'bool') for x in names]
    expect(ctx, 'def_releases', '', [m] + fl, {(Mb, 'Releases'): fl})
    expect(ctx, 'def_releases', 'defaults', [m], {(Mb, 'Releases'): [False] * 12})
    for i, x in enumerate(names):
        expect(ctx, 'def_releases', 'only ' + x, [m], {(Mb, 'Releases'): [fl[i] if y == x else False for y in names]}, kw={x: fl[i]})


def loads(ctx):
    n, m, c = nm('node'), nm('member'), nm('case')
    N, Mb = obj('nodes', n), obj('members', m)
    P, x, w1, w2, x1, x2 = (num(y) for y in ('P', 'x', 'w1', 'w2', 'x1', 'x2'))
    for d in NODE_DIRS:
        expect(ctx, 'add_node_load', d, [n, d, P, c], {(N, 'NodeLoads'): Rec(d, P, c)})
    expect(ctx, 'add_node_load', 'default case', [n, 'FX', P], {(N, 'NodeLoads'): Rec('FX', P, CASE)})
    for d in PT_DIRS:
        expect(ctx, 'add_member_pt_load', d, [m, d, P, x, c], {(Mb, 'PtLoads'): Rec(d, P, x, c)})
    expect(ctx, 'add_member_pt_load', 'default case', [m, 'Fx', P, x], {(Mb, 'PtLoads'): Rec('Fx', P, x, CASE)})
    L = length(ctx, Mb)

    def pre(I, st):
        for y in (x1, x2):
            st.assume(alg.c_not(alg.c_eq(y, None)))
    for d in DIST_DIRS:
        expect(ctx, 'add_member_dist_load', d, [m, d, w1, w2, x1, x2, c], {(Mb, 'DistLoads'): Rec(d, w1, w2, x1, x2, c)}, pre=pre)
    expect(ctx, 'add_member_dist_load', 'default case', [m, 'Fy', w1, w2, x1, x2], {(Mb, 'DistLoads'): Rec('Fy', w1, w2, x1, x2, CASE)}, pre=pre)
    expect(ctx, 'add_member_dist_load', 'whole member', [m, 'Fy', w1, w2], {(Mb, 'DistLoads'): Rec('Fy', w1, w2, 0, L, CASE)})
    expect(ctx, 'add_member_dist_load', 'to the end', [m, 'Fy', w1, w2, x1], {(Mb, 'DistLoads'): Rec('Fy', w1, w2, x1, L, CASE)}, pre=pre)
    expect(ctx, 'add_member_dist_load', 'from the start', [m, 'Fy', w1, w2, None, x2], {(Mb, 'DistLoads'): Rec('Fy', w1, w2, 0, x2, CASE)}, pre=pre)
    for op, cl in (('add_plate_surface_pressure', 'plates'), ('add_quad_surface_pressure', 'quads')):
        pn, p = nm('plate'), num('pressure')
        E = obj(cl, pn)

        def pre2(I, st, cl=cl):
            st.assume(ind('in', pn, coll(cl)))
        expect(ctx, op, '', [pn, p, c], {(E, 'pressures'): Rec(p, c)}, pre=pre2)
        expect(ctx, op, 'default case', [pn, p], {(E, 'pressures'): Rec(p, CASE)}, pre=pre2)


def length(ctx, m):
    return ctx.run('Member3D.L', [], self_=m).fz()


def self_weight(ctx):
    m = mk_elem(coll('members'), 0)
    k, c = num('factor'), nm('case')
    L = length(ctx, m)
    w = alg.mul(alg.mul(k, mk_attr(obj('materials', mk_attr(m, 'material_name', 'str')), 'rho', 'num')), mk_attr(m, 'A', 'num'))
    for d in DIST_DIRS[3:]:
        expect(ctx, 'add_member_self_weight', d, [d, k, c], {(m, 'DistLoads'): Rec(d, w, w, 0, L, c)})
    expect(ctx, 'add_member_self_weight', 'default case', ['FY', k], {(m, 'DistLoads'): Rec('FY', w, w, 0, L, CASE)})
