"""Degree of freedom numbering, partition into free and known sets, storage of displacements."""
from rules.ctx import *
from rules.common import *

RULES = ('numbering: node i gets number i, elements are numbered by their position; the free/known index lists contain each nodal degree of freedom '
         'exactly under the required condition and known values are aligned with their indices; every displacement table entry and the global '
         'vector hold the value of its own degree of freedom')
FLOOR = 8
DOFS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')


def check(ctx):
    numbering(ctx)
    split_dofs(ctx)
    storage(ctx)


def numbering(ctx):
    q = 'Analysis._renumber'
    with ctx.group('numbering', q):
        r = ctx.run(q, [MODEL], opaque={'PhysMember.descritize': ('none', True)})
        for coll, ty in (('nodes', 'Node3D'), ('springs', 'Spring3D'), ('plates', 'Plate3D'), ('quads', 'Quad3D')):
            e = mk_elem(mk_attr(MODEL, coll, 'dict:' + ty), 0)
            v = attr_final(r, e, 'ID')
            if v is None:
                ctx.ob('contiguous numbering', coll, False if not r.I.unk else None, 'no number is assigned', q)
                continue
            ctx.eq('contiguous numbering', coll, v, mk('idx', e, ty='num'), q)
        d = calls(r, 'PhysMember.descritize')
        ctx.ob('every physical member is divided before the analysis', 'members', True if len(d) == 1 and len(d[0][3]) == 1 and not d[0][4] else (False if not d and not r.I.unk else None), 'division of members: %s' % d, q)


def split_dofs(ctx):
    q = 'Analysis._partition_D'
    with ctx.group('partition', q):
        r = ctx.run(q, [MODEL])
        v = r.v if isinstance(r.v, tuple) else None
        if v is None or len(v) != 3:
            ctx.ob('partition', 'result', None, 'result not recognised: %s' % show(r.v)[:200], q)
            return
        i1, i2, d2 = (seq_items(r.fz(x)) for x in v)
        if i1 is None or i2 is None or d2 is None:
            ctx.ob('partition', 'lists', None, 'index lists not modelled', q)
            return

        def table(items, vals=None):
            t = {}
            for n, (x, loops, c) in enumerate(items):
                for w, a in alg.alts(x):
                    d = dof_of(a)
                    key = (d, loops) if d else (show(a), loops)
                    t[key] = alg.add(t.get(key, 0), alg.mul(c, w))
            return t
        t1, t2 = table(i1), table(i2)
        for k, dof in enumerate(DOFS):
            key = ((NODE, k), (NODE,))
            sup = mk_attr(NODE, 'support_' + dof, 'bool')
            enf = mk_attr(NODE, 'Enforced' + dof, 'num?')
            free = alg.c_and(alg.c_not(alg.truth(sup)), alg.c_eq(enf, None))
            ctx.eq('free exactly when neither supported nor enforced', dof, t1.pop(key, 0), free, q)
            ctx.eq('known exactly when supported or enforced', dof, t2.pop(key, 0), alg.c_not(free), q)
        for t, n in ((t1, 'free'), (t2, 'known')):
            for key in t:
                ctx.ob('no other index', '%s: %s' % (n, show(key[0])), None, 'unexpected entry %s in loops over %s' % (show(key[0]), show(key[1])), q)
        # values aligned with the indices
        same_shape = len(i2) == len(d2) and all(a[1] == b[1] and same(a[2], b[2]) for a, b in zip(i2, d2))
        if not same_shape:
            ctx.ob('known values aligned with their indices', 'lists', False if len(i2) != len(d2) and not r.I.unk else None, 'the list of known indices and the list of known values are filled differently: %s / %s' % (show([(x[0], x[2]) for x in i2])[:300], show([(x[0], x[2]) for x in d2])[:300]), q)
            return
        val = {}
        for (x, loops, c), (y, _, _) in zip(i2, d2):
            for w, a in alg.alts(x):
                d = dof_of(a)
                for w2, b in alg.alts(y):
                    val.setdefault(d, []).append((alg.mul(alg.mul(c, w), w2), b))
        for k, dof in enumerate(DOFS):
            enf = mk_attr(NODE, 'Enforced' + dof, 'num?')
            none = alg.c_eq(enf, None)
            got = val.get((NODE, k), [])
            we = wz = 0
            other = []
            for w, b in got:
                if same(b, enf):
                    we = alg.add(we, w)
                elif isnum(b) and b == 0:
                    wz = alg.add(wz, w)
                elif not (isnum(w) and w == 0):
                    other.append(b)
            ctx.eq('an enforced displacement is used as the known value', dof, we, alg.c_not(none), q)
            ctx.ob('a plain support has zero displacement', dof, True if not other else (False if not any(unmodelled(b) for b in other) else None), 'known value may be %s' % show(other)[:200], q)


def storage(ctx):
    cb, D1, D2 = sym('combo', 'LoadCombo'), mk('sym', 'D1', ty='mat:N,1'), mk('sym', 'D2', ty='mat:N,1')
    I1, I2 = mk('sym', 'I1', ty='list:num'), mk('sym', 'I2', ty='list:num')
    cn = mk_attr(cb, 'name', 'str')
    for f, add_ in (('_store_displacements', False), ('_sum_displacements', True)):
        q = 'Analysis.' + f
        with ctx.group(f, q):
            r = ctx.run(q, [MODEL, D1, D2, I1, I2, cb])
            g = store(r, MODEL, '_D', 'dict:mat:N,1')
            gs = dict_sets(g)
            gv = None
            if len(gs) == 1 and same(gs[0][0], cn) and not gs[0][3]:
                gv = scat_poly(r, gs[0][1])
            else:
                ctx.ob('global displacement vector stored', f, False if not gs and not r.I.unk else None, 'entries written: %s' % show(gs)[:200], q)
            for i, dof in enumerate(DOFS):
                w = ctx.spec('analysis', 'displacement', [NODE, i, D1, D2, I1, I2]).fz()
                s = dict_sets(store(r, NODE, dof, 'dict:num'))
                if len(s) != 1 or s[0][3] or not same(s[0][0], cn):
                    ctx.ob('displacement stored at its node', '%s %s' % (f, dof), False if not s and not r.I.unk else None, 'entries written: %s' % show(s)[:200], q)
                    continue
                old = mk_item(mk_attr(NODE, dof, 'dict:num'), cn)
                want = alg.add(w, old) if add_ else w
                ctx.eq('displacement stored at its node', '%s %s' % (f, dof), resolve_reads(s[0][1]), want, q)
                if gv is not None:
                    x = read_dof(gv[0], NODE, i)
                    if x is None:
                        ctx.ob('global displacement vector entry', '%s %s' % (f, dof), None, 'vector not modelled', q)
                    else:
                        ctx.eq('global displacement vector entry', '%s %s' % (f, dof), x, w, q)
            if gv is not None and add_:
                ctx.ob('increment is added to the stored vector', f, True if gv[1] == 1 else (False if gv[1] == 0 else None), 'the earlier displacements are lost or scaled', q)


def scat_poly(r, v):
    """(scatter polynomial, coefficient of the previously stored vector)."""
    m = r.mat(v)
    if isinstance(m, ScatC):
        return m.p, 0
    if isinstance(m, NC):
        p, old = 0, 0
        for mono, c in m.t.items():
            if len(mono) != 1:
                return None
            if mono[0].op == 'scat':
                p = alg.add(p, alg.mul(c, mono[0].args[1]))
            elif mono[0].op in ('item', 'at'):
                old = alg.add(old, c)
            else:
                return None
        return p, old
    return None
