"""Extremes of the results of a mesh."""
from rules.ctx import *
from rules.common import *
from rules.members import distinct, CN1, CN2
from sa.dom import DictC, ListC, MatC

RULES = ('for a mesh of rectangles and quads under several load combinations the extreme of a component is the maximum (minimum) of that component '
         'at the corners and the centre of every element, for the requested combination or for all of them')
FLOOR = 60
MESH = sym('mesh', 'Mesh')
E = [sym('plate 1', 'Plate3D'), sym('quad 1', 'Quad3D'), sym('quad 2', 'Quad3D'), sym('plate 2', 'Plate3D')]
K = {c: sym('LC %d' % i, 'LoadCombo') for i, c in enumerate((CN1, CN2))}
VALID = {'shear': {'Qx': (0, True), 'Qy': (1, True), 'QX': (0, False), 'QY': (1, False)},
         'moment': {'Mx': (0, True), 'My': (1, True), 'Mxy': (2, True), 'MX': (0, False), 'MY': (1, False), 'MZ': (2, False)}}


def heap(els):
    def pre(I, st):
        put = lambda o, a, v: st.loc.__setitem__(('a', o, a), v)
        put(MESH, 'model', MODEL)
        distinct(st, list(K) + [None])
        distinct(st, list(K.values()) + [None])
        for c, k in K.items():
            put(k, 'name', c)
        st.loc[('r', mk_attr(MODEL, 'load_combos', 'dict:LoadCombo'))] = DictC((), tuple(K.items()))
        distinct(st, [sym(e.args[0] + ' name', 'str') for e in els])
        put(MESH, 'elements', I.newref(st, DictC((), tuple((sym(e.args[0] + ' name', 'str'), e) for e in els))))
        for e in els:
            put(e, 'type', 'Rect' if e.ty == 'Plate3D' else 'Quad')
    return pre


def op():
    o = {'%s.%s' % (c, m): ('mat:3,1', False) for c in ('Plate3D', 'Quad3D') for m in VALID}
    o.update({'Plate3D.width': ('num', False), 'Plate3D.height': ('num', False)})
    return o


def places(e):
    if e.ty == 'Plate3D':
        w, h = (mk('call', 'Plate3D.' + m, e, ty='num') for m in ('width', 'height'))
        half = lambda v: alg.mul(v, Fraction(1, 2))
        return [(0, 0), (w, 0), (w, h), (0, h), (half(w), half(h))]
    return [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, 0)]


def value(e, what, x, y, local, combo, i):
    return mk('at', mk('call', '%s.%s' % (e.ty, what), e, x, y, local, combo, ty='mat:3,1'), i, 0, ty='num')


def parse(t, what):
    """(element, x, y, local, combination, component) of a value of an element."""
    if isinstance(t, Term) and t.op == 'at' and len(t.args) == 3 and isinstance(t.args[0], Term) and t.args[2] == 0:
        c, i = t.args[0], t.args[1]
        a = c.args[1:] if c.op == 'call' else c.args
        n = c.args[0] if c.op == 'call' else c.op
        if len(a) == 5 and a[0] in E and n == '%s.%s' % (a[0].ty, what):
            return tuple(a) + (i,)
    return None


def check(ctx):
    rule = 'the extreme is taken over the corners and the centre of every element'
    for what, dirs in VALID.items():
        for kind in ('max', 'min'):
            q = 'Mesh.%s_%s' % (kind, what)
            for d, (i, local) in dirs.items():
                fine = True
                for label, els in (('one rectangle', E[:1]), ('one quad', E[1:2]), ('rectangle and quad', E[:2]), ('quad and rectangle', [E[1], E[3]]), ('four elements', E)):
                    for cl, args, combos in (('one combination', [d, CN2], (CN2,)), ('all combinations', [d, None], (CN1, CN2))):
                        con = '%s %s, %s, %s' % (q, d, label, cl)
                        if not fine:                    # a wrong accumulation makes the larger cases grow without bound
                            continue
                        fine = None
                        with ctx.group(con, q):
                            r = ctx.run(q, args, self_=MESH, opaque=op(), pre=heap(els))
                            if r.dead:
                                fine = ctx.ob(rule, con, False, 'raises %s' % ', '.join(sorted({x.exc for x in r.I.raises})), q)
                                continue
                            v = r.fz()
                            need = {(e, x, y, local, c, i) for e in els for x, y in places(e) for c in combos}
                            fine = extreme(ctx, rule, con, v, need, kind, what, q)
            with ctx.group(q + ' default', q):
                a, b = (ctx.run(q, x, self_=MESH, opaque=op(), pre=heap(E[:1])).fz() for x in ([list(dirs)[0]], [list(dirs)[0], None]))
                ctx.eq('without a combination all are searched', q, a, b, q)
            for bad in ('FX', 'Mz', '', 'Qxy', 'Mx' if what == 'shear' else 'Qx'):
                with ctx.group('%s %r' % (q, bad), q):
                    r = ctx.run(q, [bad, CN1], self_=MESH, opaque=op(), pre=heap(E[:2]))
                    ctx.ob('an unknown direction is rejected', '%s %r' % (q, bad), bool(r.dead) or (None if r.I.unk else False), 'returns %s' % ('' if r.dead else show(r.fz())[:200]), q)
    for c in ('Quad3D', 'Plate3D'):
        ctx.count('element classes')


def extreme(ctx, rule, con, v, need, kind, what, q):
    vals = v.args[0] if isinstance(v, Term) and v.op == kind and isinstance(v.args[0], frozenset) else {v}
    got = {x: parse(x, what) for x in vals}
    if unmodelled(v) or weak(v):
        return ctx.ob(rule, con, None, 'not fully modelled: %s' % ', '.join(sorted(unmodelled(v) | weak(v)))[:200], q)
    if None in got.values():
        return ctx.ob(rule, con, False, 'not the %simum of results of the elements: %s' % (kind, show(v)[:400]), q)
    have = set(got.values())
    missing = need - have
    ok = {(e, l, c, i) for e, x, y, l, c, i in need}
    extra = [t for t in have if (t[0],) + t[3:] not in ok]
    return ctx.ob(rule, con, not missing and not extra, 'left out: %s; does not belong: %s' % (show(sorted(missing, key=repr)[:3]), show(sorted(extra, key=repr)[:3])), q)
