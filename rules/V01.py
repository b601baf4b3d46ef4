"""What the renderers show: contours, deformed shape, and the load combination it belongs to."""
import ast
from rules.ctx import *
from rules.common import *
from rules.members import distinct
from sa.dom import DictC, ListC, MatC

RULES = ('contours: for every component the value at a node is the mean, over the elements at the node, of that component at that corner of the element for the requested combination; '
         'deformed shape: points are at the coordinates plus the scaled displacements of the requested combination; every combination-dependent quantity read in the renderers '
         '(calls with a combo_name parameter, result dictionaries, load factors) is read for the requested combination')
FLOOR = 60
MODS = ('Rendering', 'Visualization')
N = [sym('node %d' % i, 'Node3D') for i in range(7)]
P, Q, P2, Q2 = sym('plate', 'Plate3D'), sym('quad', 'Quad3D'), sym('plate 2', 'Plate3D'), sym('quad 2', 'Quad3D')
CORNERS = {P: (0, 1, 4, 3), Q: (1, 2, 5, 4), P2: (5, 4, 1, 2), Q2: (3, 0, 1, 4)}
LC, OTHER = 'the requested combination', sym('old contour', 'num')
REN, SPR, SC = sym('renderer', 'Renderer'), sym('spring', 'Spring3D'), num('scale')
COMPONENTS = {'Mx': ('moment', 0), 'My': ('moment', 1), 'Mxy': ('moment', 2), 'Qx': ('shear', 0), 'Qy': ('shear', 1),
              'Sx': ('membrane', 0), 'Sy': ('membrane', 1), 'Txy': ('membrane', 2), 'dz': (None, None)}
RESULTS = {'DX', 'DY', 'DZ', 'RX', 'RY', 'RZ', 'RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ', 'load_combos'}


def heap(els):
    def pre(I, st):
        put = lambda o, a, v: st.loc.__setitem__(('a', o, a), v)
        distinct(st, N + [None])
        distinct(st, list(CORNERS) + [None])
        for n in N:
            put(n, 'contour', I.newref(st, ListC((('x', OTHER),))))
            put(n, 'name', 'N%d' % N.index(n))
        for e in els:
            put(e, 'type', 'Rect' if e.ty == 'Plate3D' else 'Quad')
            for a, k in zip(('i_node', 'j_node', 'm_node', 'n_node'), CORNERS[e]):
                put(e, a, N[k])
        for a, ty, os in (('nodes', 'Node3D', N), ('quads', 'Quad3D', [e for e in els if e.ty == 'Quad3D']), ('plates', 'Plate3D', [e for e in els if e.ty == 'Plate3D'])):
            st.loc[('r', mk_attr(MODEL, a, 'dict:' + ty))] = DictC((), tuple(('N%d' % i if ty == 'Node3D' else '%s%d' % (a, i), o) for i, o in enumerate(os)))
        put(REN, '_combo_name', LC)
        put(REN, 'model', MODEL)
        put(REN, 'plotter', mk('ext', 'plotter'))
        put(SPR, 'i_node', N[2])
        put(SPR, 'j_node', N[4])
        st.loc[('r', mk_attr(SPR, 'active'))] = DictC((), ((LC, True),))
        put(SPR, 'active', I.newref(st, DictC((), ((LC, True),))))
    return pre


def opaque():
    o = {'%s.%s' % (c, m): ('mat:3,1', False) for c in ('Plate3D', 'Quad3D') for m in ('shear', 'moment', 'membrane')}
    o.update({'%s.d' % c: ('mat:24,1', False) for c in ('Plate3D', 'Quad3D')})
    o.update({'Plate3D.width': ('num', False), 'Plate3D.height': ('num', False)})
    return o


def corner(e, k, what, i):
    """The component at corner k (0..3 for i, j, m, n) of an element."""
    if what is None:
        return mk('at', mk('call', e.ty + '.d', e, LC, ty='mat:24,1'), 6 * k + 2, 0, ty='num')
    if e.ty == 'Plate3D':
        w, h = (mk('call', 'Plate3D.' + m, e, ty='num') for m in ('width', 'height'))
        x, y = [(0, 0), (w, 0), (w, h), (0, h)][k]
    else:
        x, y = [(-1, -1), (1, -1), (1, 1), (-1, 1)][k]
    return mk('at', mk('call', '%s.%s' % (e.ty, what), e, x, y, True, LC, ty='mat:3,1'), i, 0, ty='num')


def wanted(els, n, what, i):
    v = [corner(e, k, what, i) for e in els for k in range(4) if N[CORNERS[e][k]] is n]
    r = 0
    for x in v:
        r = alg.add(r, alg.mul(x, Fraction(1, len(v))))
    return r if v else None


def scalar(r, v):
    v = r.fz(v)
    if isinstance(v, Term) and v.op == 'mat' and len(v.args[-1]) == 1:
        return v.args[-1][0]
    if isinstance(v, MatC) and len(v.entries) == 1:
        return v.entries[0]
    return v


def check(ctx):
    contours(ctx)
    pairing(ctx)
    shapes(ctx)
    members(ctx)
    provenance(ctx)


def contours(ctx):
    rule = 'the contour of a node is the mean of its elements for the requested combination'
    for mod in MODS:
        q = mod + '._PrepContour'
        for comp, (what, i) in COMPONENTS.items():
            for els in ([P, Q], [Q2, P2], [P, Q, P2, Q2]):
                con = '%s %s, %d elements' % (q, comp, len(els))
                with ctx.group(con, q):
                    r = ctx.run(q, [MODEL, comp, LC], opaque=opaque(), pre=heap(els))
                    if r.dead:
                        ctx.ob(rule, con, False, 'raises %s' % ', '.join(sorted({x.exc for x in r.I.raises})), q)
                        continue
                    for k, n in enumerate(N):
                        w = wanted(els, n, what, i)
                        v = r.st.loc.get(('a', n, 'contour'))
                        if w is None:
                            c = r.content(v) if v is not None else None
                            ctx.ob('a node without elements has no contour value', '%s node %d' % (con, k), isinstance(c, ListC) and c.concrete() == [] or (False if OTHER in atoms_of(r.fz(v)) else None),
                                   'it keeps the value of an earlier contour', q)
                        else:
                            ctx.eq(rule, '%s node %d' % (con, k), scalar(r, v), w, q)


def triples(v, out):
    """Groups of three numbers among the arguments of the drawing calls."""
    if isinstance(v, Term):
        if v.op == 'mat' and isinstance(v.args[0], tuple) and v.args[0][-1] == 3:
            e = v.args[1]
            out.extend(tuple(e[k:k + 3]) for k in range(0, len(e), 3))
            return
        v = v.args
    if isinstance(v, tuple):
        if len(v) == 4 and isinstance(v[0], tuple) and len(v[0]) == 2 and v[0][0] == 0 and all(isinstance(a, tuple) and len(a) == 2 and a[0] == k for k, a in enumerate(v)):
            v = v[1:]                       # a numbered point: index, x, y, z
        x = [a[1] if isinstance(a, tuple) and len(a) == 2 and (a[0] == 'x' or isinstance(a[0], int)) else a for a in v]
        if len(x) == 3 and all(isnum(a) or isinstance(a, Poly) or isinstance(a, Term) and a.ty == 'num' for a in x):
            out.append(tuple(x))
            return
        for a in v:
            triples(a, out)


CON = [num('contour of node %d' % i) for i in range(len(N))]


def calls_of(e, out):
    """The logged calls of external objects, in order; conditional ones once per alternative."""
    if isinstance(e, tuple):
        if len(e) == 4 and e[0] == 'call':
            out.append(e)
        else:
            for x in e:
                calls_of(x, out)
    elif isinstance(e, Phi):
        for _, x in e.alts:
            calls_of(x, out)
    elif isinstance(e, Term) and e.op != 'ext':
        calls_of(e.args, out)


def leaves(v, among, out):
    """Occurrences of some terms in a value, in order."""
    if any(v is x for x in among):
        out.append(v)
    elif isinstance(v, Term):
        leaves(v.args, among, out)
    elif isinstance(v, tuple):
        for x in v:
            leaves(x, among, out)


def find_ext(v, name):
    if isinstance(v, Term):
        return v if v.op == 'ext' and v.args[0] == name else find_ext(v.args, name)
    for x in v if isinstance(v, tuple) else ():
        r = find_ext(x, name)
        if r is not None:
            return r


def pairing(ctx):
    """Every corner of a drawn element has the contour value of its own node, and the elements are drawn around their corners."""
    rule = 'a drawn corner carries the contour value of its node'
    ctx.repo.classes['Renderer'] = ctx.repo.modules['Rendering'].classes['Renderer']
    els = [P, Q, P2]
    xs = [mk_attr(n, 'X', 'num') for n in N]

    def pre(I, st):
        heap(els)(I, st)
        for n, c in zip(N, CON):
            st.loc[('a', n, 'contour')] = c
    o = dict(opaque())
    o.update({m + '._PrepContour': (None, True) for m in MODS})
    for q, args, self_ in (('Renderer.plot_plates', [False, SC, 'Mx', LC], REN), ('Visualization._RenderContours', [MODEL, mk('ext', 'vtk renderer'), False, SC, 'Mx', True, 12, LC], None)):
        with ctx.group('pairing ' + q, q):
            r = ctx.run(q, args, self_=self_, opaque=o, pre=pre)
            calls, corners_, values, faces = [], [], [], []
            calls_of(tuple(r.log), calls)
            data = find_ext(tuple(r.log), 'PolyData')
            if data is not None:
                leaves(data.args[1], xs, corners_)
                f = data.args[2] if len(data.args) > 2 else None
                if isinstance(f, Term) and f.op == 'mat' and all(isnum(x) for x in f.args[-1]):
                    f = list(f.args[-1])
                    while f and 0 < f[0] < len(f):
                        faces.append(tuple(f[1:1 + int(f[0])]))
                        f = f[1 + int(f[0]):]
            ids = []
            for c in calls:
                if c[1] == 'InsertNextPoint' and data is None:
                    leaves(c[3], xs, corners_)
                elif c[1] in ('InsertNextTuple', 'InsertNextTuple1', 'InsertNextValue', '__setitem__'):
                    leaves(c[3], CON, values)
                elif c[1] == 'SetId' and len(c[3]) == 2 and all(isnum(a[1]) for a in c[3]):
                    ids.append((c[3][0][1], c[3][1][1]))
            if ids:
                for k in range(0, len(ids), 4):
                    faces.append(tuple(g for _, g in sorted(ids[k:k + 4])))
            at = [xs.index(x) for x in corners_]
            ok = None if not at or not values else [CON.index(v) for v in values] == at
            ctx.ob(rule, q, ok, 'corners of nodes %s carry the values of nodes %s' % (at, [CON.index(v) for v in values]), q)
            shown_ = [tuple(at[int(k)] for k in f) for f in faces] if faces and all(0 <= k < len(at) for f in faces for k in f) else None
            turn = lambda t: {t[k:] + t[:k] for k in range(len(t))} | {t[::-1][k:] + t[::-1][:k] for k in range(len(t))}
            missing = None if shown_ is None else [e for e in els if not any(f in turn(CORNERS[e]) for f in shown_)]
            ctx.ob('every element is drawn around its corners', q, None if missing is None else not missing and len(shown_) == len(els), 'faces %s; not drawn: %s' % (shown_, show(missing)), q)


def point(n, scaled):
    r = []
    for a in 'XYZ':
        x = mk_attr(n, a, 'num')
        if scaled:
            x = alg.add(x, alg.mul(SC, mk('item', mk_attr(n, 'D' + a, 'dict:num'), LC, ty='num')))
        r.append(x)
    return tuple(r)


def shapes(ctx):
    rule = 'points are drawn at the coordinates plus the scaled displacements of the requested combination'
    ctx.repo.classes['Renderer'] = ctx.repo.modules['Rendering'].classes['Renderer']
    els = [P, Q]
    corners = lambda s: {N[k]: s for e in els for k in CORNERS[e]}
    vis = sym('drawing', 'VisDeformedNode')
    nodes = mk_attr(MODEL, 'nodes', 'dict:Node3D')
    cases = [('Renderer.plot_deformed_node', [N[1], SC], REN, {N[1]: True}), ('Renderer.plot_deformed_spring', [SPR, SC, LC], REN, {N[2]: True, N[4]: True}),
             ('VisDeformedNode.__init__', [N[1], SC, 5, LC], vis, {N[1]: True}), ('VisDeformedSpring.__init__', [SPR, nodes, SC, LC], vis, {N[2]: True, N[4]: True})]
    for d in (True, False):
        cases += [('Renderer.plot_plates', [d, SC, 'Mx', LC], REN, corners(d)),
                  ('Visualization._RenderContours', [MODEL, mk('ext', 'vtk renderer'), d, SC, 'Mx', True, 12, LC], None, corners(d))]
    for q, args, self_, want in cases:
        con = '%s%s' % (q, '' if len(want) < 3 else ', deformed %s' % all(want.values()))
        with ctx.group(con, q):
            r = ctx.run(q, args, self_=self_, opaque=opaque(), pre=heap(els))
            got = []
            triples(r.log, got)
            place = {tuple(map(repr, point(n, s))): n for n in N for s in (True, False)}
            mine = [t for t in got if any(isinstance(a, Term) and a.op == 'attr' and a.args[-1] in ('X', 'Y', 'Z') or isinstance(a, Term) and a.op == 'item' for x in t if not isnum(x) for a in atoms_of(x))]
            need = {point(n, s): n for n, s in want.items()}
            is_in = lambda t, ts: any(all(same(a, b) or alg.equal(a, b) for a, b in zip(t, u)) for u in ts)
            if not mine:
                ctx.ob(rule, con, None, 'no drawn point recognised', q)
                continue
            bad = [t for t in mine if not is_in(t, need)]
            gone = [t for t in need if not is_in(t, mine)]
            vague = any(unmodelled(x) or weak(x) for t in bad for x in t)
            ctx.ob(rule, con, None if vague and bad else not bad and not gone, 'drawn at %s; missing %s' % (show(bad[:1])[:400], show(gone[:1])[:400]), q)


def members(ctx):
    """The deformed shape of a member: from its i-node along its axis, displaced by its deflections there."""
    rule = 'a point of a deformed member is the point of its axis plus the scaled deflections there'
    ctx.repo.classes['Renderer'] = ctx.repo.modules['Rendering'].classes['Renderer']
    m = sym('member', 'PhysMember')
    L = mk('call', 'Member3D.L', m, ty='num')
    T = mk('call', 'Member3D.T', m, ty='mat:12,12')

    def pre(I, st):
        heap([P, Q])(I, st)
        st.loc[('a', m, 'active')] = I.newref(st, DictC((), ((LC, True),)))
        st.loc[('a', m, 'i_node')], st.loc[('a', m, 'j_node')] = N[2], N[4]
    o = dict(opaque())
    o.update({'Member3D.L': ('num', False), 'Member3D.T': ('mat:12,12', False), 'PhysMember.deflection': ('num', False), 'Member3D.deflection': ('num', False)})
    for q, args, self_ in (('Renderer.plot_deformed_member', [m, SC], REN), ('VisDeformedMember.__init__', [m, mk_attr(MODEL, 'nodes', 'dict:Node3D'), SC, LC], sym('drawing', 'VisDeformedMember'))):
        with ctx.group('member ' + q, q):
            r = ctx.run(q, args, self_=self_, opaque=o, pre=pre)
            got, xs = [], []
            triples(r.log, got)
            for t in got:
                d = {a for v in t if not isnum(v) for a in atoms_of(v) if a.op == 'call' and str(a.args[0]).endswith('.deflection')}
                if not d:
                    continue
                d = sorted(d, key=repr)
                cls, at_ = d[0].args[0], d[0].args[3]
                xs.append(at_)
                c = {k: mk('call', cls, m, k, at_, LC, ty='num') for k in ('dx', 'dy', 'dz')}
                for i, a in enumerate('XYZ'):
                    e = lambda k: mk('at', T, k, i, ty='num')
                    w = alg.add(mk_attr(N[2], a, 'num'), alg.mul(at_, e(0)))
                    for k, n in enumerate(('dx', 'dy', 'dz')):
                        w = alg.add(w, alg.mul(alg.mul(SC, c[n]), e(k)))
                    ctx.eq(rule, '%s, %s of the point at %s' % (q, a, show(at_)), t[i], w, q)
            ctx.count('points of members', len(xs))
            ends = [alg.equal(x, e) for e in (0, L) for x in xs]
            ctx.ob('a deformed member is drawn from end to end', q, None if not xs else any(ends[:len(xs)]) and any(ends[len(xs):]), 'points at %s' % show(xs)[:300], q)


# ---------------------------------------------------------------- whose results are read
class Module_:
    """Which expressions of the functions of a renderer stand for the requested combination."""

    def __init__(self, repo, name):
        self.repo, self.mod = repo, repo.modules[name]
        self.funcs = {f.node.name: [f] for f in self.mod.funcs.values()}
        for c in self.mod.classes.values():
            for n, f in c.methods.items():
                self.funcs.setdefault(c.name if n == '__init__' else n, []).append(f)
        self.good, self.bad = {}, {}         # function -> parameters that always are / once are not the combination
        self.local = {}

    def all(self):
        return {id(f.node): f for fs in self.funcs.values() for f in fs}.values()


def formals(f):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.node.decorator_list)
    return names[1:] if f.cls is not None and not static else names


def bind(call, f):
    """Argument expressions by formal name; None when they cannot be told."""
    names = formals(f)
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords) or len(call.args) > len(names):
        return None
    out = dict(zip(names, call.args))
    out.update({k.arg: k.value for k in call.keywords})
    return out if all(k in names or f.node.args.kwarg or k in [x.arg for x in f.node.args.kwonlyargs] for k in out) else None


def requested(e, fn, params):
    """True: the requested combination; False: certainly something else; None: unknown."""
    if isinstance(e, ast.Constant):
        return False
    if isinstance(e, ast.Attribute):
        return True if e.attr.lstrip('_') == 'combo_name' else None
    if isinstance(e, ast.Name):
        vals = [s.value for s in ast.walk(fn.node) if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name) and t.id == e.id]
        rs = [requested(v, fn, params) if not (isinstance(v, ast.Name) and v.id == e.id) else True for v in vals]
        if e.id in formals(fn):
            rs.append(params.get((id(fn.node), e.id), True if e.id.lstrip('_') == 'combo_name' else None))
        return True if rs and all(r is True for r in rs) else False if rs and any(r is False for r in rs) else None
    return None


def provenance(ctx):
    rule = 'results are read for the requested combination'
    repo = ctx.repo
    takers = {}                             # functions of the package with a combo_name parameter, by the name they are called by
    for m in repo.modules.values():
        if m.name in MODS:
            continue
        for c in m.classes.values():
            for n, f in c.methods.items():
                if 'combo_name' in formals(f):
                    takers.setdefault(n, []).append(f)
    for name in MODS:
        with ctx.group('combination in ' + name, name):
            M = Module_(repo, name)
            params = {}
            # parameters of functions of this module are the combination when every caller passes it
            for _ in range(4):
                seen = {}
                for fn in M.all():
                    for c in ast.walk(fn.node):
                        if isinstance(c, ast.Call):
                            n = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
                            for g in M.funcs.get(n, ()):
                                if (g.cls is None or n == g.cls.name) != isinstance(c.func, ast.Name):
                                    continue
                                b = bind(c, g)
                                for p in formals(g) if b is not None else ():
                                    if p in b:
                                        seen.setdefault((id(g.node), p), []).append(requested(b[p], fn, params))
                params = {k: True if all(x is True for x in v) else None for k, v in seen.items()}
            for fn in M.all():
                ctx.functions.add('%s.%s' % (name, fn.node.name))
                for c in ast.walk(fn.node):
                    where = '%s:%d (%s)' % (M.mod.path, getattr(c, 'lineno', 0), fn.node.name)
                    if isinstance(c, ast.Call):
                        n = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
                        mine = [g for g in M.funcs.get(n, ()) if (g.cls is None or n == g.cls.name) == isinstance(c.func, ast.Name)]
                        inner = [g for g in mine if 'combo_name' in formals(g)]
                        # a method of the module itself that takes no combination is not one of the package
                        cand = inner or (takers.get(n, []) if isinstance(c.func, ast.Attribute) and n not in M.funcs else [])
                        if not cand:
                            continue
                        rs = []
                        for g in cand:
                            b = bind(c, g)
                            rs.append(None if b is None else requested(b['combo_name'], fn, params) if 'combo_name' in b else False)
                        ok = True if any(r is True for r in rs) else False if rs and all(r is False for r in rs) else None
                        if inner and ok is False and fn.node.name in ('render_model', 'render'):
                            ok = None if 'combo_name' not in ast.dump(fn.node) else ok
                        ctx.ob(rule, '%s.%s calls %s' % (name, fn.node.name, n), ok, 'line %d: %s reads the results of another combination' % (c.lineno, ast.unparse(c)[:120]), where)
                        ctx.count('calls')
                    elif isinstance(c, ast.Subscript) and isinstance(c.value, ast.Attribute) and c.value.attr in RESULTS:
                        ctx.ob(rule, '%s.%s reads %s' % (name, fn.node.name, c.value.attr), requested(c.slice, fn, params), 'line %d: %s' % (c.lineno, ast.unparse(c)[:120]), where)
                        ctx.count('result dictionaries read')
