"""Deleting, merging and renaming keep every reference consistent."""
from rules.api import *
from sa.interp import simp
from sa.dom import DictC, ListC, dict_get, MISSING
from rules.P01 import T
from rules.P03 import coll, DOF

RULES = ('membership of a generic entry in every collection after a deletion equals membership before minus exactly the entries attached to what was deleted; '
         'after delete_loads every load list of every object is a new empty list and nothing but loads and results changes; on a heap with coincident nodes '
         'carrying every kind of attachment, support, spring, load and enforced displacement in turn, the merged model refers to surviving nodes only and the '
         'survivor carries everything; after renaming every object is kept and stored under its own new name, in the model and in the meshes')
FLOOR = 120
NAME = sym('name', 'str')
KEY = sym('k', 'str')
SLOTS = {'springs': 'ij', 'members': 'ij', 'plates': 'ijmn', 'quads': 'ijmn'}
RESULTS = tuple(DOF) + ('RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ', 'SegmentsX', 'SegmentsY', 'SegmentsZ', '_solved_combo', '_D', 'solution', 'sub_members')
LOADS = {'members': ('PtLoads', 'DistLoads'), 'plates': ('pressures',), 'quads': ('pressures',), 'nodes': ('NodeLoads',)}


def check(ctx):
    deletions(ctx)
    delete_loads(ctx)
    merge(ctx)
    chain(ctx)
    rename(ctx)


# ------------------------------------------------------------------ deletions
def presence(r, c):
    d = store(r, MODEL, c, 'dict:' + T[c])
    if isinstance(d, DictC):
        return r.I.present(dict_get(d, KEY), coll(c), KEY)
    v = r.st.loc.get(('a', MODEL, c))
    return mk('unk', 'collection %s' % c) if d is not None or v is not None else ind('in', KEY, coll(c))


def deletions(ctx):
    for n, victim in (('delete_node', 'nodes'), ('delete_auxnode', 'aux_nodes'), ('delete_spring', 'springs'), ('delete_member', 'members')):
        q = 'FEModel3D.' + n
        with ctx.group(n, q):
            r = ctx.run(q, [NAME], self_=MODEL, pre=lambda I, st: st.assume(ind('in', NAME, coll(victim))))
            for c in T:
                before = ind('in', KEY, coll(c))
                want = before
                if c == victim:
                    want = alg.mul(before, alg.c_not(alg.c_eq(KEY, NAME)))
                elif n == 'delete_node' and c in SLOTS:
                    it = mk_item(coll(c), KEY)
                    for s in SLOTS[c]:
                        want = alg.mul(want, alg.c_not(alg.c_eq(mk_attr(mk_attr(it, s + '_node', 'Node3D'), 'name', 'str'), NAME)))
                got = presence(r, c)
                rule = 'the deleted object leaves its collection' if c == victim else 'everything attached to it, and nothing else, leaves the model'
                ok, d = eq_cases(got, want) if not unmodelled(got) else (None, '')
                ctx.ob(rule, '%s: %s' % (n, c), ok, 'an entry k is still in the model when %s ; required %s' % (show(got)[:400], show(want)[:400]), q)
            if n == 'delete_auxnode':
                aux(ctx, n, r, q)
            else:
                rest(ctx, n, r, q, ())


def aux(ctx, n, r, q):
    """No member keeps the deleted auxiliary node: where the member's auxiliary node was the deleted one, it is None afterwards."""
    m = mk_elem(coll('members'), 0)
    old = mk_attr(m, 'auxNode', 'Node3D')
    v = r.st.loc.get(('a', m, 'auxNode'), old)
    gone = mk_item(coll('aux_nodes'), NAME)
    was = State()
    for e in (alg.c_eq(old, gone), ind('is', old, gone), ind('is', gone, old), alg.c_eq(mk_attr(old, 'name', 'str'), NAME), alg.c_eq(mk_attr(old, 'name', 'str'), mk_attr(gone, 'name', 'str'))):
        was.assume(e)
    was.assume(alg.c_not(ind('is', old, None)))
    was.assume(ind('truthy', old))
    ok = True
    for c, a in alg.alts(v):
        if a is None:
            continue
        c = simp(c, was.facts)
        if not (isnum(c) and c == 0):
            ok = None if unmodelled(v) or unmodelled(c) else False
    ctx.ob('no member keeps a deleted auxiliary node', n, ok, 'auxNode of a member becomes %s' % show(v)[:300], q)
    keep = State()
    keep.assume(alg.c_not(alg.c_eq(old, gone)))
    keep.assume(alg.c_not(alg.c_eq(mk_attr(old, 'name', 'str'), NAME)))
    keep.assume(alg.c_not(alg.c_eq(mk_attr(old, 'name', 'str'), mk_attr(gone, 'name', 'str'))))
    lost = [c for c, a in ((simp(c, keep.facts), a) for c, a in alg.alts(v)) if a is None and not (isnum(c) and c == 0)]
    ctx.ob('members keep their other auxiliary nodes', n, True if not lost else None if unmodelled(v) else False, 'auxNode of a member becomes %s' % show(v)[:300], q)
    rest(ctx, n, r, q, ('auxNode',))


def rest(ctx, n, r, q, allowed):
    other = []
    for k in effects(r.st, r.I):
        if k[0] is MODEL and (k[1] in T or k[1] == 'solution'):
            continue
        if len(k) == 1 and any(k[0] is coll(c) for c in T):
            continue
        if len(k) == 2 and k[1] in allowed:
            continue
        other.append(label(k))
    ctx.ob('nothing else changes', n, True if not other else None if any('unk' in x for x in other) else False, 'also changes %s' % ', '.join(other)[:300], q)


# ------------------------------------------------------------------ loads
def delete_loads(ctx):
    q = 'FEModel3D.delete_loads'
    with ctx.group('delete_loads', q):
        r = ctx.run(q, [], self_=MODEL)
        e = effects(r.st, r.I)
        seen = set()
        for c, attrs in LOADS.items():
            o = mk_elem(coll(c), 0)
            for a in attrs:
                lab = '%s.%s' % (c, a)
                t = mk_attr(o, a, 'list')
                v = r.st.loc.get(('a', o, a))
                seen |= {(o, a)} | {k for k in e if len(k) == 1 and isinstance(k[0], Term) and k[0].op == 'attr' and k[0].args[0] is o and k[0].args[1] == a}
                cont = r.content(v) if isinstance(v, Term) and v.op == 'ref' else r.content(next((k[0] for k in e if len(k) == 1 and isinstance(k[0], Term) and k[0].op == 'attr' and k[0].args[0] is o and k[0].args[1] == a), t))
                if isinstance(v, Term) and v.op == 'seq':
                    empty = not v.args[0]
                elif isinstance(cont, ListC):
                    empty = not cont.seq
                else:
                    empty = None if v is not None and unmodelled(v) else False
                ctx.ob('every load is removed', lab, empty, '%s becomes %s' % (lab, show(mk('seq', tuple(cont.seq), 'list') if isinstance(cont, ListC) else v)[:300]), q)
                if isinstance(v, Term) and v.op == 'ref' and o not in atoms_of(v):
                    ctx.ob('no two objects share a load list', lab, False, 'the same list is stored in every object of model.%s' % c, q)
        other = [k for k in e if k not in seen and not (len(k) == 2 and k[1] in RESULTS) and not (len(k) == 1 and isinstance(k[0], Term) and k[0].op == 'attr' and k[0].args[1] in RESULTS)]
        ctx.ob('only loads and results are removed', 'delete_loads', True if not other else None if any('unk' in label(k) for k in other) else False,
               'also changes %s' % ', '.join(label(k) for k in other)[:300], q)


# ------------------------------------------------------------------ merging
X, Y, Z, D_, TOL = (num(x) for x in ('X', 'Y', 'Z', 'd', 'tol'))


class Heap:
    """Coincident nodes A, B, D and a distant node C; every kind of element attached to one of the coincident nodes by each of its slots."""
    def __init__(self, at, mesh):
        self.nodes = {n: sym('node ' + n, 'Node3D') for n in 'ABDC'}
        self.at, self.mesh = at, mesh
        self.el = {}
        for c, sl in SLOTS.items():
            for s in sl:
                self.el[(c, s)] = sym('%s at %s' % (c, s), T[c])
        self.msh = sym('mesh', 'Mesh')

    def __call__(self, I, st):
        st.assume(alg.c_lt(0, TOL))
        for n, o in self.nodes.items():
            st.assume(alg.c_not(alg.c_eq(o, None)))
            st.assume(alg.c_not(ind('is', o, None)))
            w = {'name': n, 'X': X if n != 'C' else alg.add(X, D_), 'Y': Y, 'Z': Z}
            for k, v in w.items():
                st.loc[('a', o, k)] = v
            for k in DOF:
                st.loc[('a', o, 'support_' + k)] = sym('support %s %s' % (k, n), 'bool')
                own = n == self.at or n == 'C'
                vals = (num('spring %s %s' % (k, n)), None, True) if own else (None, None, None)
                st.loc[('a', o, 'spring_' + k)] = I.newref(st, ListC(tuple(('x', v) for v in vals)))
                st.loc[('a', o, 'Enforced' + k)] = num('enforced %s %s' % (k, n)) if own else None
        for (c, s), o in self.el.items():
            st.loc[('a', o, 'name')] = c + s
            st.assume(alg.c_not(alg.c_eq(o, None)))
            for t in 'ijmn':
                if t in SLOTS[c]:
                    st.loc[('a', o, t + '_node')] = self.nodes[self.at if t == s else 'C']
                else:
                    st.assume(alg.c_not(ind('hasattr', o, t + '_node')))
        for a, b in (('A', 'C'), ('C', 'A')):
            o, p = self.nodes[a], self.nodes[b]
            f = I.repo.need('Node3D.distance')
            dist = I.call_func(f, o, [p], {}, st)
            st.assume(alg.c_lt(TOL, dist))
            st.assume(alg.c_not(alg.c_lt(dist, TOL)))
        self.set(st, coll('nodes'), [(n, o) for n, o in self.nodes.items()])
        for c in SLOTS:
            self.set(st, coll(c), [(c + s, self.el[(c, s)]) for s in SLOTS[c]])
        self.set(st, coll('meshes'), [('MSH', self.msh)] if self.mesh else [])
        if self.mesh:
            self.set(st, mk_attr(self.msh, 'nodes', 'dict:Node3D'), [(n, self.nodes[n]) for n in self.mesh])
            self.set(st, mk_attr(self.msh, 'elements', 'dict:Quad3D'), [('quads' + s, self.el[('quads', s)]) for s in 'ijmn'])

    def set(self, st, t, items):
        st.loc[('r', t)] = DictC((), tuple(items))


def entries(d):
    """{key: value} of a dictionary that is completely known."""
    if not isinstance(d, DictC) or d.parts:
        return None
    out = {}
    for k, v in d.top:
        if v is MISSING:
            continue
        if not isinstance(k, str) or isinstance(v, Phi):
            return None
        out[k] = v
    return out


def merge(ctx):
    q = 'FEModel3D.merge_duplicate_nodes'
    for at, mesh in (('A', ''), ('B', ''), ('D', ''), ('B', 'BC'), ('B', 'ABDC'), ('D', 'DC'), ('A', 'ABDC')):
        lab = 'attachments at node %s%s' % ('123'['ABD'.index(at)], ', mesh with nodes ' + mesh if mesh else '')
        with ctx.group(lab, q):
            h = Heap(at, mesh)
            r = ctx.run(q, [TOL], self_=MODEL, pre=h)
            if r.dead:
                ctx.ob('merging completes', lab, False if not r.I.unk else None, 'every path raises', q)
                continue
            nodes = entries(store(r, MODEL, 'nodes', 'dict:Node3D'))
            if nodes is None:
                ctx.ob('duplicates are merged', lab, None, 'remaining nodes %s' % show(store(r, MODEL, 'nodes', 'dict:Node3D'))[:300], q)
                continue
            left = [n for n in 'ABD' if nodes.get(n) is h.nodes[n]]
            ok = len(left) == 1 and len(nodes) == 2 and nodes.get('C') is h.nodes['C']
            ctx.ob('duplicates are merged', lab, ok, 'nodes left: %s' % sorted(nodes), q)
            if len(left) != 1:
                continue
            keep = h.nodes[left[0]]
            ctx.eq('the survivor keeps its name', lab, r.st.loc.get(('a', keep, 'name')), left[0], q)
            for (c, s), o in h.el.items():
                for t in SLOTS[c]:
                    v = r.st.loc.get(('a', o, t + '_node'))
                    want = keep if t == s else h.nodes['C']
                    sub = '%s: %s, %s end' % (lab, c, t)
                    ctx.ob('every element is attached to a node that is left', sub, True if v is want else None if unmodelled(v) or isinstance(v, Phi) else False,
                           'attached to %s instead of %s' % (show(v)[:200], show(want)), q)
            for c in SLOTS:
                e = entries(store(r, MODEL, c, 'dict:' + T[c]))
                ctx.ob('no element is lost', '%s: %s' % (lab, c), None if e is None else sorted(e) == sorted(c + s for s in SLOTS[c]), 'left: %s' % (e and sorted(e)), q)
            for k in DOF:
                sup = r.st.loc.get(('a', keep, 'support_' + k))
                want = 0
                for n in 'ABD':
                    want = alg.c_or(want, ind('truthy', sym('support %s %s' % (k, n), 'bool')))
                g = boolean(sup)
                w = boolean(want)
                ok = None
                if g is not None and w is not None:
                    ok, _ = eq_cases(g, w)
                ctx.ob('supports are kept', '%s: %s' % (lab, k), ok, 'support flag becomes %s' % show(sup)[:300], q)
                en = r.st.loc.get(('a', keep, 'Enforced' + k))
                ctx.eq('enforced displacements are kept', '%s: %s' % (lab, k), en, num('enforced %s %s' % (k, at)), q)
                sp = r.st.loc.get(('a', keep, 'spring_' + k))
                c = vec(r, sp) if isinstance(sp, Term) else None
                if c is None or len(c) != 3:
                    ctx.ob('support springs are kept', '%s: %s' % (lab, k), None if isinstance(sp, Phi) or unmodelled(sp) else False, 'becomes %s' % show(r.I.fz(sp, r.st))[:300], q)
                else:
                    ctx.eq('support springs are kept', '%s: %s' % (lab, k), c[0], num('spring %s %s' % (k, at)), q)
            loads = r.content(r.st.loc.get(('a', keep, 'NodeLoads')) or mk_attr(keep, 'NodeLoads', 'list'))
            if isinstance(loads, ListC):
                names = sorted(show(p[1]) for p in loads.seq if p[0] == 'b')
                extra = [p for p in loads.seq if p[0] != 'b']
                ctx.ob('nodal loads are kept', lab, None if extra else names == sorted('node %s.NodeLoads' % n for n in 'ABD'),
                       'loads of the merged node: %s' % ', '.join(names), q)
            else:
                ctx.ob('nodal loads are kept', lab, False if loads is None and not r.I.unk else None, 'nodal loads of the merged node %s' % show(loads)[:200], q)
            for k in DOF:
                C = h.nodes['C']
                for a, w in (('support_' + k, sym('support %s C' % k, 'bool')), ('Enforced' + k, num('enforced %s C' % k))):
                    ctx.eq('other nodes are not touched', '%s: %s' % (lab, a), r.st.loc.get(('a', C, a)), w, q)
            if mesh:
                mn = entries(store(r, h.msh, 'nodes', 'dict:Node3D'))
                want = {left[0]: keep, 'C': h.nodes['C']}
                ctx.ob('meshes refer to the nodes that are left', lab, None if mn is None else set(mn) == set(want) and all(mn[x] is want[x] for x in want),
                       'mesh nodes: %s' % ({k: show(v) for k, v in (mn or {}).items()},), q)


def chain(ctx):
    """Three nodes of which the first and the last are near the one between them but not near each other."""
    q = 'FEModel3D.merge_duplicate_nodes'
    for order in ('ACB', 'ABC', 'BAC'):
        lab = 'nodes in the order %s, B near A and C' % order
        with ctx.group(lab, q):
            o = {n: sym('node ' + n, 'Node3D') for n in 'ABC'}

            def heap(I, st):
                st.assume(alg.c_lt(0, TOL))
                for n, x in o.items():
                    st.assume(alg.c_not(ind('is', x, None)))
                    for k, v in {'name': n, 'X': num('X ' + n), 'Y': num('Y ' + n), 'Z': num('Z ' + n)}.items():
                        st.loc[('a', x, k)] = v
                    for k in DOF:
                        st.loc[('a', x, 'spring_' + k)] = I.newref(st, ListC(tuple(('x', None) for _ in range(3))))
                        st.loc[('a', x, 'Enforced' + k)] = None
                for a in 'ABC':
                    for b in 'ABC':
                        if a != b:
                            dist = I.call_func(I.repo.need('Node3D.distance'), o[a], [o[b]], {}, st)
                            far = alg.c_lt(TOL, dist)
                            if {a, b} == {'A', 'C'}:
                                st.assume(far)
                                st.assume(alg.c_not(alg.c_lt(dist, TOL)))
                            else:
                                st.assume(alg.c_lt(dist, TOL))
                                st.assume(alg.c_not(far))
                st.loc[('r', coll('nodes'))] = DictC((), tuple((n, o[n]) for n in order))
                for c in SLOTS:
                    st.loc[('r', coll(c))] = DictC((), ())
                st.loc[('r', coll('meshes'))] = DictC((), ())
            r = ctx.run(q, [TOL], self_=MODEL, pre=heap)
            if r.dead:
                ctx.ob('merging completes', lab, False if not r.I.unk else None, 'every path raises', q)
                continue
            nodes = entries(store(r, MODEL, 'nodes', 'dict:Node3D'))
            want = {'ACB': 'AC', 'ABC': 'AC', 'BAC': 'B'}[order]
            ctx.ob('duplicates are merged', lab, None if nodes is None else sorted(nodes) == sorted(want) or order != 'BAC' and sorted(nodes) in (['B'],),
                   'nodes left: %s' % sorted(nodes or ()), q)


def boolean(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Phi):
        r = 0
        for c, a in v.alts:
            b = boolean(a)
            if b is None:
                return None
            r = alg.add(r, alg.mul(c, b))
        return r
    if isinstance(v, Term):
        return ind('truthy', v) if v.op != 'ind' and v.ty == 'bool' and v.op == 'sym' else v
    if isinstance(v, Poly) or isnum(v):
        return v
    return None


# ------------------------------------------------------------------ renaming
OLD = {'nodes': ('N2', 'corner', 'N1'), 'springs': ('S3', 'S1', 'x'), 'members': ('M2', 'M1', 'beam'), 'plates': ('P3', 'wall', 'P2'), 'quads': ('Q2', 'Q3', 'Q1')}


def rename(ctx):
    q = 'FEModel3D.rename'
    with ctx.group('rename', q):
        objs = {(c, n): sym('%s %s' % (c, n), T[c]) for c in OLD for n in OLD[c]}
        msh = sym('mesh', 'Mesh')

        def heap(I, st):
            for (c, n), o in objs.items():
                st.loc[('a', o, 'name')] = n
            for c in OLD:
                st.loc[('r', coll(c))] = DictC((), tuple((n, objs[(c, n)]) for n in OLD[c]))
            st.loc[('r', coll('meshes'))] = DictC((), (('MSH', msh),))
            st.loc[('r', mk_attr(msh, 'nodes', 'dict:Node3D'))] = DictC((), tuple((n, objs[('nodes', n)]) for n in OLD['nodes'][:2]))
            st.loc[('r', mk_attr(msh, 'elements', 'dict:Quad3D'))] = DictC((), tuple((n, objs[('quads', n)]) for n in OLD['quads'][1:]))
        r = ctx.run(q, [], self_=MODEL, pre=heap)
        if r.dead:
            ctx.ob('renaming completes', 'rename', False if not r.I.unk else None, 'every path raises', q)
            return

        def named(lab, d, want):
            e = entries(d)
            if e is None:
                ctx.ob('no object is lost', lab, None, show(d)[:300], q)
                return
            ctx.ob('no object is lost', lab, sorted(x.id for x in e.values()) == sorted(x.id for x in want), 'objects left: %s' % ', '.join(show(x) for x in e.values()), q)
            for k, o in e.items():
                ctx.eq('each object is stored under its own name', '%s: %s' % (lab, show(o)), r.st.loc.get(('a', o, 'name'), mk_attr(o, 'name')), k, q)
        for c in OLD:
            named(c, store(r, MODEL, c, 'dict:' + T[c]), [objs[(c, n)] for n in OLD[c]])
        named('nodes of a mesh', store(r, msh, 'nodes', 'dict:Node3D'), [objs[('nodes', n)] for n in OLD['nodes'][:2]])
        named('elements of a mesh', store(r, msh, 'elements', 'dict:Quad3D'), [objs[('quads', n)] for n in OLD['quads'][1:]])
    with ctx.group('rename, any number of objects', q):
        r = ctx.run(q, [], self_=MODEL)
        for c in OLD:
            d = store(r, MODEL, c, 'dict:' + T[c])
            o = mk_elem(coll(c), 0)
            ok = None
            if isinstance(d, DictC) and not d.top:
                for p in d.parts:
                    if p[0] == 'f' and p[1] is o and len(p[2]) == 1 and p[2][0][0] == 'x' and p[2][0][1][0] == 'set':
                        _, k, v = p[2][0][1]
                        ok = v is o and same(r.st.loc.get(('a', o, 'name')), k) and any(t.op == 'idx' and t.args[0] is o for t in atoms_of(k))
                        ok = ok or None
            ctx.ob('each object is stored under its own, numbered name', c, ok, show(d)[:300] if d is not None else '', q)
