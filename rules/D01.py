"""Dividing a physical member at its nodes preserves its definition and its loads."""
from rules.members import *

RULES = ('the parts created for a member with 0, 1 and 2 symbolic interior nodes (registered in any order, with further nodes beside, before and beyond the member) have the normal '
         'form of its definition: consecutive end nodes, same properties, releases at the outer ends, every point load on one part at the same place, and the intensity of every '
         'distributed load on every part the linear interpolation of the given one, for every order of the load among the nodes')
FLOOR = 200
F = 'PhysMember.descritize'
I_, J_, A_N, B_N = [sym(n, 'Node3D') for n in ('node i', 'node j', 'node a', 'node b')]
BEYOND, BEFORE, ASIDE = [sym(n, 'Node3D') for n in ('node beyond', 'node before', 'node aside')]
V = [num('vx'), num('vy'), num('vz')]
O = [num('X0'), num('Y0'), num('Z0')]
TA, TB, TX, TY_ = num('+ta'), num('+tb'), num('+tx'), num('+ty')
LEN = alg.power(alg.add(alg.add(alg.mul(V[0], V[0]), alg.mul(V[1], V[1])), alg.mul(V[2], V[2])), Fraction(1, 2))
W1, W2, X1, X2, P, XP = [num(n) for n in ('w1', 'w2', 'x1', 'x2', 'P', 'xp')]
REL = [sym('release %d' % i, 'bool') for i in range(12)]
POS = {I_: 0, J_: 1, A_N: TA, B_N: TB, BEYOND: TX, BEFORE: alg.mul(-1, TY_)}


class Div:
    def __init__(self, nodes, section=False, loads=(), tx=None, signs=(1, 1, 1)):
        self.v = V if tx is None else [alg.mul(s, num('+' + v.args[0])) for v, s in zip(V, signs)]
        self.pos = POS if tx is None else dict(POS, **{})
        if tx is not None:
            self.pos.update({BEYOND: tx, A_N: Fraction(1, 3), B_N: Fraction(2, 3)})
        self.m = sym('member', 'PhysMember')
        self.nodes = nodes
        self.section = sym('section', 'Section') if section else None
        self.loads = loads
        self.off = ()

    def pre(self, I, st):
        put = lambda o, a, v: st.loc.__setitem__(('a', o, a), v)
        lst = lambda xs: I.newref(st, ListC([('x', x) for x in xs]))
        m = self.m
        for n in self.nodes:
            for k, ax in enumerate('XYZ'):
                put(n, ax, alg.add(O[k], alg.mul(self.pos[n], self.v[k])) if n in POS else num('aside' + ax))
            put(n, 'name', sym('name of ' + n.args[0], 'str'))
        distinct(st, list(self.nodes))
        for a, b in ((TA, TB), (TA, 1), (TB, 1), (1, TX)):
            st.assume(alg.c_lt(a, b))
        put(m, 'i_node', I_)
        put(m, 'j_node', J_)
        put(m, 'model', MODEL)
        put(m, 'section', self.section)
        put(m, 'Releases', lst(REL))
        put(m, 'PtLoads', lst([lst(('Fy', P, XP, sym('case', 'str')))] if 'point' in self.loads else []))
        put(m, 'DistLoads', lst([lst(('Fy', W1, W2, X1, X2, sym('case', 'str')))] if 'dist' in self.loads else []))
        st.loc[('r', mk_attr(MODEL, 'nodes', 'dict:Node3D'))] = DictC((), tuple((sym('name of ' + n.args[0], 'str'), n) for n in self.nodes))
        distinct(st, [sym('name of ' + n.args[0], 'str') for n in self.nodes])
        if self.section is not None:
            # the section is registered under a name of its own
            other = sym('other section', 'Section')
            distinct(st, [other, self.section, None])
            names = [sym('other section name', 'str'), sym('section name', 'str'), mk_attr(self.section, 'name', 'str'), None]
            distinct(st, names)
            st.loc[('r', mk_attr(MODEL, 'sections', 'dict:Section'))] = DictC((), ((names[0], other), (names[1], self.section)))
        for c in self.off:
            st.assume(alg.c_not(c))

    def run(self, ctx):
        r = ctx.run(F, [], self_=self.m, pre=self.pre)
        self.r = r
        if r.dead:
            return 'raises %s' % ', '.join(sorted({x.exc for x in r.I.raises}))
        v = r.st.loc.get(('a', self.m, 'sub_members'))
        c = r.content(v) if isinstance(v, Term) else None
        if not isinstance(c, DictC) or c.parts:
            return None
        self.keys = [k for k, _ in c.top]
        self.parts = [x for _, x in c.top]
        return self.parts

    def get(self, o, a):
        return self.r.st.loc.get(('a', o, a), mk_attr(o, a))

    def items(self, o, a):
        c = self.r.content(self.get(o, a))
        return c.seq if isinstance(c, ListC) else None


def check(ctx):
    aside = outside(ctx)
    for nodes in ((I_, J_), (J_, A_N, I_), (B_N, I_, A_N, J_), (BEFORE, J_, A_N, BEYOND, B_N, I_)) + (((ASIDE, I_, J_, A_N),) if aside is not None else ()):
        for section in (False, True):
            structure(ctx, nodes, section, aside)
    for nodes in ((I_, J_), (I_, J_, A_N), (I_, J_, B_N, A_N)):
        point_loads(ctx, nodes)
        dist_loads(ctx, nodes)


def label(nodes):
    return ' '.join(str(n.args[0]).replace('node ', '') for n in nodes)


def inner(nodes):
    return [I_] + [n for n in (A_N, B_N) if n in nodes] + [J_]


def outside(ctx):
    """The test for lying on the member, applied to a node anywhere: its conditions that hold only on the line of the member."""
    rule = 'only nodes on the line between the ends divide the member'
    with ctx.group('nodes aside', F):
        D = Div((ASIDE, I_, J_))
        r = ctx.run(F, [], self_=D.m, pre=D.pre)
        if r.dead:
            return ctx.ob(rule, 'node aside', False, 'raises %s' % ', '.join(sorted({x.exc for x in r.I.raises})), F)
        vin = [alg.sub(num('aside' + ax), o) for ax, o in zip('XYZ', O)]
        dot = lambda u, w: alg.add(alg.add(alg.mul(u[0], w[0]), alg.mul(u[1], w[1])), alg.mul(u[2], w[2]))
        nrm = lambda u: alg.power(dot(u, u), Fraction(1, 2))
        cos = alg.div(dot(vin, V), alg.mul(nrm(vin), nrm(V)))
        cross = [alg.sub(alg.mul(vin[a], V[b]), alg.mul(vin[b], V[a])) for a, b in ((1, 2), (2, 0), (0, 1))]
        vj = [alg.sub(v, u) for u, v in zip(vin, V)]
        detour = alg.sub(alg.add(nrm(vin), nrm(vj)), nrm(V))
        seen = set()
        for k, v in list(r.st.loc.items()):
            if isinstance(v, (Term, Poly, Phi)):
                seen |= set(cond_atoms(r.fz(v)))
            c = r.content(v) if isinstance(v, Term) else v
            if isinstance(c, (ListC, DictC)):
                seen |= {t for t in atoms_of(mk('all', *[x for x in c.key() if isinstance(x, tuple)])) if t.op == 'ind'}
        mine = [t for t in seen if any(u.op == 'sym' and str(u.args[0]).startswith('aside') for u in atoms_of(t))]
        mine = [t for t in mine if not any(u is not t and u.op == 'ind' for u in atoms_of(t))]
        line, other = [], []
        for t in mine:
            if t.args[0] == 'zero':
                p = t.args[1]
                a = [u for u in atoms_of(p) if u.op == 'ext' and u.args[0] == 'acos']
                if len(a) == 1 and same(p, a[0]) and alg.equal(a[0].args[1], cos):
                    line.append(t)
                elif any(same(t, alg.c_eq(x, y)) for x, y in [(cos, 1), (detour, 0)] + [(c, 0) for c in cross]):
                    line.append(t)
                elif a:
                    return wrong(ctx, rule, t, False)
                else:
                    other.append(t)
        if not line:
            return wrong(ctx, rule, mine, None)
        return line


def wrong(ctx, rule, t, ok):
    ctx.ob(rule, 'node aside', ok, 'the direction of the node is compared by %s' % show(t)[:400], F)
    return None


def structure(ctx, nodes, section, aside):
    con = 'nodes %s%s' % (label(nodes), ', with section' if section else '')
    with ctx.group(con, F):
        D = Div(nodes, section)
        if ASIDE in nodes:
            D.off = tuple(aside)
        ps = D.run(ctx)
        if ps is None and ASIDE not in nodes:
            # the form is left open: look for a case of it that is decided (a wrong one is a violation)
            for tx, signs in ((Fraction(1001, 1000), (1, -1, 1)), (1000, (1, 1, -1)), (Fraction(3, 2), (-1, 1, 1))):
                E = Div(nodes, section, tx=tx, signs=signs)
                qs = E.run(ctx)
                if isinstance(qs, list) and [(E.get(p, 'i_node'), E.get(p, 'j_node')) for p in qs] != list(zip(inner(nodes), inner(nodes)[1:])):
                    D, ps, con = E, qs, con + ', other node at %s of the length' % tx
                    break
        if not isinstance(ps, list):
            ctx.ob('the member can be divided', con, None if ps is None else False, ps or 'form of the parts not recognised', F)
            return
        want = inner(nodes)
        got = [(D.get(p, 'i_node'), D.get(p, 'j_node')) for p in ps]
        ok = len(got) == len(want) - 1 and all(g[0] is a and g[1] is b for g, a, b in zip(got, want, want[1:]))
        ctx.ob('the parts cover the member from end to end in order', con, True if ok else (None if unmodelled(mk('all', *[x for g in got for x in g])) else False), 'parts between %s' % show(got)[:300], F)
        ks = D.keys
        ctx.ob('every part has a name of its own', con, all(alg.c_eq(a, b) in (0, False) or isinstance(a, Term) and a.op == 'cat' and a is not b for i, a in enumerate(ks) for b in ks[:i]), 'names %s' % show(ks)[:300], F)
        for n, p in enumerate(ps):
            pc = '%s, part %d' % (con, n + 1)
            for a, ty in (('material_name', 'str'), ('model', 'FEModel3D'), ('auxNode', 'Node3D'), ('tension_only', 'bool'), ('comp_only', 'bool')):
                ctx.eq('a part has the definition of the member', '%s %s' % (pc, a), D.get(p, a), D.get(D.m, a), F)
            mat = mk('item', mk_attr(MODEL, 'materials', 'dict:Material'), D.get(D.m, 'material_name'))
            for a in ('E', 'G'):
                g = D.get(p, a)
                ok = g is D.get(D.m, a) or isinstance(g, Term) and g.op == 'attr' and g.args[1] == a and isinstance(g.args[0], Term) and g.args[0].op == 'item' and g.args[0].args[1] is D.get(D.m, 'material_name')
                ctx.ob('a part has the definition of the member', '%s %s' % (pc, a), True if ok else (None if unmodelled(g) else False), 'is %s' % show(g)[:200], F)
            ctx.ob('a part has the section of the member', pc, D.get(p, 'section') is D.section, 'section %s' % show(D.get(p, 'section')), F)
            for a in ('A', 'Iy', 'Iz', 'J'):
                g = D.get(p, a)
                ok = same(g, D.get(D.m, a)) or section and same(g, mk_attr(D.section, a, 'num'))
                ctx.ob('a part has the definition of the member', '%s %s' % (pc, a), True if ok else (None if unmodelled(g) else False), 'is %s' % show(g)[:200], F)
            rel = D.r.content(D.get(p, 'Releases'))
            rel = rel.concrete() if isinstance(rel, ListC) else None
            if rel is None or len(rel) != 12:
                ctx.ob('the end releases are at the outer ends only', pc, None if rel is None else False, 'releases %s' % show(rel), F)
                continue
            for k in range(12):
                w = REL[k] if k < 6 and n == 0 or k >= 6 and n == len(ps) - 1 else False
                ctx.eq('the end releases are at the outer ends only', '%s release %d' % (pc, k), rel[k] if not isnum(rel[k]) else bool(rel[k]), w, F)
        for a, w in (('PtLoads', 0), ('DistLoads', 0)):
            its = D.items(D.m, a)
            ctx.ob('the definition of the member is kept', '%s %s' % (con, a), its is not None and len(its) == w, 'changed', F)
        rl = D.r.content(D.get(D.m, 'Releases'))
        ctx.ob('the definition of the member is kept', con + ' Releases', isinstance(rl, ListC) and rl.concrete() is not None and all(a is b for a, b in zip(rl.concrete(), REL)) and len(rl.concrete()) == 12, 'changed', F)


def ends(nodes):
    return [alg.mul(POS[n], LEN) for n in inner(nodes)]


def places(seq, order, r):
    """The elements of a list of loads for the given order of positions; None when a condition is left open."""
    out = []
    for p in seq:
        w = 1
        while p[0] == 'c':
            w = alg.c_and(w, at_region(p[1], order, X))
            if len(p[2]) != 1:
                return None
            p = p[2][0]
        if p[0] != 'x':
            return None
        if isnum(w):
            if w:
                out.append(p[1])
            continue
        return None
    return out


def fields(r, v, order, n):
    c = r.content(v) if isinstance(v, Term) else None
    xs = v if isinstance(v, tuple) else c.concrete() if isinstance(c, ListC) else None
    if xs is None:
        return None
    return [at_region(x, order, X) if isinstance(x, (Term, Poly, Phi)) else x for x in xs]


def point_loads(ctx, nodes):
    rule = 'every point load is on exactly one part at its place'
    con = 'nodes ' + label(nodes)
    with ctx.group('point load, ' + con, F):
        D = Div(nodes, loads=('point',))
        ps = D.run(ctx)
        bs = ends(nodes)
        if not isinstance(ps, list) or len(ps) != len(bs) - 1:
            return ctx.ob(rule, con, None, 'form of the parts not recognised', F)
        for lab, k, order, pt in regions(bs, XP):
            found, bad = [], None
            for n, p in enumerate(ps):
                seq = D.items(p, 'PtLoads')
                ls = places(seq, order, D.r) if seq is not None else None
                if ls is None:
                    bad = show(seq)[:300]
                    break
                for l in ls:
                    found.append((n, fields(D.r, l, order, 4)))
            if bad is not None:
                ctx.ob(rule, '%s, %s' % (con, lab), None, 'conditions not decided: %s' % bad, F)
                continue
            ok = len(found) == 1
            if ok:
                n, f = found[0]
                where = alg.add(f[2], bs[n]) if f is not None and len(f) == 4 else None
                at = subst(where, {XP: pt}) if where is not None and isinstance(where, (Term, Poly)) else where
                want = subst(XP, {XP: pt})
                ok = where is not None and f[0] == 'Fy' and same(f[1], P) and same(f[3], sym('case', 'str')) and (same(at, want) or alg.equal(at, want)) \
                    and (n == k or k == n + 1 and pt is not XP)
            ctx.ob(rule, '%s, %s' % (con, lab), bool(ok), 'loads on the parts: %s' % show([(n + 1, f) for n, f in found])[:400], F)


def orders(bs):
    """Every place of X1 < X2 among the boundaries: classes of equal values in order."""
    out = []

    def insert(order, x, lo):
        for k in range(lo, 2 * len(order) - 1):
            if k % 2 == 0:
                yield [c + [x] if i == k // 2 else c for i, c in enumerate(order)], k
            else:
                yield order[:(k + 1) // 2] + [[x]] + order[(k + 1) // 2:], k
    base = [[b] for b in bs]
    for o1, k1 in insert(base, X1, 0):
        i1 = [i for i, c in enumerate(o1) if X1 in c][0]
        for o2, k2 in insert(o1, X2, 2 * i1 + 1):
            out.append(o2)
    return out


def rank(order, v):
    for i, c in enumerate(order):
        for u in c:
            if u is v or same(u, v):
                return i
    return None


def dist_loads(ctx, nodes):
    rule = 'the intensity of a distributed load is the same at every place'
    con = 'nodes ' + label(nodes)
    with ctx.group('distributed load, ' + con, F):
        D = Div(nodes, loads=('dist',))
        ps = D.run(ctx)
        bs = ends(nodes)
        if not isinstance(ps, list) or len(ps) != len(bs) - 1:
            return ctx.ob(rule, con, None, 'form of the parts not recognised', F)
        w = lambda x: alg.add(W1, alg.mul(alg.div(alg.sub(W2, W1), alg.sub(X2, X1)), alg.sub(x, X1)))
        for order in orders(bs):
            lab = ' < '.join('='.join('x1' if v is X1 else 'x2' if v is X2 else 'n%d' % bs.index(v) for v in c) for c in order)
            R = lambda v: rank(order, v)
            for n, p in enumerate(ps):
                seq = D.items(p, 'DistLoads')
                ls = places(seq, order, D.r) if seq is not None else None
                if ls is None:
                    ctx.ob(rule, '%s, part %d, %s' % (con, n + 1, lab), None, 'conditions not decided: %s' % show(seq)[:300], F)
                    continue
                a = bs[n] if R(bs[n]) >= R(X1) else X1
                b = bs[n + 1] if R(bs[n + 1]) <= R(X2) else X2
                need = R(a) < R(b)
                got, ok, d = [], True, ''
                for l in ls:
                    f = fields(D.r, l, order, 6)
                    if f is None or len(f) != 6:
                        ok = None
                        break
                    s, e = alg.add(f[3], bs[n]), alg.add(f[4], bs[n])
                    if same(s, e) or alg.equal(s, e) or equal_at(s, e, order):
                        continue            # no length: no load
                    got.append((s, e, f))
                if ok is None:
                    ctx.ob(rule, '%s, part %d, %s' % (con, n + 1, lab), None, 'form of the load not recognised', F)
                    continue
                if not need:
                    ok = not got
                    d = 'a load on a part it does not touch: %s' % show(got)[:300]
                elif len(got) != 1:
                    ok, d = False, 'the part carries %d loads' % len(got)
                else:
                    s, e, f = got[0]
                    ok = (eqv(s, a) or equal_at(s, a, order)) and (eqv(e, b) or equal_at(e, b, order)) and f[0] == 'Fy' and same(f[5], sym('case', 'str')) \
                        and place_eq(f[1], w(a), order) and place_eq(f[2], w(b), order)
                    d = 'load %s from %s to %s; required from %s to %s with intensities %s, %s' % (show(f), show(s), show(e), show(a), show(b), show(w(a)), show(w(b)))
                ctx.ob(rule, '%s, part %d, %s' % (con, n + 1, lab), bool(ok), d[:600], F)


def eqv(a, b):
    return same(a, b) or arith(a) and arith(b) and alg.equal(a, b)


def merge(order):
    """Values in one class are equal."""
    m = {}
    for c in order:
        c = sorted(c, key=lambda v: v in (X1, X2))
        for v in c[1:]:
            m[v] = c[0]
    return m


def equal_at(a, b, order):
    m = merge(order)
    s = lambda v: subst(v, m) if isinstance(v, (Term, Poly, Phi)) and m else v
    return eqv(s(a), s(b))


def place_eq(a, b, order):
    return eqv(a, b) or equal_at(a, b, order)
