"""Materialised members for the rules about member results: a member with symbolic segments, a physical member with symbolic parts."""
from fractions import Fraction
from rules.ctx import *
from rules.common import *
from sa.dom import *
from sa import alg
from sa.alg import is_ind

CN1, CN2 = sym('combo', 'str'), sym('combo2', 'str')
X, A_, B_, LL = num('x'), num('xa'), num('xb'), num('xL')
SEG_OPS = ('Shear', 'moment', 'axial', 'Torsion', 'deflection', 'AxialDeflection', 'slope', 'max_shear', 'min_shear', 'max_moment', 'min_moment', 'max_axial', 'min_axial',
           'MaxTorsion', 'MinTorsion', 'max_deflection', 'min_deflection')
# quantity: direction -> (plane, segment query, does it take the second-order flag)
POINT = {
    'shear': {'Fy': ('Z', 'Shear', False), 'Fz': ('Y', 'Shear', False)},
    'moment': {'Mz': ('Z', 'moment', True), 'My': ('Y', 'moment', True)},
    'torque': {None: ('X', 'Torsion', False)},
    'axial': {None: ('Z', 'axial', False)},
    'deflection': {'dx': ('Z', 'AxialDeflection', False), 'dy': ('Z', 'deflection', True), 'dz': ('Y', 'deflection', True)},
    'rel_deflection': {'dy': ('Z', 'deflection', True), 'dz': ('Y', 'deflection', True)},
}
EXTREME = {
    'shear': {'Fy': ('Z', 'shear', False), 'Fz': ('Y', 'shear', False)},
    'moment': {'Mz': ('Z', 'moment', True), 'My': ('Y', 'moment', True)},
    'torque': {None: ('X', 'Torsion', False)},
    'axial': {None: ('Z', 'axial', False)},
}
FORCES = ('shear', 'moment', 'torque', 'axial')


def cls_of(ax):
    return 'BeamSegY' if ax == 'Y' else 'BeamSegZ'


def seg_opaque():
    op = {}
    for c in ('BeamSegZ', 'BeamSegY'):
        for m in SEG_OPS:
            op['%s.%s' % (c, m)] = ('num', False)
    for c in ('Member3D', 'PhysMember'):
        op[c + '.L'] = ('num', False)
        op[c + '.d'] = (V12, False)
    return op


def L_of(m):
    return mk('call', 'Member3D.L', m, ty='num')


def distinct(st, objs):
    for i, a in enumerate(objs):
        for b in objs[:i]:
            st.assume(alg.c_not(alg.c_eq(a, b)))


class Heap:
    """A member with n segments in every plane over 0 = x0 < x1 < ... < L."""

    def __init__(self, n=3, cls='Member3D'):
        self.m = sym('member', cls)
        self.n = n
        self.L = L_of(self.m)
        self.xs = [0] + [num('xseg%d' % i) for i in range(1, n)] + [self.L]
        self.segs = {ax: [sym('seg%s%d' % (ax, i), cls_of(ax)) for i in range(n)] for ax in 'XYZ'}
        self.K = {c: sym('LC ' + str(i), 'LoadCombo') for i, c in enumerate((CN1, CN2, 'Combo 1'))}

    def combos(self, I, st):
        # the queried combination is neither the other one nor the default one
        distinct(st, list(self.K))
        distinct(st, list(self.K.values()) + [None])
        for c, k in self.K.items():
            st.loc[('a', k, 'name')] = c
        st.loc[('r', mk_attr(MODEL, 'load_combos', 'dict:LoadCombo'))] = DictC((), tuple(self.K.items()))

    def pre(self, I, st, solution='Linear', active=True):
        put = lambda o, a, v: st.loc.__setitem__(('a', o, a), v)
        self.combos(I, st)
        for ax in 'XYZ':
            distinct(st, self.segs[ax])
        put(self.m, 'model', MODEL)
        put(MODEL, 'solution', solution)
        for ax in 'XYZ':
            for i, s in enumerate(self.segs[ax]):
                put(s, 'x1', self.xs[i])
                put(s, 'x2', self.xs[i + 1])
            put(self.m, 'Segments' + ax, I.newref(st, ListC(tuple(('x', s) for s in self.segs[ax]))))
        if active is not None:
            self.activity(I, st, self.m, active)

    def activity(self, I, st, m, active):
        st.loc[('a', m, 'active')] = I.newref(st, DictC((), tuple((c, active if c is CN1 else not active) for c in self.K)))


class Parts(Heap):
    """A physical member with n parts."""

    def __init__(self, n=3):
        Heap.__init__(self, 1, 'PhysMember')
        self.n = n
        self.subs = [sym('part%d' % i, 'Member3D') for i in range(n)]
        self.Ls = [L_of(s) for s in self.subs]

    def pre(self, I, st, solution='Linear', active=True):
        Heap.pre(self, I, st, solution, active)
        distinct(st, [sym('name%d' % i, 'str') for i in range(len(self.subs))])
        st.loc[('a', self.m, 'sub_members')] = I.newref(st, DictC((), tuple((sym('name%d' % i, 'str'), s) for i, s in enumerate(self.subs))))
        distinct(st, self.subs + [self.m])
        for s in self.subs:
            st.loc[('a', s, 'model')] = MODEL
            if active is not None:
                self.activity(I, st, s, active)


# ---------------------------------------------------------------- position of x among ordered boundaries
def regions(xs, x=X):
    """(label, index, order, point) for x inside each interval and at both kinds of ends; order lists classes of equal values."""
    out = []
    n = len(xs) - 1
    for i in range(n):
        out.append(('inside part %d of %d' % (i + 1, n), i, [[v] for v in xs[:i + 1]] + [[x]] + [[v] for v in xs[i + 1:]], x))
        out.append(('at the start of part %d of %d' % (i + 1, n), i, [[v] for v in xs[:i]] + [[xs[i], x]] + [[v] for v in xs[i + 1:]], xs[i]))
    out.append(('at the end', n - 1, [[v] for v in xs[:-1]] + [[xs[-1], x]], xs[-1]))
    return out


def order_truth(t, order):
    """Truth of a comparison atom when it compares two of the ordered values; None otherwise."""
    if not is_ind(t) or t.args[0] not in ('lt', 'zero'):
        return None
    p = t.args[1]
    flat = [(i, v) for i, c in enumerate(order) for v in c]
    for i, u in flat:
        for j, w in flat:
            if u is w or isnum(u) and isnum(w):
                continue
            d = alg.sub(u, w)
            if isnum(d):
                continue
            # p is a positive multiple of u - w  (either sign for equality)
            for s in ((1, -1) if t.args[0] == 'zero' else (1,)):
                q = alg.low(alg.poly(alg.mul(s, d)))
                if alg.low(alg.scale(alg.poly(q), 1 / alg.content(alg.poly(q)))) == p or same(q, p):
                    return (i < j) if t.args[0] == 'lt' else (i == j)
    return None


def at_region(v, order, pt, x=X):
    """v for x at the given place among the ordered boundaries."""
    for _ in range(200):
        for t in sorted(cond_atoms(v), key=lambda t: t.id):
            k = order_truth(t, order)
            if k is not None:
                v = restrict(v, t, 1 if k else 0)
                break
        else:
            t = largest(v, order)
            if t is None:
                break
            v = subst(v, {t[0]: t[1]})
    if pt is not x:
        v = subst(v, {x: pt}) if isinstance(v, (Term, Poly, Phi)) else v
    return v


def largest(v, order):
    """A maximum or minimum in v that the order decides, with its value."""
    if not isinstance(v, (Term, Poly, Phi)):
        return None
    for t in sorted((t for t in atoms_of(v) if t.op in ('max', 'min') and isinstance(t.args[0], frozenset)), key=lambda t: t.id):
        for a in t.args[0]:
            for b in t.args[0]:
                c = 1 if a is b else alg.c_lt(b, a) if t.op == 'max' else alg.c_lt(a, b)
                if not isnum(c):
                    k = order_truth(c, order)
                    if k is False and order_truth(alg.c_lt(a, b) if t.op == 'max' else alg.c_lt(b, a), order) is False:
                        k = True        # equal
                    c = k
                if not c:
                    break
            else:
                return t, a
    return None


def seg_call(ax, op, seg, *args):
    c = cls_of(ax)
    own = {'moment', 'slope', 'deflection', 'max_moment', 'min_moment'}
    return mk('call', '%s.%s' % (c if op in own else 'BeamSegZ', op), seg, *args, ty='num')


def args_of(d, *rest):
    return ([d] if d is not None else []) + list(rest)


def linspace(L, n):
    return mk('linspace', 0, L, n)
