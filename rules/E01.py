"""Member and spring stiffness matrices."""
from rules.ctx import *
from rules.common import *

RULES = ('every entry of the member stiffness matrices equals the exact integral of the shape function derivatives (computed on normal '
         'forms); symmetry; rigid body translations give no force')
FLOOR = 150
L, XX, P = num('L'), num('x'), num('P')
MEMBER = sym('member', 'Member3D')
OPQ = {'Member3D.L': ('num', False), 'Spring3D.L': ('num', False)}


def integral(v):
    """Integral of a polynomial in x from 0 to L."""
    r = 0
    for m, c in alg.poly(v).t.items():
        n = 0
        rest = []
        for a, e in m:
            if a is XX:
                n = e
            else:
                rest.append((a, e))
        k = alg.low(Poly({frozenset(rest): c}))
        r = alg.add(r, alg.mul(k, alg.div(alg.power(L, n + 1), n + 1)))
    return r


def shapes():
    """Shape function of every end displacement: (kind, function of x)."""
    s = alg.div(XX, L)
    s2, s3 = alg.power(s, 2), alg.power(s, 3)
    lin = (alg.sub(1, s), s)
    h = (alg.add(alg.sub(1, alg.mul(3, s2)), alg.mul(2, s3)),
         alg.mul(L, alg.add(alg.sub(s, alg.mul(2, s2)), s3)),
         alg.sub(alg.mul(3, s2), alg.mul(2, s3)),
         alg.mul(L, alg.sub(s3, s2)))
    f = {}
    for e in (0, 1):
        o = 6*e
        f[o] = ('axial', lin[e])
        f[o + 3] = ('torsion', lin[e])
        f[o + 1] = ('z', h[2*e])
        f[o + 5] = ('z', h[2*e + 1])
        f[o + 2] = ('y', h[2*e])
        f[o + 4] = ('y', alg.neg(h[2*e + 1]))     # a positive rotation about y lowers w along x
    return f


def reference():
    at = {x: mk_attr(MEMBER, x, 'num') for x in ('E', 'G', 'A', 'Iy', 'Iz', 'J')}
    w = {'axial': (1, alg.mul(at['E'], at['A'])), 'torsion': (1, alg.mul(at['G'], at['J'])),
         'z': (2, alg.mul(at['E'], at['Iz'])), 'y': (2, alg.mul(at['E'], at['Iy']))}
    g = {'axial': 0, 'z': P, 'y': P, 'torsion': alg.mul(P, alg.div(alg.add(at['Iy'], at['Iz']), at['A']))}
    f = shapes()
    k, kg = {}, {}

    def d(v, n):
        for _ in range(n):
            v = alg.diff(v, XX)
        return v
    for i in range(12):
        for j in range(12):
            (a, p), (b, q) = f[i], f[j]
            if a != b:
                k[i, j] = kg[i, j] = 0
                continue
            n, c = w[a]
            k[i, j] = alg.mul(c, integral(alg.mul(d(p, n), d(q, n))))
            kg[i, j] = alg.mul(g[a], integral(alg.mul(d(p, 1), d(q, 1))))
    return k, kg


def entries(r):
    m = r.mat()
    if isinstance(m, NC):
        from sa.models import expand
        m = expand(m)
    if isinstance(m, MatC) and m.shape == (12, 12):
        return {(i, j): m.e[12*i + j] for i in range(12) for j in range(12)}
    return None


def no_releases(I, st):
    st.loc[('a', MEMBER, 'Releases')] = (False,)*12


def compare(ctx, name, got, want, q):
    if got is None:
        ctx.ob(name, 'matrix', None, 'the returned matrix is not resolved entry by entry', q)
        return
    for ij in sorted(want):
        ctx.eq(name, 'entry %d,%d' % ij, subst(got[ij], LMAP), want[ij], q)
    bad = [ij for ij in got if not alg.equal(got[ij], got[ij[::-1]])]
    ctx.ob('symmetric', name, True if not bad else False if not any(unmodelled(got[x]) for x in bad) else None, 'entries %s' % bad[:3], q)
    for ax in range(3):
        s = [alg.add(got[i, ax], got[i, ax + 6]) for i in range(12)]
        ok = all(alg.is_zero(x) for x in s)
        ctx.ob('rigid translation gives no force', '%s axis %d' % (name, ax), ok if ok or not any(unmodelled(x) for x in s) else None,
               'row sums %s' % [show(x)[:60] for x in s], q)
    ctx.count('matrices')


LMAP = {}


def check(ctx):
    k, kg = reference()
    for c in ('Member3D', 'Spring3D'):
        o = MEMBER if c == 'Member3D' else sym('spring', 'Spring3D')
        v = ctx.run(c + '.L', [], self_=o, opaque=OPQ).v
        if isinstance(v, Term):
            LMAP[v] = L
    with ctx.group('member stiffness'):
        r = ctx.run('Member3D._k_unc', [], self_=MEMBER, opaque=OPQ)
        compare(ctx, 'elastic stiffness', entries(r), k, 'Member3D._k_unc')
    with ctx.group('member stiffness without releases'):
        r = ctx.run('Member3D.k', [], self_=MEMBER, opaque=OPQ, pre=no_releases)
        compare(ctx, 'elastic stiffness, no releases', entries(r), k, 'Member3D.k')
    with ctx.group('geometric stiffness'):
        r = ctx.run('Member3D.kg', [P], self_=MEMBER, opaque=OPQ, pre=no_releases)
        got = entries(r)
        compare_zero(ctx, 'geometric stiffness', got, kg, 'Member3D.kg')
    with ctx.group('spring stiffness'):
        s = sym('spring', 'Spring3D')
        r = ctx.run('Spring3D.k', [], self_=s, opaque=OPQ)
        ks = mk_attr(s, 'ks', 'num')
        want = {(i, j): 0 for i in range(12) for j in range(12)}
        want[0, 0] = want[6, 6] = ks
        want[0, 6] = want[6, 0] = alg.neg(ks)
        compare(ctx, 'spring stiffness', entries(r), want, 'Spring3D.k')


def compare_zero(ctx, name, got, want, q):
    """The entries may be given as an explicit zero when the axial force is zero."""
    if got is None:
        return compare(ctx, name, got, want, q)
    z = alg.c_eq(P, 0)
    red = {}
    for ij, v in got.items():
        a, b = (restrict(v, z, 0), restrict(v, z, 1)) if isinstance(z, Term) else (v, v)
        if isinstance(b, (Term, Poly)):
            b = subst(b, {P: 0})
        ok = alg.is_zero(b)
        if not ok:
            ctx.ob('no axial force, no geometric stiffness', 'entry %d,%d' % ij, None if unmodelled(b) else False, show(b)[:200], q)
        red[ij] = a
    compare(ctx, name, red, want, q)
