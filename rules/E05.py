"""Static condensation of end releases."""
from itertools import combinations
from rules.ctx import *
from rules.common import *
from rules.E01 import entries, MEMBER, reference

RULES = ('for each release pattern the condensed stiffness, fixed end reactions and geometric stiffness equal the reference elimination of the '
         'released displacements entry by entry; released rows and columns are zero')
FLOOR = 60
P = num('P')
OPQ = {'Member3D.L': ('num', False), 'Member3D._fer_unc': ('mat:12,1', False)}
BLOCKS = ((0, 6), (3, 9), (1, 5, 7, 11), (2, 4, 8, 10))
EXTRA = ((4, 5, 10, 11), (3, 4, 5), (9, 10, 11), (3, 4, 5, 10, 11), (4, 5, 9, 10, 11), (0, 4, 5), (1, 11), (0, 3, 4, 5), (6, 10, 11), (5, 7, 8), (0, 4, 5, 9, 10, 11),
         (0, 3, 1, 2), (5, 11, 4, 8, 3, 6))


def singular(rel):
    """The released part of the member is a mechanism (independent of the code)."""
    s = set(rel)
    if {0, 6} <= s or {3, 9} <= s:
        return True
    for v1, r1, v2, r2 in ((1, 5, 7, 11), (2, 4, 8, 10)):
        b = s & {v1, r1, v2, r2}
        if len(b) > 2 or b == {v1, v2}:
            return True
    return False


def patterns(tier):
    out = [()]
    n = 12
    for k in range(1, n + 1):
        for c in combinations(range(12), k):
            if not singular(c):
                out.append(c)
    return out + [tuple(sorted(e)) for e in EXTRA if tuple(sorted(e)) not in out and not singular(e)]


def column(r):
    m = r.mat()
    if isinstance(m, NC):
        from sa.models import expand
        m = expand(m)
    if isinstance(m, MatC) and m.shape in ((12, 1), (12,)):
        return list(m.e)
    return None


def rel_name(rel):
    n = ('Dx', 'Dy', 'Dz', 'Rx', 'Ry', 'Rz')
    return '+'.join(n[i % 6] + 'ij'[i//6] for i in rel) or 'none'


def eliminate(k, f, rel):
    """Static condensation on normal forms: eliminate one released displacement after the other."""
    k, f = dict(k), list(f)
    for r in rel:
        row, fr, d = {j: k[r, j] for j in range(12)}, f[r], k[r, r]
        for i in range(12):
            if isnum(k[i, r]) and k[i, r] == 0:
                continue
            c = alg.div(k[i, r], d)
            for j in range(12):
                if not (isnum(row[j]) and row[j] == 0):
                    v = alg.sub(k[i, j], alg.mul(c, row[j]))
                    k[i, j] = 0 if alg.is_zero(v) else v
            f[i] = alg.sub(f[i], alg.mul(c, fr))
    return k, f


def check(ctx):
    k0 = g0 = f0 = None
    with ctx.group('unreleased member'):
        k0 = entries(ctx.run('Member3D._k_unc', [], self_=MEMBER, opaque=OPQ))
        g0, pre = None, None
        f0 = column(ctx.run('Member3D._fer_unc', [CN], self_=MEMBER, opaque=OPQ))
        lt = ctx.run('Member3D.L', [], self_=MEMBER, opaque=OPQ).v
        kr, gr = reference()
        g0 = {ij: subst(v, {num('L'): lt}) for ij, v in gr.items()}
    for rel in patterns(ctx.tier):
        nm = rel_name(rel)

        def pre(I, st):
            st.loc[('a', MEMBER, 'Releases')] = tuple(i in rel for i in range(12))
        with ctx.group('releases ' + nm):
            wk, wf = eliminate(k0, f0, rel)
            # a released geometric stiffness is condensed on its own; without lateral stiffness there is nothing to condense
            r = ctx.run('Member3D.k', [], self_=MEMBER, opaque=OPQ, pre=pre)
            matrix(ctx, 'condensed stiffness', nm, None if r.dead else entries(r), wk, rel, 'Member3D.k')
            r = ctx.run('Member3D.fer', [CN], self_=MEMBER, opaque=OPQ, pre=pre)
            vector(ctx, 'condensed fixed end reactions', nm, None if r.dead else column(r), wf, rel, 'Member3D.fer')
            ctx.count('release patterns')
        if all(i % 6 in (4, 5) for i in rel) and rel:
            with ctx.group('geometric stiffness, releases ' + nm):
                wg, _ = eliminate(g0, [0]*12, rel)
                r = ctx.run('Member3D.kg', [P], self_=MEMBER, opaque=OPQ, pre=pre)
                got = None if r.dead else entries(r)
                z = alg.c_eq(P, 0)
                if got is not None:
                    got = {ij: restrict(v, z, 0) for ij, v in got.items()}
                matrix(ctx, 'condensed geometric stiffness', nm, got, wg, rel, 'Member3D.kg')


def matrix(ctx, rule, nm, got, want, rel, q):
    if got is None:
        ctx.ob(rule, nm, None, 'the matrix is not resolved entry by entry', q)
        return
    bad = [ij for ij in sorted(want) if not alg.equal(got[ij], want[ij])]
    rz = [ij for ij in bad if ij[0] in rel or ij[1] in rel]
    verdict(ctx, 'released ends carry no force', rule + ', releases ' + nm, rz, got, want, q)
    verdict(ctx, rule, 'releases ' + nm, [ij for ij in bad if ij not in rz], got, want, q)


def vector(ctx, rule, nm, got, want, rel, q):
    if got is None:
        ctx.ob(rule, nm, None, 'the vector is not resolved entry by entry', q)
        return
    bad = [i for i in range(12) if not alg.equal(got[i], want[i])]
    rz = [i for i in bad if i in rel]
    verdict(ctx, 'released ends carry no force', rule + ', releases ' + nm, rz, got, want, q)
    verdict(ctx, rule, 'releases ' + nm, [i for i in bad if i not in rz], got, want, q)


def verdict(ctx, rule, nm, bad, got, want, q):
    u = set()
    for i in bad:
        u |= unmodelled(got[i]) | weak(got[i])
    d = '; '.join('entry %s: code gives %s ; required %s' % (i, show(got[i])[:150], show(want[i])[:150]) for i in bad[:2])
    ctx.ob(rule, nm, True if not bad else None if u else False, d, q)
