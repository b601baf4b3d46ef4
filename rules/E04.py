"""Transformations between the local and the global description of elements."""
from rules.ctx import *
from rules.common import *
from sa.dom import nc_term, nc_of, NC, MatC

RULES = ('K, Kg, Km, F and FER equal inv(T) applied to the local matrices and vectors (then T), d equals T D, f equals k d + fer (+ kg(P) d in a '
         'second-order solution), as identities of matrix products; every node block of T is the same triad; every entry of D is the displacement of the right node and direction; '
         'the transformation is orthogonal (E03), so its transpose is its inverse')
FLOOR = 60
PP, STEP, PUSH = num('P'), num('step'), sym('push combination', 'str')
LOCAL = {'Member3D': ('T', 'k', 'kg', 'km', 'D', 'fer', 'L'), 'Spring3D': ('T', 'k', 'D', 'L'),
         'Plate3D': ('T', 'k', 'D', 'fer'), 'Quad3D': ('T', 'k', 'D', 'fer')}


def opq(cls, but=()):
    o = elem_opaque()
    return {q: o[q] for q in ('%s.%s' % (cls, m) for m in LOCAL[cls] if m not in but)}


def canon(v, T):
    """T is orthogonal: its transpose is its inverse, and the inverse of the transpose is T."""
    for _ in range(3):
        m = {}
        for t in atoms_of(v) if isinstance(v, Term) else ():
            if t.op == 'mT' and t.args[0] is T:
                m[t] = mk('minv', T, ty=T.ty)
            elif t.op == 'minv' and isinstance(t.args[0], Term) and t.args[0].op == 'mT' and t.args[0].args[0] is T:
                m[t] = T
            elif t.op == 'solve' and t.args[0] is T:
                m[t] = nc_term(NC({(mk('minv', T, ty=T.ty),) + w: c for w, c in nc_of(t.args[1]).t.items()}, mshape(t.ty)))
        if not m:
            break
        v = subst(v, m)
    return v


def pre(I, st):
    # the push-over analysis is not part of the public interface
    st.assume(alg.c_not(alg.c_eq(mk_attr(MODEL, 'solution', 'str'), 'Pushover')))


def check(ctx):
    elements(ctx, LOCAL)


def one_triad(ctx, cls, el):
    """Every node block of the transformation is the same 3 by 3 block, and nothing stands outside of the blocks."""
    q = cls + '.T'
    with ctx.group(q, q):
        r = ctx.run(q, [], self_=el)
        m = r.mat() if not r.dead else None
        if isinstance(m, NC):
            from sa.models import expand
            m = expand(m)
        n = 12 if 'L' in LOCAL[cls] else 24
        if not isinstance(m, MatC) or m.shape != (n, n):
            return ctx.ob('one triad for every node', q, None, 'the transformation is not resolved entry by entry', q)
        for b in range(1, n//3):
            bad = [(i, j) for i in range(3) for j in range(3) if not alg.equal(m.e[(3*b + i)*n + 3*b + j], m.e[i*n + j])]
            u = any(unmodelled(m.e[(3*b + i)*n + 3*b + j]) or unmodelled(m.e[i*n + j]) for i, j in bad)
            ctx.ob('one triad for every node', '%s, block %d' % (q, b), True if not bad else None if u else False, 'entries %s differ from those of the first block' % bad[:4], q)
        out = [(i, j) for i in range(n) for j in range(n) if i//3 != j//3 and not (isnum(m.e[i*n + j]) and m.e[i*n + j] == 0)]
        ctx.ob('nothing outside the node blocks', q, not out, 'entries %s' % out[:4], q)


def elements(ctx, classes):
    for cls in classes:
        el = sym('element ' + cls, cls)
        one_triad(ctx, cls, el)
        F = {'Member3D': 'F_member', 'Spring3D': 'F_spring'}.get(cls, 'F')
        f = {'Member3D': 'f_member', 'Spring3D': 'f_spring'}.get(cls, 'f')
        todo = [('K', 'K', []), ('d', 'd', [CN]), ('f', f, [CN]), ('F', F, [CN])]
        if cls != 'Spring3D':
            todo.append(('FER', 'FER', [CN]))
        if cls == 'Member3D':
            todo += [('Kg', 'Kg', [PP]), ('Km', 'Km', [CN, PUSH, STEP])]
        for meth, ref, args in todo:
            q = '%s.%s' % (cls, meth)
            with ctx.group(q, q):
                o = opq(cls)
                r = ctx.run(q, args, self_=el, opaque=o, pre=pre)
                w = ctx.spec('element', ref, [el] + args, opaque=o, pre=pre)
                Ts = {t for t in atoms_of(w.fz()) if t.op == cls + '.T' or t.op == 'call' and (cls + '.T') in t.args}
                gv, wv = r.fz(), w.fz()
                for T in Ts:
                    gv, wv = canon(gv, T), canon(wv, T)
                ctx.eq('local and global description', q, gv, wv, q)
        q = cls + '.D'
        with ctx.group(q, q):
            r = ctx.run(q, [CN], self_=el).mat()
            w = ctx.spec('element', 'D2' if 'L' in LOCAL[cls] else 'D4', [el, CN]).mat()
            n = 12 if 'L' in LOCAL[cls] else 24
            if not isinstance(r, MatC) or len(r.e) != n:
                ctx.ob('nodal displacements', q, None, 'vector not resolved entry by entry', q)
                continue
            for i in range(n):
                g = r.e[i]
                for t in cond_atoms(g):
                    # an element that has been deactivated carries no force; its displacements are not specified
                    if any(x.op == 'attr' and x.args[1] == 'active' for x in atoms_of(t)):
                        g = restrict(g, t, 1)
                ctx.eq('nodal displacements', '%s entry %d (node %s, %s)' % (q, i, 'ijmn'[i//6], ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')[i % 6]), g, w.e[i], q)
