"""Tension/compression-only iteration."""
import ast
from rules.ctx import *
from rules.common import *
from rules.A04 import mock, ENTRY
from sa.alg import c_and, c_or, c_not, c_eq, is_ind, truth
from sa.dom import exists

RULES = ('the activity written for a generic spring, member, sub-member and support spring and the value returned by the convergence test have the normal '
         'form of the reference (deactivate exactly when an active one-way element carries the wrong sign beyond the tolerance; converged exactly when nothing changed); '
         'the iteration goes on while the test fails, reassembles the stiffness in every iteration, counts iterations and raises at the limit')
FLOOR = 8
DOFS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
ST, MT = num('spring_tolerance'), num('member_tolerance')
FORCES = ('Member3D.max_axial', 'Member3D.min_axial', 'PhysMember.max_axial', 'PhysMember.min_axial', 'Spring3D.axial')


def coll(n, ty):
    return mk_attr(MODEL, n, 'dict:' + ty)


def check(ctx):
    test(ctx)
    sign(ctx)
    for name in ('analyze', 'analyze_PDelta'):
        for sparse in (True, False):
            loop(ctx, name, sparse)
    args(ctx)


def wrong(ctx, e, kind):
    f = 'Spring3D' if kind == 'springs' else 'PhysMember'
    if kind == 'springs':
        mx = mn = mk('call', 'Spring3D.axial', e, CN, ty='num')
    else:
        mx, mn = mk('call', 'PhysMember.max_axial', e, CN, ty='num'), mk('call', 'PhysMember.min_axial', e, CN, ty='num')
    act = mk_item(mk_attr(e, 'active', 'dict:bool'), CN)
    return truth(ctx.spec('analysis', 'tc_element', [mk_attr(e, 'tension_only', 'bool'), mk_attr(e, 'comp_only', 'bool'), act, mx, mn, ST if kind == 'springs' else MT]).fz())


def tc_run(ctx):
    op = dict(elem_opaque())
    for m in FORCES:
        op[m] = ('num', False)
    return ctx.run('Analysis._check_TC_convergence', [MODEL, CN, False, ST, MT], opaque=op)


def test(ctx):
    q = 'Analysis._check_TC_convergence'
    with ctx.group('convergence test', q):
        r = tc_run(ctx)
        changes = {}
        for kind, ty in (('springs', 'Spring3D'), ('members', 'PhysMember')):
            e = mk_elem(coll(kind, ty), 0)
            w = wrong(ctx, e, kind)
            changes[kind] = (e, w)
            deactivated(ctx, r, e, e, w, kind, q)
            if kind == 'members':
                s = mk_elem(mk_attr(e, 'sub_members', 'dict:Member3D'), 0)
                deactivated(ctx, r, s, e, w, 'sub-members', q)
        for dof in DOFS:
            sp = mk_attr(NODE, 'spring_' + dof, 'Spr')
            d = mk_item(mk_attr(NODE, dof, 'dict:num'), CN)
            old = r_item(sp, 2, 'bool')
            want = ctx.spec('analysis', 'tc_node_spring', [sp, d, ST]).fz()
            got = [v for k, v, l, c in dict_sets(r.content(sp)) if k == 2]
            other = [k for k, v, l, c in dict_sets(r.content(sp)) if k != 2]
            ctx.ob('support spring: only the activity changes', dof, True if not other else False, 'entries %s are written' % show(other), q)
            if len(got) != 1:
                ctx.ob('support spring activity follows its displacement', dof, False if not got and not r.I.unk else None, 'activity written %d times' % len(got), q)
                continue
            ctx.eq('support spring activity follows its displacement', dof, bool_eqs(truth(got[0])), bool_eqs(truth(want)), q)
        stale(ctx, r, q)
        # one activity flag is shared by all combinations
        flags = [mk_attr(NODE, 'spring_' + d, 'Spr') for d in DOFS]
        shared = [f for f in flags if dict_sets(r.content(f))]
        ctx.ob('activity is kept per combination', 'support springs', not shared, 'the activity of %s is not stored per load combination' % show(shared), q)
        converged(ctx, r, changes, q)


def stale(ctx, r, q):
    # the next iteration must not test the forces of this one
    s = mk_elem(mk_attr(mk_elem(coll('members', 'PhysMember'), 0), 'sub_members', 'dict:Member3D'), 0)
    cached = r.st.loc.get(('a', s, '_solved_combo'), mk_attr(s, '_solved_combo'))
    uses = any('_solved_combo' in ast.dump(m.node) for m in ctx.repo.classes['Member3D'].methods.values())
    ok = True if cached is None or not uses else None
    if ok is None and not r.I.unk and any(isinstance(x, Term) and x.op == 'attr' and x.args[1] == '_solved_combo' for _, x in alg.alts(cached)):
        # it survives the test at least sometimes: is it dropped anywhere else in the iteration?
        elsewhere = [f for f in ('Analysis._PDelta_step', 'Analysis._store_displacements', 'Analysis._sum_displacements', 'FEModel3D.analyze')
                     if '_solved_combo' in ast.dump(ctx.repo.need(f).node)]
        ok = None if elsewhere else False
    ctx.ob('forces are evaluated again in every iteration', 'sub-members', ok, 'the force segments cached for a sub-member can survive the test: %s' % show(cached), q)


def r_item(sp, i, ty):
    return mk('item', sp, i, ty=ty)


def deactivated(ctx, r, e, owner, w, kind, q):
    act = mk_attr(e, 'active', 'dict:bool')
    old = mk_item(act, CN)
    s = dict_sets(r.content(act))
    mine = [x for x in s if x[0] is not None and same(x[0], CN)]
    other = [x for x in s if x not in mine]
    ctx.ob('only the requested combination is affected', kind, True if not other else (False if all(x[0] is not None for x in other) else None), 'activity written for %s' % show([x[0] for x in other]), q)
    if len(mine) != 1:
        ctx.ob('wrong-sign element is deactivated', kind, False if not mine and not r.I.unk else None, 'activity written %d times' % len(mine), q)
        return
    v = mine[0][1]
    want = alg.phi(w, False, old)
    ctx.eq('wrong-sign element is deactivated', kind, truth(v), truth(want), q)


def converged(ctx, r, changes, q):
    v = truth(r.fz())
    ex = {}
    odd = []
    for t in atoms_of(v):
        if is_ind(t) and t.args[0] == 'exists':
            if all(t not in atoms_of(u) for u in atoms_of(v) if u is not t):
                ex.setdefault(t.args[1], []).append(t)
        elif is_ind(t) and t.args[0] in ('hv',):
            odd.append(t)
    if r.I.unk or odd:
        ctx.ob('converged exactly when nothing changed', 'result', None, 'not fully modelled', q)
        return
    prod = 1
    for l in ex.values():
        for t in l:
            prod = c_and(prod, c_not(t))
    ctx.eq('converged exactly when nothing changed', 'result', v, prod, q)
    for kind, (e, w) in changes.items():
        c = 0
        for t in ex.pop(e, []):
            c = c_or(c, t.args[2])
        ctx.eq('a deactivation is reported as not converged', kind, c, w, q)
    c = 0
    for t in ex.pop(NODE, []):
        c = c_or(c, t.args[2])
    for t in ex:
        ctx.ob('converged exactly when nothing changed', show(t), None, 'unexpected loop', q)
    for dof in DOFS:
        m = {}
        for t in atoms_of(c):
            if is_ind(t) and t.args[0] == 'is' and isinstance(t.args[1], Term) and t.args[1].op == 'item' and t.args[1].args[0].op == 'attr' and t.args[1].args[0].args[1] != 'spring_' + dof:
                m[t] = 1 if t.args[2] is None else 0
        sp, d = mk_attr(NODE, 'spring_' + dof, 'Spr'), mk_item(mk_attr(NODE, dof, 'dict:num'), CN)
        new = truth(ctx.spec('analysis', 'tc_node_spring', [sp, d, ST]).fz())
        old = truth(r_item(sp, 2, 'bool'))
        want = alg.sub(alg.add(new, old), alg.mul(2, alg.mul(new, old)))
        got = bool_eqs(subst(c, m))
        ctx.eq('a changed support spring is reported as not converged', dof, got, want, q)


def bool_eqs(c):
    """Equality of two conditions p, q written out as pq + (1-p)(1-q): zero(p-q) -> 1 - (p-q)^2."""
    for _ in range(3):
        m = {}
        for t in atoms_of(c):
            if is_ind(t) and t.args[0] == 'zero' and any(is_ind(x) or x.ty == 'bool' for x in atoms_of(t.args[1])):
                p = t.args[1]
                if all(is_ind(x) for mo in poly(p).t for x, _ in mo):
                    m[t] = alg.sub(1, alg.mul(p, p))
        if not m:
            return c
        c = subst(c, m)
    return c


def sign(ctx):
    q = 'Spring3D.axial'
    with ctx.group('axial force of a spring', q):
        s = sym('spring', 'Spring3D')
        r = ctx.run(q, [CN], self_=s, opaque=elem_opaque())
        f = mk('call', 'Spring3D.f', s, CN, ty='mat:12,1')
        want = mk('at', f, 0, 0, ty='num')
        ctx.eq('axial force is positive in compression', 'Spring3D.axial', r.fz(), want, q)


def loop(ctx, name, sparse):
    form = '%s (%s)' % (name, 'sparse' if sparse else 'dense')
    q = 'FEModel3D.' + name
    with ctx.group('iteration ' + form, q):
        op = mock(name)

        def K(I, st, self_, b, f):
            I.log(st, ('call', 'K', None, ()))
            return mk('call', 'K', b.get('combo_name'), ty='mat:N,N')
        op['FEModel3D.K'] = K
        r = ctx.run(q, ENTRY[name](sparse), self_=MODEL, opaque=op)
        tc = calls(r, 'Analysis._check_TC_convergence')
        if not tc:
            ctx.ob('every solution is checked for wrong-sign elements', form, None if r.I.unk or r.dead else False, 'the convergence test is never applied', q)
            return
        inner = tc[0][3][-1]
        ctx.ob('every solution is checked for wrong-sign elements', form, True if all(not c[4] for c in tc) else None, 'checked only if %s' % show([c[4] for c in tc]), q)
        seq = [(e[1], loops) for e, loops, _ in events(r.log) if e[0] == 'call']
        names = [n for n, l in seq if inner in l]
        ks = [l for n, l in seq if n == 'K']
        ctx.ob('the stiffness is reassembled in every iteration', form, True if ks and any(inner in l for l in ks) else (False if ks else None), 'the stiffness matrix is assembled outside the iteration', q)
        st_ = [i for i, n in enumerate(names) if n in ('Analysis._store_displacements',)]
        ti = [i for i, n in enumerate(names) if n == 'Analysis._check_TC_convergence']
        ctx.ob('the test follows the solution', form, True if st_ and ti and min(st_) < ti[0] else (False if st_ and ti else None), 'order in one iteration: %s' % names, q)
        cn = mk_attr(COMBO, 'name', 'str')
        for a, kw, _, loops, conds in tc:
            ctx.eq('the test looks at the current combination', form, kw.get('combo_name', a[1] if len(a) > 1 else None), cn, q)
        ws = [w for w in r.I.whiles if w.get('init') is not None and w.get('W') is inner]
        if len(ws) != 1:
            ctx.ob('iterates until the test succeeds', form, None, 'iteration loop not recognised', q)
        else:
            first, nxt = hv_maps(ws[0])
            cond = subst(ws[0]['cond'], nxt)
            T = [t for t in atoms_of(mk('tuple_', *([cond] + list(nxt.values())))) if is_ind(t) and any(isinstance(y, Term) and y.op == 'call' and y.args[0] == 'Analysis._check_TC_convergence' for y in t.args)]
            c0 = subst(cond, {t: 0 for t in T})
            later = [x for x in r.I.raises if not x.implicit and inner not in x.binders and x.binders]
            breaks = [c for c in (subst(subst(brk_cond(es, ws[0]), nxt), {t: 0 for t in T}) for k, es, _ in ws[0]['exits'] if k != 'continue')]
            stays = [isnum(c) and c == 0 for c in breaks]
            ok = None
            if isnum(c0) and c0 == 1 and all(stays):
                ok = True
            elif not later and not (T == [] and unmodelled(cond)) and not unmodelled(c0):
                ok = False
            ctx.ob('iterates until the test succeeds', form, ok, 'after a failed test the loop goes on if %s%s' % (show(c0), '; it is left if %s' % show(breaks) if not all(stays) else ''), q)
            lim = num('max_iter')
            rs = [x for x in r.I.raises if not x.implicit and depends(x.cond(), lim)]
            ctx.ob('the iteration limit raises an error', form, True if rs else (False if not r.I.unk else None), 'no error depends on the iteration limit', q)
            hs = set()
            for x in rs:
                for t in atoms_of(x.cond()):
                    if t.op == 'ind' and t.args[0] == 'lt' and depends(t, lim):
                        hs |= {h for h in atoms_of(t) if h in nxt}
            if rs:
                steps = [alg.sub(subst(nxt[h], {t: 0 for t in T}), h) for h in hs]
                ok = True if any(isnum(s) and s > 0 for s in steps) else (False if steps and all(isnum(s) and s <= 0 for s in steps) else None)
                ctx.ob('iterations are counted', form, ok, 'after a failed test the counter changes by %s' % show(steps), q)


def brk_cond(es, info):
    n = len(info['init'].conds)
    c = 1
    for x in es.conds[n:]:
        c = alg.mul(c, x)
    return c


def args(ctx):
    q = 'FEModel3D.analyze'
    with ctx.group('tolerances', q):
        names = [x.arg for x in ctx.repo.need(q).node.args.args][1:]
        a = ENTRY['analyze'](True)
        for n, s in (('spring_tolerance', ST), ('member_tolerance', MT)):
            a[names.index(n)] = s
        r = ctx.run(q, a, self_=MODEL, opaque=mock('analyze'))
        for _, kw, _, loops, conds in calls(r, 'Analysis._check_TC_convergence'):
            ctx.eq('the requested tolerance is used', 'springs', kw.get('spring_tolerance'), ST, q)
            ctx.eq('the requested tolerance is used', 'members', kw.get('member_tolerance'), MT, q)
