"""Every displacement an analysis stores is the solution of the partitioned equations."""
from rules.ctx import *
from rules.common import *
from sa.alg import is_ind
from sa.dom import nonempty

RULES = ('for every analysis entry point and solver option: each stored free-displacement vector equals solve(K11, P1 - FER1 - K12 D2) '
         'built from the same combination; index lists and enforced values are those of the partition; a singular matrix reaches a raise; '
         'the loop covers every requested combination; the solution flag names the analysis')
FLOOR = 8
I1, I2 = mk('sym', 'I1', ty='list:num'), mk('sym', 'I2', ty='list:num')
D2 = mk('sym', 'D2', ty='mat:N,1')
ENTRY = {
    'analyze': lambda s: [False, False, False, num('max_iter'), s, None, num('spring_tol'), num('member_tol')],
    'analyze_linear': lambda s: [False, False, False, s, None],
    'analyze_PDelta': lambda s: [False, False, num('max_iter'), s, None],
}


def mock(linear, flags=None, any_combo=False):
    op = elem_opaque()
    for f, ty in (('_prepare_model', 'none'), ('_calc_reactions', 'none'), ('_check_statics', 'none'), ('_check_TC_convergence', 'bool'),
                  ('_store_displacements', 'none'), ('_sum_displacements', 'none'), ('_check_stability', 'none')):
        op['Analysis.' + f] = (ty, True)
    op['Analysis._partition_D'] = lambda I, st, self_, b, f: (I1, I2, D2)

    def K(I, st, self_, b, f):
        return mk('call', 'K', 'any' if any_combo else b.get('combo_name'), ty=MNN)

    def Kg(I, st, self_, b, f):
        if flags is not None:
            I.log(st, ('call', 'Kg', None, (('first', I.fz(b.get('first_step'), st)),)))
        return mk('call', 'Kg', b.get('combo_name'), ty=MNN)
    op['FEModel3D.K'], op['FEModel3D.Kg'] = K, Kg
    return op


def check(ctx):
    want = {}
    for name in ENTRY:
        for sparse in (True, False):
            form = '%s (%s)' % (name, 'sparse' if sparse else 'dense')
            q = 'FEModel3D.' + name
            with ctx.group(form, q):
                flags = True
                op = mock(name, flags, name == 'analyze_linear')
                r = ctx.run(q, ENTRY[name](sparse), self_=MODEL, opaque=op)
                if r.dead:
                    ctx.ob('analysis completes', form, False, 'every path raises %s' % ', '.join(sorted({x.exc for x in r.I.raises})), q)
                    continue
                st = calls(r, 'Analysis._store_displacements')
                sm = calls(r, 'Analysis._sum_displacements')
                ctx.ob('displacements are stored', form, True if st else (False if not unmodelled_run(r) else None), 'no displacement vector is stored', q)
                for a, kw, s_, loops, conds in st:
                    if len(a) != 6:
                        ctx.ob('displacements are stored', form, None, 'unexpected signature', q)
                        continue
                    combo = a[5]
                    ok = isinstance(combo, Term) and combo in loops
                    ctx.ob('stored for the combination of the current iteration', form, ok if ok else None, 'stored for %s inside loops over %s' % (show(combo), show(loops)), q)
                    cn = mk_attr(combo, 'name', 'str')
                    sp = ctx.spec('analysis', 'D1_second' if name == 'analyze_PDelta' else 'D1_linear', [MODEL, cn, I1, I2, D2], opaque=op)
                    ctx.eq('free displacements solve the equilibrium equations', form, some_free(r.fz(a[1])), some_free(sp.fz()), q)
                    ctx.eq('known displacements are the enforced ones', form, a[2], D2, q)
                    ctx.eq('free index list', form, a[3], I1, q)
                    ctx.eq('known index list', form, a[4], I2, q)
                    if name != 'analyze_PDelta':
                        ctx.ob('stored unconditionally', form, True if not conds else None, 'only under %s' % show(conds), q)
                sing = [x for x in r.I.raises if any(t.op == 'ind' and t.args[0] == 'singular' for t in atoms_of(x.cond()))]
                ctx.ob('singular stiffness is reported', form, True if sing else (False if st else None), 'no raise depends on the singularity of the solved matrix', q)
                rc = calls(r, 'Analysis._calc_reactions')
                ctx.ob('reactions are computed', form, True if [c for c in rc if not c[3] and not c[4]] else (None if rc else False), 'the reactions are not computed on every completed analysis', q)
                order(ctx, form, q, r)
                sol = attr_final(r, MODEL, 'solution')
                if name == 'analyze_PDelta':
                    ok = sol == 'P-Delta'
                else:
                    ok = isinstance(sol, str) and sol not in ('P-Delta', 'Pushover')
                ctx.ob('solution flag', form, True if ok else (False if sol is None or isinstance(sol, (str, bool)) else None), 'solution flag is %s after the analysis' % show(sol), q)
                if name == 'analyze_PDelta':
                    second(ctx, form, q, r, flags)


def some_free(v):
    """The value when there is at least one free degree of freedom."""
    m = {t: 1 for t in atoms_of(v) if is_ind(t) and t == nonempty(I1)}
    return subst(v, m) if m else v


def unmodelled_run(r):
    return bool(r.I.unk)


def order(ctx, form, q, r):
    seq = [(e[1], loops) for e, loops, _ in events(r.log) if e[0] == 'call']
    names = [n for n, _ in seq]
    try:
        p, s, c = names.index('Analysis._prepare_model'), names.index('Analysis._store_displacements'), names.index('Analysis._calc_reactions')
    except ValueError:
        ctx.ob('prepare, solve, reactions in this order', form, None if 'Analysis._store_displacements' not in names else False, 'steps performed: %s' % names, q)
        return
    last = max(i for i, n in enumerate(names) if n == 'Analysis._store_displacements')
    ctx.ob('prepare, solve, reactions in this order', form, p < s and last < c, 'steps performed: %s' % names, q)


def second(ctx, form, q, r, flags):
    ws = [w for w in r.I.whiles if 'cond' in w and w.get('init') is not None]
    ws = [w for w in ws if any(w['W'] in loops for _, _, _, loops, _ in calls(r, 'Analysis._store_displacements'))]
    if len(ws) != 1:
        ctx.ob('second-order iteration', form, None, 'iteration loop not recognised', q)
        return
    first, nxt = hv_maps(ws[0])
    c0 = subst(ws[0]['cond'], first)
    ctx.ob('at least one second-order iteration', form, True if c0 == 1 else (False if c0 == 0 else None), 'the loop is not entered', q)
    # truth of the loop test and of the first-pass flag in the second pass (tension/compression-only check converged)
    c1 = subst(subst(ws[0]['cond'], nxt), first)
    c1 = converged(c1)
    ctx.ob('displacements are recomputed with the axial forces of the first pass', form, True if c1 == 1 else (False if c1 == 0 else None), 'after the first pass the loop test is %s' % show(c1), q)
    flags = [(a[0], conds) for a, _, _, _, conds in calls(r, 'Kg')]
    f0 = flag_value(flags, first)
    ctx.ob('first pass has no axial force', form, True if f0 == 1 else (False if f0 == 0 else None), 'the first pass asks for member axial forces that do not exist yet (flag %s)' % show(f0), q)
    f1 = flag_value(flags, nxt, first)
    ctx.ob('later passes use the axial force', form, True if f1 == 0 else (False if f1 == 1 else None), 'the second pass ignores the axial forces of the first (flag %s)' % show(f1), q)


def converged(v):
    """Assume the tension/compression-only test converged."""
    m = {t: 1 for t in atoms_of(v) if is_ind(t) and any(isinstance(y, Term) and y.op == 'call' and y.args[0] == 'Analysis._check_TC_convergence' for y in t.args)}
    return subst(v, m) if m else v


def flag_value(flags, *maps):
    """Value of the geometric stiffness' first-pass flag under the given loop-carried values, over the feasible call sites."""
    out = None
    for fl, conds in flags:
        p, f = 1, fl
        for c in conds:
            p = alg.c_and(p, c)
        for m in maps:
            p, f = subst(p, m), (subst(f, m) if not isinstance(f, bool) else f)
        p = converged(p)
        if p == 0:
            continue
        f = converged(f) if not isinstance(f, bool) else int(f)
        f = alg.truth(f) if not isnum(f) else f
        if out is not None and out != f:
            return mk('sym', 'differs')
        out = f
    return out
