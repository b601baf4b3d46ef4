"""All steps of an analysis work on the same set of load combinations."""
from rules.ctx import *
from rules.common import *
from rules.A04 import mock, ENTRY
from sa.alg import c_and, c_not, c_eq, is_ind
from sa.dom import DictC, exists, nonempty

RULES = ('for symbolic combination tags the condition under which a combination is processed by each step (selection, displacements, '
         'tension/compression-only check, reactions, statics) has the normal form "has tags and one of the requested tags is among them"; '
         'without tags every step is unconditional over all combinations; a model without combinations is analysed for one default combination')
FLOOR = 8
TAGS = sym('tags', 'list:str')
COLL = mk_attr(MODEL, 'load_combos', 'dict:LoadCombo')



def check(ctx):
    with ctx.group('selection', 'Analysis._identify_combos'):
        spec = ctx.spec('analysis', 'requested', [MODEL, TAGS])
        it = seq_items(spec.fz())
        REQ = it[0][2]
        ctx.requested = REQ
        ctx.ob('selection', 'reference', True if len(it) == 1 and any(is_ind(t) for t in atoms_of(REQ)) else None, 'reference not modelled')
        q = 'Analysis._identify_combos'
        for form, t, want in (('with tags', TAGS, REQ), ('without tags', None, 1)):
            r = ctx.run(q, [MODEL, t])
            processed(ctx, 'selection', form, r, [(l, c) for _, l, c in (seq_items(as_seq(r.fz())) or [])], want, q)
            tag_errors(ctx, 'selection', form, r, q)
    for form, t in (('with tags', TAGS), ('without tags', None)):
        want = REQ if t is not None else 1
        for name in ENTRY:
            q = 'FEModel3D.' + name
            with ctx.group('%s %s' % (name, form), q):
                a = ENTRY[name](True)
                names = ctx.repo.need(q).node.args.args
                i = [x.arg for x in names].index('combo_tags') - 1
                a[i] = t
                for j, x in enumerate(names[1:]):
                    if x.arg == 'check_statics':
                        a[j] = True
                r = ctx.run(q, a, self_=MODEL, opaque=mock(name, None, name == 'analyze_linear'))
                st = calls(r, 'Analysis._store_displacements')
                if name != 'analyze_PDelta':
                    processed(ctx, 'combinations solved', '%s %s' % (name, form), r, [(l, cond_of(c)) for _, _, _, l, c in st], want, q)
                else:
                    for _, _, _, l, c in st:
                        processed(ctx, 'combinations solved', '%s %s' % (name, form), r, [(l, only_tags(cond_of(c), want))], want, q)
                tc = calls(r, 'Analysis._check_TC_convergence')
                if name == 'analyze':
                    processed(ctx, 'tension/compression-only check', '%s %s' % (name, form), r, [(l, cond_of(c)) for _, _, _, l, c in tc], want, q)
                for step in ('_calc_reactions', '_check_statics'):
                    cs = calls(r, 'Analysis.' + step)
                    for _, kw, _, l, c in cs:
                        if 'combo_tags' in kw:
                            g = kw['combo_tags']
                            ok = g == t if t is None or g is None else same(g, t)
                            ctx.ob('same tags passed on', '%s %s: %s' % (name, form, step), True if ok else (False if g is None or not unmodelled(g) else None), 'combo_tags=%s is passed' % show(g), q)
                    if not cs and (step != '_check_statics' or 'check_statics' in [x.arg for x in names]):
                        ctx.ob('same tags passed on', '%s %s: %s' % (name, form, step), None, 'not called', q)
                tag_errors(ctx, 'combinations solved', '%s %s' % (name, form), r, q)
        q = 'Analysis._check_statics'
        with ctx.group('statics ' + form, q):
            r = ctx.run(q, [MODEL, t], opaque=elem_opaque())
            processed(ctx, 'statics', form, r, [(l, cond_of(c)) for _, _, _, l, c in calls(r, 'add_row')], want, q)
            tag_errors(ctx, 'statics', form, r, q)
        q = 'Analysis._calc_reactions'
        with ctx.group('reactions ' + form, q):
            r = ctx.run(q, [MODEL, False, t], opaque=elem_opaque())
            for dof in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ'):
                s = dict_sets(store(r, NODE, 'Rxn' + dof, 'dict:num'))
                if not s:
                    ctx.ob('reactions', '%s Rxn%s' % (form, dof), False if not r.I.unk else None, 'no reaction stored', q)
                    continue
                old = mk_item(mk_attr(NODE, 'Rxn' + dof, 'dict:num'), mk_attr(COMBO, 'name', 'str'))
                for key, v, loops, conds in s:
                    if not same(key, mk_attr(COMBO, 'name', 'str')):
                        ctx.ob('reactions', '%s Rxn%s' % (form, dof), None, 'stored under %s' % show(key), q)
                        continue
                    c = cond_of(conds)
                    # a conditional store keeps the old value otherwise
                    w = [a for a in alg.alts(v) if same(a[1], old)]
                    if w:
                        c = c_and(c, c_not(w[0][0]))
                    else:
                        o = {old: 0}
                        d = alg.sub(v, subst(v, o)) if any(x is old for x in atoms_of(v)) else 0
                        k = alg.div(d, old) if not (isnum(d) and d == 0) else 0
                        c = c_and(c, c_not(k))
                    processed(ctx, 'reactions', '%s Rxn%s' % (form, dof), r, [((COMBO,), c)], want, q)
            tag_errors(ctx, 'reactions', form, r, q)
    default(ctx)


def as_seq(v):
    """A dictionary view / container as a sequence term."""
    if v is COLL:
        return mk('seq', (('f', COMBO, (('x', COMBO),)),))
    return v


def cond_of(conds):
    c = 1
    for x in conds:
        c = c_and(c, x)
    return c


def tags_in(c):
    return {t for t in atoms_of(c) if is_ind(t) and any(depends(t, x) for x in (TAGS, mk_attr(COMBO, 'combo_tags', 'list:str')))}


def only_tags(c, want):
    """The part of a path condition that depends on the tags (the rest concerns convergence)."""
    if isnum(c) or same(c, want):
        return c
    m = {t: 1 for t in atoms_of(c) if is_ind(t) and not unmodelled(t) and not depends(t, TAGS) and not depends(t, mk_attr(COMBO, 'combo_tags', 'list:str'))}
    return subst(c, m)


def processed(ctx, rule, form, r, items, want, q):
    if not items:
        ctx.ob(rule, form, None if r.I.unk or r.dead else False, 'no combination is processed', q)
        return
    tot = 0
    for loops, c in items:
        if COMBO not in loops or any(x.op == 'elem' for x in loops if x is not COMBO):
            ctx.ob(rule, form, None, 'processed in loops over %s' % show(loops), q)
            return
        tot = alg.c_or(tot, c)
    ctx.eq(rule, form, tot, want, q, 'condition under which a combination is processed')


def tag_errors(ctx, rule, form, r, q):
    bad = [x for x in r.I.raises if x.implicit and any(depends(t, mk_attr(COMBO, 'combo_tags', 'list:str')) for t in [x.cond()])]
    ctx.ob(rule, '%s: combinations without tags are accepted' % form, False if bad else True, 'fails with %s when a combination has no tags (at %s)' % (bad[0].exc, bad[0].where) if bad else '', q)


def default(ctx):
    q = 'Analysis._prepare_model'
    with ctx.group('default combination', q):
        def pre(I, st):
            st.loc[('r', COLL)] = DictC()
        r = ctx.run(q, [MODEL], opaque={'Analysis._renumber': ('none', True)}, pre=pre)
        s = dict_sets(r.content(COLL))
        if len(s) != 1:
            ctx.ob('default combination', 'one combination is created', False if not s and not r.I.unk else None, 'created: %s' % show(s), q)
            return
        k, v, l, c = s[0]
        ctx.ob('default combination', 'one combination is created', True if not l and cond_of(c) == 1 else None, '', q)
        nm = r.st.loc.get(('a', v, 'name'))
        ctx.ob('default combination', 'name equals key', True if same(nm, k) else (False if isinstance(nm, str) and isinstance(k, str) else None), 'stored under %s but named %s' % (show(k), show(nm)), q)
        f = r.st.loc.get(('a', v, 'factors'))
        fs = dict_sets(r.content(f)) if f is not None else []
        ok = len(fs) == 1 and fs[0][0] == 'Case 1' and isnum(fs[0][1]) and fs[0][1] == 1
        ctx.ob('default combination', 'factor 1 for load case 1', True if ok else (False if fs and all(isinstance(x[0], str) and isnum(x[1]) for x in fs) else None), 'factors are %s' % show([(x[0], x[1]) for x in fs]), q)
    with ctx.group('existing combinations are kept', q):
        r = ctx.run(q, [MODEL], opaque={'Analysis._renumber': ('none', True)})
        from sa.dom import nonempty
        for k, v, l, c in dict_writes(COLL, r.content(COLL)):
            cc = cond_of(c)
            ok = c_and(cc, nonempty(COLL))
            ctx.ob('default combination', 'only when there is none', True if isnum(ok) and ok == 0 else (False if isnum(cc) and cc == 1 else None), 'created when %s' % show(cc), q)
