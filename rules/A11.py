"""Every analysis starts from the model's definition."""
import ast
from rules.ctx import *
from rules.common import *
from rules.A04 import mock, ENTRY
from sa.alg import c_and, c_not, c_eq, is_ind
from sa.dom import DictC

RULES = ('after the preparation step every displacement store is a new empty dictionary, every support spring that exists, every spring and every member is active '
         'for every combination, elements are renumbered and members re-divided into new parts that are active and unsolved; every analysis type runs the '
         'preparation unconditionally before anything else reads the model')
FLOOR = 8
DOFS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
NAME = mk_attr(COMBO, 'name', 'str')


def check(ctx):
    prepare(ctx)
    parts(ctx)
    entries(ctx)
    kind_of_solution(ctx)


def kind_of_solution(ctx):
    """The end forces depend on the flag that tells how the model was solved: wherever an analysis evaluates forces, that flag is
    what this analysis has set, not what an earlier analysis left behind."""
    sol = mk_attr(MODEL, 'solution')
    q = 'Analysis._prepare_model'
    with ctx.group('kind of solution', q):
        r = ctx.run(q, [MODEL], opaque=dict(elem_opaque(), **{'Analysis._renumber': ('none', True)}))
        prepared = r.st.loc.get(('a', MODEL, 'solution'), sol)
    for name in ENTRY:
        q = 'FEModel3D.' + name
        with ctx.group('kind of solution ' + name, q):
            op = mock(name)

            def prep(I, st, self_, b, fn):
                st.loc[('a', MODEL, 'solution')] = prepared
                return None
            op['Analysis._prepare_model'] = prep
            for step in ('_calc_reactions', '_check_TC_convergence'):
                def f(I, st, self_, b, fn, step=step):
                    I.log(st, ('call', 'Analysis.' + step, None, (('solution', st.loc.get(('a', MODEL, 'solution'), sol)),)))
                    return mk('call', step, ty='bool')
                op['Analysis.' + step] = f
            r = ctx.run(q, ENTRY[name](True), self_=MODEL, opaque=op)
            for step in ('_calc_reactions', '_check_TC_convergence'):
                for _, kw, _, l, c in calls(r, 'Analysis.' + step):
                    v = kw['solution']
                    old = [a for _, a in alg.alts(v) if isinstance(a, Term) and a.op == 'attr']
                    form = '%s: %s' % (name, step)
                    if old:
                        ctx.ob('forces do not depend on how the model was solved before', form, False if not unmodelled(v) else None,
                               'the flag left by an earlier analysis is still in place: %s' % show(v)[:200], q)
                        continue
                    vals = [a for _, a in alg.alts(v)]
                    ok = all(a is None or isinstance(a, str) for a in vals)
                    ctx.ob('forces do not depend on how the model was solved before', form, True if ok else None, show(v)[:200], q)
                    if ok and step == '_calc_reactions':
                        want = name == 'analyze_PDelta'
                        ctx.ob('reactions use the forces of this kind of analysis', form, all((a == 'P-Delta') == want for a in vals),
                               'the flag is %s' % show(v)[:200], q)


def fresh(r, obj, attr):
    """A new, empty container is bound to the attribute on every path."""
    v = r.st.loc.get(('a', obj, attr))
    if v is None:
        return False if not r.I.unk else None, 'never reset'
    if not (isinstance(v, Term) and v.op == 'ref'):
        old = any(isinstance(a, Term) and a.op == 'attr' for _, a in alg.alts(v))
        return (False if old and not unmodelled(v) else None), 'reset only on some paths: %s' % show(v)[:200]
    c = r.content(v)
    if c is None or dict_sets(c):
        return (None, 'holds %s' % show(c)[:200]) if c is not None else (True, '')
    return True, ''


def all_true(ctx, rule, construct, r, coll, q, old=None):
    """Every combination gets the value True."""
    s = dict_sets(coll if isinstance(coll, DictC) or coll is None else r.content(coll))
    left = 1
    bad = [x for x in s if not (x[1] is True or isnum(x[1]) and x[1] == 1)]
    for k, v, loops, conds in s:
        if k is None or not (v is True or isnum(v) and v == 1):
            continue
        w = 1
        for x in conds:
            w = c_and(w, x)
        m = c_eq(k, NAME) if COMBO not in loops else (1 if same(k, NAME) else 0)
        left = c_and(left, c_not(c_and(w, m)))
    if isnum(left) and left == 0 and not bad:
        return ctx.ob(rule, construct, True, '', q)
    u = r.I.unk or unmodelled(left) or weak(left)
    ctx.ob(rule, construct, None if u else False, 'not activated if %s%s' % (show(left)[:300], '; written %s' % show([b[1] for b in bad]) if bad else ''), q)


def prepare(ctx):
    q = 'Analysis._prepare_model'
    with ctx.group('preparation', q):
        op = dict(elem_opaque())
        op['Analysis._renumber'] = ('none', True)
        r = ctx.run(q, [MODEL], opaque=op)
        ok, d = fresh(r, MODEL, '_D')
        ctx.ob('displacements are cleared', 'model', ok, d, q)
        for dof in DOFS:
            ok, d = fresh(r, NODE, dof)
            ctx.ob('displacements are cleared', 'node ' + dof, ok, d, q)
            sp = mk_attr(NODE, 'spring_' + dof, 'Spr')
            s = dict_sets(r.content(sp))
            g = [v for k, v, l, c in s if k == 2]
            exists_ = c_not(alg.ind('is', mk_item(sp, 0), None))
            left = 1
            for k, v, l, conds in s:
                if k != 2:
                    continue
                for w, a in alg.alts(v):
                    if a is True or isnum(a) and a == 1:
                        for x in conds:
                            w = c_and(w, x)
                        left = c_and(left, c_not(w))
            left = c_and(left, exists_)
            m = {t: 1 for t in atoms_of(left) if is_ind(t) and t.args[0] == 'is' and t.args[2] is None and isinstance(t.args[1], Term) and t.args[1].op == 'item' and t.args[1].args[0] is sp and t.args[1].args[1] == 1}
            ok = True if isnum(left) and left == 0 else (None if r.I.unk or unmodelled(left) else False)
            ctx.ob('support springs are reactivated', dof, ok, 'an existing support spring stays as it was if %s' % show(left)[:300], q)
        for fam, ty in (('springs', 'Spring3D'), ('members', 'PhysMember')):
            e = mk_elem(mk_attr(MODEL, fam, 'dict:' + ty), 0)
            all_true(ctx, 'elements are active for every combination', fam, r, store(r, e, 'active', 'dict:bool'), q)
        cs = calls(r, 'Analysis._renumber')
        ctx.ob('elements are renumbered', 'preparation', run_always(cs, r), 'renumbering is not always run', q)
    division(ctx)


def division(ctx):
    q = 'Analysis._renumber'
    with ctx.group('renumbering', q):
        r = ctx.run(q, [MODEL], opaque={'PhysMember.descritize': ('none', True)})
        pm = mk_elem(mk_attr(MODEL, 'members', 'dict:PhysMember'), 0)
        cs = [x for x in calls(r, 'PhysMember.descritize') if x[2] is pm or x[0] and x[0][0] is pm]
        ctx.ob('members are divided again', 'renumbering', run_always(cs, r), 'members are not always divided', q)


def run_always(cs, r):
    if not cs:
        return None if r.I.unk else False
    a = [always(c) for _, _, _, l, c in cs]
    return True if any(x is True for x in a) else (None if None in a or len(cs) > 1 else False)


def parts(ctx):
    q = 'PhysMember.descritize'
    with ctx.group('division', q):
        pm = sym('member', 'PhysMember')
        r = ctx.run(q, [], self_=pm)
        v = r.st.loc.get(('a', pm, 'sub_members'))
        if not (isinstance(v, Term) and v.op == 'ref'):
            ctx.ob('parts are new members', 'sub_members', False if v is None and not r.I.unk else None, 'the parts of the previous division are kept', q)
            return
        s = dict_sets(r.content(v))
        new = {id(a): a for _, x, _, _ in s for _, a in alg.alts(x)}.values()
        ok = bool(s) and all(isinstance(x, Term) and x.op == 'new' for x in new)
        ctx.ob('parts are new members', 'sub_members', True if ok else None, 'values %s' % show([x for x in new])[:200], q)
        for x in new:
            if not (isinstance(x, Term) and x.op == 'new'):
                continue
            a = r.st.loc.get(('a', x, 'active'))
            if isinstance(a, Term):
                all_true(ctx, 'parts are active for every combination', 'sub_members', r, a, q)
            if any('_solved_combo' in ast.dump(m.node) for m in ctx.repo.classes['Member3D'].methods.values()):
                sc = r.st.loc.get(('a', x, '_solved_combo'), 'unset')
                ctx.ob('parts are unsolved', 'sub_members', True if sc is None else (False if not unmodelled(sc) else None), '_solved_combo = %s' % show(sc), q)


def entries(ctx):
    for name in ENTRY:
        q = 'FEModel3D.' + name
        with ctx.group('entry ' + name, q):
            op = mock(name)
            op['Analysis._prepare_model'] = ('none', True)
            for m in ('K', 'Kg', 'FER', 'P'):
                def f(I, st, self_, b, fn, m=m):
                    I.log(st, ('call', 'FEModel3D.' + m, None, ()))
                    return mk('call', 'FEModel3D.' + m, b.get('combo_name'), ty='mat:N,N' if m[0] == 'K' else 'mat:N,1')
                op['FEModel3D.' + m] = f
            op['Analysis._partition_D'] = wrapped(op.get('Analysis._partition_D'))
            r = ctx.run(q, ENTRY[name](True), self_=MODEL, opaque=op)
            seq = [(e[1], l, c) for e, l, c in events(r.log) if e[0] == 'call']
            names = [n for n, _, _ in seq]
            p = [i for i, n in enumerate(names) if n == 'Analysis._prepare_model']
            if not p:
                ctx.ob('the model is prepared first', name, None if r.I.unk or r.dead else False, 'the preparation step is not run', q)
                continue
            n, l, c = seq[p[0]]
            ctx.ob('the model is prepared on every path', name, True if not l and all(isnum(x) and x == 1 for x in c) else (False if c and not any(unmodelled(x) for x in c) else None), 'prepared only if %s' % show(c), q)
            before = [x for x in names[:p[0]] if x.startswith(('FEModel3D.', 'Analysis._'))]
            ctx.ob('the model is prepared first', name, not before, 'before it: %s' % before, q)
            ctx.ob('the analysis solves after the preparation', name, True if len(names) > p[0] + 1 else None, 'nothing follows', q)


def wrapped(f):
    if not callable(f):
        return f

    def g(I, st, self_, b, fn):
        I.log(st, ('call', 'Analysis._partition_D', None, ()))
        return f(I, st, self_, b, fn)
    return g
