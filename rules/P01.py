"""Names of model objects are unique and never overwrite another object."""
from rules.api import *
from sa.dom import DictC, mk_item
from sa.alg import c_not

RULES = ('every operation that adds a named object: with a name already in the collection no path completes and nothing has been changed when the '
         'error is raised; with a new name, or with a generated one, exactly one entry is written, under a key that is known not to be in the collection '
         'at that point (guard of the insertion, or exit condition of the search loop), the other entries stay, and the object carries the name it is stored under')
FLOOR = 60
T = {'nodes': 'Node3D', 'aux_nodes': 'Node3D', 'materials': 'Material', 'sections': 'Section', 'springs': 'Spring3D', 'members': 'PhysMember',
     'plates': 'Plate3D', 'quads': 'Quad3D', 'meshes': 'Mesh'}
OPS = {'add_node': 'nodes', 'add_auxnode': 'aux_nodes', 'add_material': 'materials', 'add_section': 'sections', 'add_spring': 'springs',
       'add_member': 'members', 'add_plate': 'plates', 'add_quad': 'quads', 'add_rectangle_mesh': 'meshes', 'add_annulus_mesh': 'meshes',
       'add_frustrum_mesh': 'meshes', 'add_cylinder_mesh': 'meshes'}
NO_DEFAULT = {'add_section'}
NAME = sym('name', 'str')


def arguments(f, name):
    a = f.node.args.args[1:]
    req = len(a) - len(f.node.args.defaults)
    return [name] + [sym('arg ' + x.arg, 'str' if 'name' in x.arg else None) for x in a[1:req]]


def check(ctx):
    for n, coll in OPS.items():
        q = 'FEModel3D.' + n
        f = ctx.repo.need(q)
        C = mk_attr(MODEL, coll, 'dict:' + T[coll])
        taken = ind('in', NAME, C)
        ctx.count('operations')
        with ctx.group(n, q):
            # a name that is in use
            def pre(I, st):
                st.assume(ind('truthy', NAME))
                st.assume(taken)
            r = ctx.run(q, arguments(f, NAME), self_=MODEL, pre=pre)
            ctx.ob('a name in use is rejected', n, True if r.dead else False if not r.I.unk else None,
                   'the operation completes although the name is already in the collection', q)
            for x in r.I.raises:
                e = [label(k) for k in effects(x.st, r.I)]
                ctx.ob('a rejected name leaves the model unchanged', n, not e, 'changes %s before raising %s' % (', '.join(e)[:300], x.exc), q)

        with ctx.group(n + ' new name', q):
            def pre(I, st):
                st.assume(ind('truthy', NAME))
                st.assume(c_not(taken))
            r = ctx.run(q, arguments(f, NAME), self_=MODEL, pre=pre)
            ctx.ob('a new name is accepted', n, True if not r.dead else False, 'no path completes for a name that is not in the collection', q)
            if not r.dead:
                entry(ctx, n, r, C, coll, q, 'given', NAME)
        if n in NO_DEFAULT:
            continue
        with ctx.group(n + ' generated name', q):
            r = ctx.run(q, arguments(f, None), self_=MODEL)
            ctx.ob('a name is generated', n, True if not r.dead else False, 'no path completes without a name', q)
            if not r.dead:
                entry(ctx, n, r, C, coll, q, 'generated', None)


def entry(ctx, n, r, C, coll, q, form, want):
    lab = '%s (%s name)' % (n, form)
    c = store(r, MODEL, coll, 'dict:' + T[coll])
    if not isinstance(c, DictC):
        ctx.ob('one entry is written', lab, None, 'collection is %s' % show(c)[:200], q)
        return
    w = dict_writes(C, c)
    base = ('b', C) in c.parts
    ctx.ob('the other entries stay', lab, True if base else None if any(p[0] not in 'x' for p in c.parts) else False,
           'the collection is replaced by %s' % show(c)[:200], q)
    ok = len(w) == 1 and not w[0][2]
    ctx.ob('one entry is written', lab, True if ok else None if unmodelled(tuple(x[1] for x in w)) else False,
           'entries written: %s' % ', '.join('%s under %s' % (show(k), show(cs)) for k, _, _, cs in w)[:400], q)
    for k, v, l, cs in w:
        if any(isinstance(a, tuple) or a is MISSING for a in (v,)):
            continue
        if want is not None:
            ctx.eq('stored under the name given', lab, k, want, q)
        else:
            free = free_key(r, k, C)
            ctx.ob('the generated name is not in use', lab, True if free else False if not unmodelled(k) else None,
                   'the key %s of the new entry may be the name of an existing object (no test excludes it)' % show(k)[:200], q)
        ctx.ob('written for every definition', lab, always(cs), 'only under %s' % show(cs)[:200], q)
        if coll not in ('meshes', 'sections'):
            nm = r.I.getattr_(v, 'name', r.st) if hasattr(r.I, 'getattr_') else r.st.loc.get(('a', v, 'name'))
            if nm is not None:
                ctx.eq('the object carries the name it is stored under', lab, nm, k, q)
            else:
                ctx.ob('the object carries the name it is stored under', lab, None, 'name of %s' % show(v), q)


def free_key(r, k, C):
    """Every alternative of the key is excluded from the collection by a fact that holds at the end of the operation."""
    from sa.interp import simp
    for c, a in alg.alts(k):
        p = ind('in', a, C)
        if isnum(p) and p == 0:
            continue
        if simp(p, r.st.facts) == 0:
            continue
        if isinstance(c, (Term, Poly)) and alg.c_and(c, simp(p, r.st.facts)) == 0:
            continue
        return False
    return True
