"""Invalid definitions are rejected and leave the model unchanged."""
from rules.api import *
from rules.P01 import T
from rules.P03 import coll, DOF, NODE_DIRS, DIST_DIRS, PT_DIRS

RULES = ('for every definition operation: with a name that is not in the collection it is looked up in, or with a direction/degree of freedom that differs '
         'from every valid one, no path completes; in the state of every raise statement and failing look-up reached by the operation no attribute or '
         'container of the model has been changed')
FLOOR = 50
# operation -> positional parameters: (parameter, collection) for names, (parameter, valid values) for choices
OPS = {
    'add_spring': dict(i_node='nodes', j_node='nodes'),
    'add_member': dict(i_node='nodes', j_node='nodes', material_name='materials', aux_node='aux_nodes', section_name='sections'),
    'add_plate': dict(i_node='nodes', j_node='nodes', m_node='nodes', n_node='nodes', material_name='materials'),
    'add_quad': dict(i_node='nodes', j_node='nodes', m_node='nodes', n_node='nodes', material_name='materials'),
    'def_support': dict(node_name='nodes'),
    'def_support_spring': dict(node_name='nodes', dof=DOF, direction=('+', '-', None)),
    'def_node_disp': dict(node_name='nodes', direction=DOF),
    'def_releases': dict(member_name='members'),
    'add_node_load': dict(node_name='nodes', direction=NODE_DIRS),
    'add_member_pt_load': dict(member_name='members', direction=PT_DIRS),
    'add_member_dist_load': dict(member_name='members', direction=DIST_DIRS),
    'add_plate_surface_pressure': dict(plate_name='plates'),
    'add_quad_surface_pressure': dict(quad_name='quads'),
    'delete_node': dict(node_name='nodes'),
    'delete_auxnode': dict(auxnode_name='aux_nodes'),
    'delete_spring': dict(spring_name='springs'),
    'delete_member': dict(member_name='members'),
}
MORE = ('add_node', 'add_auxnode', 'add_material', 'add_section', 'add_rectangle_mesh', 'add_annulus_mesh', 'add_frustrum_mesh')
SOL = mk_attr(MODEL, 'solution')


def check(ctx):
    for n, spec in OPS.items():
        rejected(ctx, n, spec)
    for n in list(OPS) + list(MORE):
        atomic(ctx, n, OPS.get(n, {}))


def arguments(f, spec, bad=None):
    """A symbol for every parameter; optional parameters other than the one examined keep their defaults when they are names."""
    a = f.node.args
    req = len(a.args) - len(a.defaults)
    args, kw, s = [], {}, {}
    for i, x in enumerate(a.args):
        if i == 0:
            continue
        v = sym('arg ' + x.arg, 'str' if 'name' in x.arg or x.arg in spec else None)
        s[x.arg] = v
        if i < req:
            args.append(v)
        elif x.arg == bad or x.arg not in spec:
            if x.arg in ('origin', 'x_control', 'y_control', 'start_node', 'start_element', 'num_elements'):
                continue
            kw[x.arg] = v
    return args, kw, s


def premise(n, spec, s, bad):
    """Every argument is valid, except the one named."""
    def pre(I, st):
        if 'name' in s and n not in ('add_load_combo',):
            st.assume(ind('truthy', s['name']))
            c = {'add_spring': 'springs', 'add_member': 'members', 'add_plate': 'plates', 'add_quad': 'quads'}.get(n)
            if c:
                st.assume(alg.c_not(ind('in', s['name'], coll(c))))
        for p, w in spec.items():
            v = s[p]
            if isinstance(w, str):
                if p == bad:
                    st.assume(alg.c_not(ind('in', v, coll(w))))
                    st.assume(alg.c_not(alg.c_eq(v, None)))
                elif p not in ('aux_node', 'section_name'):
                    st.assume(ind('in', v, coll(w)))
            elif p == bad:
                for x in w:
                    st.assume(alg.c_not(alg.c_eq(v, x)))
    return pre


def rejected(ctx, n, spec):
    q = 'FEModel3D.' + n
    f = ctx.repo.need(q)
    with ctx.group(n + ': valid', q):
        args, kw, s = arguments(f, spec)
        ch = [p for p, x in spec.items() if not isinstance(x, str)]
        args = [next((spec[p][0] for p in ch if s[p] is x), x) for x in args]
        r = ctx.run(q, args, kw={k: v for k, v in kw.items() if k not in ch}, self_=MODEL, pre=premise(n, spec, s, None), implicit=True)
        ctx.ob('a valid definition is accepted', n, True if not r.dead else None if r.I.unk else False, 'no path completes for valid arguments', q)
    for bad, w in spec.items():
        lab = '%s: %s' % (n, bad)
        with ctx.group(lab, q):
            args, kw, s = arguments(f, spec, bad)
            if bad not in s:
                raise AnalysisBroken('parameter %s of %s not found' % (bad, q))
            # the other choices take a valid value
            others = [p for p, x in spec.items() if p != bad and not isinstance(x, str)]
            for val in (spec[others[0]] if others else (None,)):
                a2, k2 = list(args), dict(kw)
                form = lab
                if others:
                    form = '%s (%s=%s)' % (lab, others[0], val)
                    a2 = [val if x is s[others[0]] else x for x in a2]
                    if others[0] in k2:
                        k2[others[0]] = val
                    for p in others[1:]:
                        a2 = [spec[p][0] if x is s[p] else x for x in a2]
                        if p in k2:
                            k2[p] = spec[p][0]
                r = ctx.run(q, a2, kw=k2, self_=MODEL, pre=premise(n, spec, s, bad), implicit=True)
                kind = 'an unknown name' if isinstance(w, str) else 'an invalid choice'
                ctx.ob('%s is rejected' % kind, form, True if r.dead else None if r.I.unk else False,
                       'the operation completes although %s is not %s' % (bad, 'in model.' + w if isinstance(w, str) else 'one of %s' % (w,)), q)


def atomic(ctx, n, spec):
    """No change has been made where an error is raised."""
    q = 'FEModel3D.' + n
    f = ctx.repo.need(q)
    with ctx.group('unchanged ' + n, q):
        args, kw, s = arguments(f, spec, None)
        for p, w in spec.items():
            if p in kw or p in s and s[p] in args:
                continue
            kw[p] = s[p]
        r = ctx.run(q, args, kw=kw, self_=MODEL, implicit=True)
        for x in r.I.raises:
            if x.implicit and x.exc == 'TypeError':
                continue
            e = effects(x.st, r.I)
            e = [k for k in e if not (k == (MODEL, 'solution') and e[k] is None)]
            ctx.ob('an error leaves the model unchanged', '%s: %s' % (n, x.exc), True if not e else None if any('unk' in label(k) for k in e) else False,
                   'changes %s before the error at %s' % (', '.join(label(k) for k in e)[:300], x.where), q)
            ctx.count('error states')
