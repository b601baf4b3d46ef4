"""Any edit of a solved model marks it as unsolved."""
from rules.api import *
from rules.A04 import mock, ENTRY
from sa.dom import nonempty

RULES = ('for every public operation of the model, and for generating a mesh of every kind, the effect analysis lists every attribute and container reachable from the model that the '
         'operation may change; when there is one, the model must be left marked as unsolved on every path that changes it; only the analyses '
         'store another mark, they store the one of their own type, after the solution has been accepted, and never on a path that ends in an error')
FLOOR = 30
SOL = mk_attr(MODEL, 'solution')
KEY = (MODEL, 'solution')
ANALYSES = {'analyze': ('Linear TC',), 'analyze_linear': ('Linear',), 'analyze_PDelta': ('P-Delta',)}
EXEMPT = {'rename'}       # changes names only: the stored results still belong to the same objects
RESULTS = ('K', 'Kg', 'Km', 'FER', 'P', 'D')


def public(ctx):
    for f in ctx.repo.classes['FEModel3D'].methods.values():
        n = f.qual.split('.')[1]
        if n.startswith('_') or n in ANALYSES:
            continue
        yield n, f


def arguments(f):
    out = []
    a = f.node.args
    for x in a.args[1:]:
        out.append(sym('arg ' + x.arg, 'str' if 'name' in x.arg or x.arg in ('dof', 'direction', 'case') else None))
    return out


def vacuous(cond, key):
    """Under cond the collection the changed object is taken from is empty."""
    for k in key:
        for t in (atoms_of(k) if isinstance(k, (Term, Poly)) else ()):
            if isinstance(t, Term) and t.op in ('elem', 'key'):
                if alg.c_and(cond, nonempty(t.args[0])) == 0:
                    return True
    return False


def check(ctx):
    edits(ctx)
    meshes(ctx)
    analyses(ctx)


def meshes(ctx):
    """Generating a mesh (again, with a new opening) in a solved model."""
    from rules import G01
    for kind, cls, kw in (('rectangle', 'RectangleMesh', dict(width=2, height=1, element_type='Quad')), ('rectangle', 'RectangleMesh', dict(width=2, height=1, element_type='Rect')),
                          ('annulus', 'AnnulusMesh', dict(outer_radius=3, inner_radius=1)), ('frustrum', 'FrustrumMesh', dict(large_radius=3, small_radius=1, height=2)),
                          ('cylinder', 'CylinderMesh', dict(radius=1, height=2))):
        q = cls + '.generate'
        con = 'generation of a mesh: %s %s' % (kind, kw.get('element_type', ''))
        with ctx.group(con, q):
            m = G01.Model(ctx)
            mesh = G01.start(ctx, m, 'add_%s_mesh' % kind, dict(kw, name='M', mesh_size=1))
            for again in ('', ' again'):
                m.st.loc[('a',) + KEY] = 'Linear'
                m.call(q, self_=mesh)
                if m.dead:
                    ctx.ob('an edit leaves the model unsolved', con + again, None, m.dead, q)
                    break
                left = [a for c, a in alg.alts(m.st.loc.get(('a',) + KEY, SOL)) if a is not None]
                ctx.ob('an edit leaves the model unsolved', con + again, True if not left else False if all(isinstance(a, str) for a in left) else None,
                       'generating a mesh puts nodes and elements into the model but leaves the solution mark %s' % show(left), q)


def edits(ctx):
    for n, f in public(ctx):
        q = f.qual
        if n in EXEMPT or n in RESULTS:
            continue
        with ctx.group('edit ' + n, q):
            r = ctx.run(q, arguments(f), self_=MODEL)
            if r.dead:
                continue
            e = effects(r.st, r.I)
            e.pop(KEY, None)
            sol = r.st.loc.get(('a',) + KEY, SOL)
            ctx.count('operations')
            if not e:
                ctx.ob('operation without effect on the model', n, True, '', q)
                continue
            ctx.count('changed slots', len(e))
            bad = []
            for c, v in alg.alts(sol):
                if v is None:
                    continue
                for k in e:
                    if not vacuous(c, k):
                        bad.append((label(k), show(v)))
            u = [x for b in bad for x in [b[1]] if x.startswith('unk')]
            ctx.ob('an edit leaves the model unsolved', n, False if bad and not u else None if bad else True,
                   'changes %s but leaves the solution mark %s' % (', '.join(sorted({b[0] for b in bad}))[:300], bad and bad[0][1]), q)


def analyses(ctx):
    for name, kinds in ANALYSES.items():
        q = 'FEModel3D.' + name
        with ctx.group('analysis ' + name, q):
            op = mock(name)

            def prep(I, st, self_, b, fn):
                st.loc[('a',) + KEY] = None
                return None
            op['Analysis._prepare_model'] = prep
            r = ctx.run(q, ENTRY[name](True), self_=MODEL, opaque=op)
            v = r.st.loc.get(('a',) + KEY, SOL)
            for k in kinds:
                ctx.eq('a completed analysis marks the model with its own type', name, v, k, q)
            for x in r.I.raises:
                v = x.st.loc.get(('a',) + KEY, SOL)
                left = [a for c, a in alg.alts(v) if a is not None]
                if x.implicit:
                    continue
                marked = [a for a in left if isinstance(a, str)]
                ctx.ob('a failed analysis does not mark the model as solved', '%s: %s' % (name, x.exc), True if not left else False if marked else None,
                       'the mark is %s when the error is raised at %s' % (show(v)[:200], x.where), q)
