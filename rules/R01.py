"""Results belong to the requested load combination and to the current solution."""
import ast
from rules.members import *
from rules import A10, A11
from sa.flow import Flow

RULES = ('cache induction: every result query asked of a fresh member leaves it in the state "segments of the requested combination"; asked from that state, for the same and for '
         'another combination, it has the normal form of the answer of a fresh member and leaves the state of one of the two combinations; physical members only ask their parts; '
         'the parts are new objects in every analysis and the convergence test, the only step of an analysis that fills the cache, drops it')
FLOOR = 60
CACHE = ('_solved_combo', 'SegmentsX', 'SegmentsY', 'SegmentsZ')


def queries():
    for q, dirs in POINT.items():
        for d in dirs:
            yield q, args_of(d, X), None, d
            yield q + '_array', args_of(d, num('n_points')), None, d
            yield q + '_array', args_of(d, num('n_points')), {'x_array': mk('linspace', num('u'), num('v'), num('w'))}, d
    for q, dirs in list(EXTREME.items()) + [('deflection', ('dx', 'dy', 'dz'))]:
        for d in dirs:
            for mm in ('max', 'min'):
                yield '%s_%s' % (mm, q), args_of(d), None, d


def cache_attrs(repo):
    """Attributes of a member that its methods write after its construction, and the segments."""
    if getattr(repo, 'flow_', None) is None:
        repo.flow_ = Flow(repo)
    out = {'SegmentsX', 'SegmentsY', 'SegmentsZ'}
    for n, f in repo.classes['Member3D'].methods.items():
        if n == '__init__' or f.static or not f.node.args.args:
            continue
        for w in repo.flow_.func(f).writes.values():
            if w.direct and w.attr and w.root == ('p', f.node.args.args[0].arg) and w.cls in repo.classes and (repo.is_a(w.cls, 'Member3D') or repo.is_a('Member3D', w.cls)):
                out.add(w.attr)
    return out


class Cached(Heap):
    """A member whose segments differ from one combination to the other."""

    def __init__(self, repo):
        Heap.__init__(self, 2)
        self.by = {}
        for c in self.K:
            h = show(c).strip("'").replace(' ', '')
            self.by[c] = {ax: [sym('seg%s%d of %s' % (ax, i, h), cls_of(ax)) for i in range(2)] for ax in 'XYZ'}
        self.own = sorted(cache_attrs(repo))

    def boundaries(self, I, st):
        for c, d in self.by.items():
            for ax in 'XYZ':
                for i, s in enumerate(d[ax]):
                    st.loc[('a', s, 'x1')] = self.xs[i]
                    st.loc[('a', s, 'x2')] = self.xs[i + 1]
            distinct(st, [s for ax in 'XYZ' for s in d[ax]])

    def segment(self, I, st, self_, b, f):
        """Stands for the division of the member: the segments of the combination replace those of before."""
        c = b.get('combo_name')
        I.log(st, ('call', 'Member3D._segment_member', self_, (c,)))
        d = self.by.get(c)
        for ax in 'XYZ':
            a = 'Segments' + ax
            items = tuple(('x', s) for s in d[ax]) if d else (('x', mk('call', 'segments of', c, ax)),)
            t = st.loc.get(('a', self_, a))
            if isinstance(t, Term) and t.op == 'ref' and not self.fresh_lists:
                st.loc[('r', t)] = ListC(items)
            else:
                st.loc[('a', self_, a)] = I.newref(st, ListC(items))
        for a, v in self.side.items():
            st.loc[('a', self_, a)] = subst(v, {CN1: c, self.K[CN1]: self.K.get(c, c)}) if isinstance(v, (Term, Poly, Phi)) else v
        return None

    def initial(self, I, st):
        """What the constructor leaves in the member."""
        for a, v in self.init.items():
            st.loc[('a', self.m, a)] = I.newref(st, v) if isinstance(v, (ListC, DictC)) else v

    def learn(self, ctx):
        """The state after construction, and what the division of the member writes besides the segments."""
        f = ctx.repo.need('Member3D.__init__')
        ty = {'i_node': 'Node3D', 'j_node': 'Node3D', 'model': 'FEModel3D'}
        r = ctx.run('Member3D.__init__', [MODEL if a.arg == 'model' else sym(a.arg, ty.get(a.arg, 'str' if 'name' in a.arg else 'num')) for a in f.node.args.args[1:]], self_=self.m, opaque={})
        self.init = {}
        for a in self.own:
            v = r.st.loc.get(('a', self.m, a))
            if ('a', self.m, a) not in r.st.loc:
                continue
            c = r.content(v) if isinstance(v, Term) and v.op in ('ref', 'new') else None
            self.init[a] = c if c is not None else v
        self.init = {a: v for a, v in self.init.items() if isinstance(v, (ListC, DictC, type(None), bool)) or isnum(v)}

        def pre(I, st):
            self.combos(I, st)
            st.loc[('a', self.m, 'model')] = MODEL
            for ax in 'XYZ':
                st.loc[('a', self.m, 'Segments' + ax)] = self.probe[ax] = I.newref(st, ListC(()))
        self.probe = {}
        r = ctx.run('Member3D._segment_member', [CN1], self_=self.m, pre=pre, opaque=dict(elem_opaque()))
        self.fresh_lists = any(r.st.loc.get(('a', self.m, 'Segments' + ax)) is not self.probe[ax] for ax in 'XYZ')
        self.side = {k[2]: v for k, v in r.st.loc.items() if k[0] == 'a' and k[1] is self.m and not k[2].startswith('Segments') and k[2] != 'model'}

    def pre_state(self, state):
        def pre(I, st):
            self.combos(I, st)
            st.loc[('a', self.m, 'model')] = MODEL
            st.loc[('a', MODEL, 'solution')] = self.sol
            st.loc[('a', self.m, 'active')] = I.newref(st, DictC((), tuple((c, True) for c in self.K)))
            self.boundaries(I, st)
            self.initial(I, st)
            if state is not None:
                for a, v in state.items():
                    st.loc[('a', self.m, a)] = I.newref(st, v) if isinstance(v, (ListC, DictC)) else v
        return pre

    def state(self, r):
        out = {}
        for a in self.own:
            if ('a', self.m, a) in r.st.loc:
                v = r.st.loc[('a', self.m, a)]
                c = r.content(v) if isinstance(v, Term) and v.op in ('ref', 'new') else None
                out[a] = c if c is not None else v
        return out


def equal_state(a, b):
    if set(a) != set(b):
        return False
    for n in a:
        x, y = a[n], b[n]
        if type(x) is not type(y) and (isinstance(x, (ListC, DictC)) or isinstance(y, (ListC, DictC))):
            return False
        if isinstance(x, (ListC, DictC)):
            if x.key() != y.key():
                return False
        elif not same(x, y):
            return False
    return True


def brief(s):
    out = []
    for a, v in sorted(s.items()):
        out.append('%s=%s' % (a, [show(x[1]) if x[0] == 'x' else x[0] for x in v.seq] if isinstance(v, ListC) else show(v) if not isinstance(v, DictC) else '{..}'))
    return ', '.join(out)[:400]


def check(ctx):
    H = Cached(ctx.repo)
    with ctx.group('state', 'Member3D._segment_member'):
        H.learn(ctx)
    members(ctx, H)
    physical(ctx)
    analysis(ctx)


def members(ctx, H):
    op = dict(seg_opaque())
    op['Member3D._segment_member'] = H.segment
    filled = {}

    def ask(q, args, kw, state, c):
        f = 'Member3D.' + q
        o = dict(op, **{'Member3D.deflection': ('num', False)}) if q in ('max_deflection', 'min_deflection') else op
        return ctx.run(f, list(args) + [c], kw, self_=H.m, pre=H.pre_state(state), opaque=o), f

    for H.sol in ('Linear', 'P-Delta'):
        # the state after a first query
        with ctx.group('first query', 'Member3D.max_shear'):
            r = ctx.run('Member3D.L', [], self_=H.m, pre=H.pre_state(None), opaque=op)
            H.empty = H.state(r)
            r, f = ask('max_shear', ['Fy'], None, None, CN1)
            filled[CN1] = H.state(r)
            r, f = ask('max_shear', ['Fy'], None, None, CN2)
            filled[CN2] = H.state(r)
        for q, args, kw, d in queries():
            con = ' '.join([q] + ([d] if d else []) + (['given positions'] if kw else []) + [H.sol])
            with ctx.group('query ' + con):
                base = {}
                for c in (CN1, CN2):
                    r, f = ask(q, args, kw, None, c)
                    base[c] = r.fz()
                    s = H.state(r)
                    # (a query that evaluates no segments by itself need not change the state)
                    ok = equal_state(s, filled[c]) or equal_state(s, H.empty)
                    ctx.ob('a query leaves the segments of its combination', con, True if ok else (None if r.I.unk else False), 'state left: %s; required: %s' % (brief(s), brief(filled[c])), f)
                wrong = [x for c in (CN2, 'Combo 1') for ax in 'XYZ' for x in H.by[c][ax]]
                other = [t for t in leaves(base[CN1]) if t in wrong or t.op == 'call' and t.args[0] in ('Member3D.deflection', 'Member3D.d') and t.args[-1] is not CN1]
                ctx.ob('the answer is that of the requested combination', con, not other, 'evaluates %s' % show(other)[:300], f)
                for c0, c1 in ((CN1, CN1), (CN1, CN2)):
                    lab = 'asked again' if c0 is c1 else 'asked after another combination'
                    r, f = ask(q, args, kw, filled[c0], c1)
                    ctx.eq('the answer does not depend on earlier queries', '%s, %s' % (con, lab), r.fz(), base[c1], f)
                    s = H.state(r)
                    ok = equal_state(s, filled[c0]) or equal_state(s, filled[c1])
                    ctx.ob('a query leaves a consistent state', '%s, %s' % (con, lab), True if ok else (None if r.I.unk else False), 'state left: %s' % brief(s), f)


def leaves(v):
    return list(atoms_of(v)) if isinstance(v, (Term, Poly, Phi)) else []


def physical(ctx):
    """A physical member never answers from a cache of its own."""
    H = Parts(3)
    from rules.R03 import ask
    for q, args, kw, d in queries():
        con = ' '.join([q] + ([d] if d else []) + (['given positions'] if kw else []))
        with ctx.group('physical member ' + con):
            r, f = ask(ctx, H, q, args, kw)
            used = [t for t in leaves(r.fz()) if t.op == 'attr' and t.args[0] is H.m and t.args[1] in CACHE or t in [s for ax in 'XYZ' for s in H.segs[ax]]]
            ctx.ob('a physical member answers from its parts', con, True if not used else (None if r.I.unk else False), 'the answer uses %s' % show(used)[:200], f)


ENTRY = ('analyze', 'analyze_linear', 'analyze_PDelta')


def analysis(ctx):
    A11.parts(ctx)
    A11.division(ctx)
    q = 'Analysis._check_TC_convergence'
    with ctx.group('convergence test', q):
        A10.stale(ctx, A10.tc_run(ctx), q)
    fl = ctx.repo.flow_ if getattr(ctx.repo, 'flow_', None) is not None else Flow(ctx.repo)
    byq = {f.qual: f for f in fl.funcs.values()}
    stop = byq.get('Analysis._check_TC_convergence')
    fills = {id(f) for f in fl.funcs.values() if f.cls is not None and ctx.repo.is_a(f.cls.name, 'Member3D') and f.name != '__init__'
             and any(w.attr in CACHE and w.direct and w.root == ('p', f.node.args.args[0].arg) for w in fl.func(f).writes.values())}
    for e in ENTRY:
        f = byq.get('FEModel3D.' + e)
        if f is None:
            continue
        seen, todo = {id(f)}, [id(f)]
        hit = []
        while todo:
            g = todo.pop()
            for h in fl.calls.get(g, ()):
                if stop is not None and h == id(stop) or h in seen:
                    continue
                seen.add(h)
                todo.append(h)
                if h in fills:
                    hit.append('%s <- %s' % (fl.funcs[h].qual, fl.funcs[g].qual))
        ctx.ob('an analysis evaluates diagrams only in the convergence test', e, not hit, 'diagrams are also evaluated by: %s' % '; '.join(hit)[:300], f.where)
        ctx.count('functions followed', len(seen))
