"""The nodal stability check."""
from rules.ctx import *
from rules.common import *
from rules.A04 import ENTRY
from sa.alg import c_and, c_not, c_eq, is_ind, truth

RULES = ('the condition under which the stability check raises, instantiated at row 6*node+k, has the normal form "diagonal entry is zero and direction k of that node '
         'is not supported" for each of the six directions of a generic node and ranges over all rows; it is called on the assembled matrix by every analysis that asks for it')
FLOOR = 8
DOFS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
K = mk('sym', 'K', ty='mat:N,N')
ALLN = mk_attr(MODEL, 'nodes', 'dict:Node3D')


def at_row(v, B, k):
    """v with the row index B replaced by 6*node+k, 0 <= k < 6."""
    ID = mk_attr(NODE, 'ID', 'num')
    v = subst(v, {B: alg.add(alg.mul(6, ID), k)})
    for _ in range(4):
        m = {}
        for t in atoms_of(v):
            if t.op in ('mod', 'floordiv') and t.args[1] == 6:
                d = dof_of(t.args[0])
                if d and d[0] is NODE:
                    m[t] = d[1] if t.op == 'mod' else ID
            elif t.op in ('int', 'floor') or t.op == 'ext' and t.args[0] in ('floor', 'math.floor'):
                d = dof_of(alg.mul(6, t.args[-1])) if isinstance(t.args[-1], (Poly, Term)) else None
                if d and d[0] is NODE:
                    m[t] = ID
            elif t.op == 'item' and t.args[0] is ALLN and same(t.args[1], ID):
                m[t] = NODE
            elif t.op == 'first' and t.args[0] is ALLN:
                c = t.args[2]
                if same(c, c_eq(mk_attr(t.args[1], 'ID', 'num'), ID)):
                    m[t] = NODE
            elif t.op == 'dget' and same(t.args[2], ID) and len(t.args[1]) == 1 and t.args[1][0][0] == 'x':
                _, key, val = t.args[1][0][1]
                if same(key, mk_attr(t.args[0], 'ID', 'num')):
                    m[t] = subst(val, {t.args[0]: NODE})
            elif t.op in ('at', 'item') and len(t.args) == 2 and same(t.args[1], ID) and isinstance(t.args[0], Term) and (t.args[0] is ALLN or t.args[0].op in ('values', 'seq') and
                    any(x is ALLN for x in atoms_of(t.args[0]))):
                m[t] = NODE
        if not m:
            return v
        v = subst(v, m)
    return v


def check(ctx):
    q = 'Analysis._check_stability'
    with ctx.group('rows examined', q):
        r = ctx.run(q, [MODEL, K])
        ex = [x for x in r.I.raises if not x.implicit]
        if not ex:
            ctx.ob('unstable direction is reported', 'raise', None if r.I.unk else False, 'never raises', q)
        else:
            c = 0
            for x in ex:
                c = alg.c_or(c, x.cond())
            rows(ctx, r, c, q)
        bad = [x for x in r.I.raises if x.implicit]
        ctx.ob('no other failure', 'raise', None if bad else True, 'may fail with %s' % [x.exc for x in bad], q)
    for sparse in (True, False):
        form = 'sparse' if sparse else 'dense'
        q = 'FEModel3D.K'
        with ctx.group('called with the assembled matrix ' + form, q):
            f = sym('check_stability', 'bool')
            op = dict(elem_opaque(), **{'Analysis._check_stability': ('none', True)})
            del op['FEModel3D.K']
            r = ctx.run(q, [CN, False, f, sparse], self_=MODEL, opaque=op)
            cs = calls(r, 'Analysis._check_stability')
            tot = 0
            for a, kw, _, loops, conds in cs:
                c = 1
                for x in conds:
                    c = c_and(c, x)
                tot = alg.c_or(tot, c)
                got, want = r.fz(a[1]), r.fz()
                same_ = got is want or same(got, want)
                ctx.ob('called with the assembled matrix', form, True if same_ else None, 'a different matrix is examined', q)
            if cs or not r.I.unk:
                ctx.eq('called exactly when requested', form, tot, truth(f), q)
    for name in ENTRY:
        for sparse in (True, False):
            q = 'FEModel3D.' + name
            form = '%s (%s)' % (name, 'sparse' if sparse else 'dense')
            with ctx.group('request is passed on ' + form, q):
                passed(ctx, name, sparse, form, q)


def rows(ctx, r, c, q):
    p = poly(c)
    t = None
    if len(p.t) == 1:
        (m, k), = p.t.items()
        ex = [a for a, e in m if a.op == 'ind' and a.args[0] == 'exists']
        if k == 1 and len(ex) == 1:
            t = ex[0]
            ctx.eq('no further condition on reporting', 'raise', alg.div(c, t), 1, q) if len(m) > 1 else None
    want = {k: c_and(c_eq(mk_at(k), 0), c_not(truth(mk_attr(NODE, 'support_' + DOFS[k], 'bool')))) for k in range(6)}
    if t is not None and is_ind(t) and t.args[0] == 'exists':
        B, body = t.args[1], t.args[2]
        if isinstance(B, Term) and B.op == 'elem' and B.args[0].op == 'range':
            lo, hi, step = B.args[0].args
            n = [x for x in atoms_of(hi) if x.op in ('dim', 'len')]
            full = isnum(lo) and lo == 0 and step == 1 and (isinstance(hi, Term) and hi.op == 'dim' and hi.args[0] is K or same(hi, alg.mul(6, mk_len(ALLN))))
            ctx.ob('every row is examined', 'range', True if full else (False if not unmodelled(hi) and not unmodelled(lo) else None), 'rows from %s to %s step %s' % (show(lo), show(hi), show(step)), q)
            for k in range(6):
                g = at_row(body, B, k)
                if any(x is B or x.op in ('first', 'mod', 'int', 'floordiv') for x in atoms_of(g)) and not same(g, want[k]):
                    ctx.ob('raises exactly for an unsupported zero diagonal', DOFS[k], None, 'row condition not resolved: %s' % show(g)[:300], q)
                    continue
                ctx.eq('raises exactly for an unsupported zero diagonal', DOFS[k], g, want[k], q)
            return
        if B is NODE:
            w = 0
            for k in range(6):
                w = alg.c_or(w, want[k])
            ctx.ob('every row is examined', 'range', True, '', q)
            ctx.eq('raises exactly for an unsupported zero diagonal', 'all six directions', body, w, q)
            return
    ctx.ob('raises exactly for an unsupported zero diagonal', 'raise', None if unmodelled(c) or not isnum(c) else False, 'raised when %s' % show(c)[:300], q)


def mk_at(k):
    i = alg.add(alg.mul(6, mk_attr(NODE, 'ID', 'num')), k)
    from sa.models import as_mat
    return mk('at', K, i, i, ty='num')


def passed(ctx, name, sparse, form, q):
    from rules.A04 import mock
    f = sym('check_stability', 'bool')
    op = mock(name)
    got = []

    def Kf(I, st, self_, b, fn):
        I.log(st, ('call', 'K', None, (('flag', I.fz(b.get('check_stability'), st)),)))
        return mk('call', 'K', b.get('combo_name'), ty='mat:N,N')
    op['FEModel3D.K'] = Kf
    a = ENTRY[name](sparse)
    args = [x.arg for x in ctx.repo.need(q).node.args.args][1:]
    a[args.index('check_stability')] = f
    r = ctx.run(q, a, self_=MODEL, opaque=op)
    cs = calls(r, 'K')
    direct = calls(r, 'Analysis._check_stability')
    if not cs:
        ctx.ob('request is passed on', form, None, 'assembly not recognised', q)
        return
    ok = None
    for v, kw, _, loops, conds in cs:
        g = v[0]
        if g is f or same(g, f) or (not isnum(g) and same(truth(g), truth(f))):
            ok = True
        elif ok is None and (isinstance(g, bool) or isnum(g)) and not direct:
            ok = False
    ctx.ob('request is passed on', form, ok, 'the stability check is %s whatever is requested' % ('not performed' if not direct else ''), q)
