from rules.ctx import *

CN = sym('combo_name', 'str')
COLLS = ('springs', 'members', 'quads', 'plates', 'nodes')


def family_of(mono):
    """The model collection a contribution belongs to."""
    names = set()
    for a, _ in mono:
        for t in atoms_of(a):
            if t.op == 'attr' and t.args[0] is MODEL:
                names.add(t.args[1])
    for c in COLLS:
        if c in names:
            return c
    return 'other'


def split(p):
    out = {}
    for m, c in poly(p).t.items():
        out.setdefault(family_of(m), {})[m] = c
    return {k: low(Poly(v)) for k, v in out.items()}


def families(ctx, rule, form, got, want, where):
    """Compare two symbolic-size arrays element family by element family."""
    if got is None or type(got) is not type(want):
        return ctx.ob(rule, form, None, 'array not modelled: %r' % (got,), where)
    ctx.ob(rule, '%s: shape' % form, tuple(got.shape) == tuple(want.shape) or None if got.shape != want.shape else True, 'shape %s, required %s' % (show(got.shape), show(want.shape)), where)
    g, w = split(got.p), split(want.p)
    for k in sorted(set(g) | set(w)):
        ctx.eq(rule, '%s: contributions of %s' % (form, k), g.get(k, 0), w.get(k, 0), where)


def events(log, loops=(), conds=()):
    """(event, loops, conds) for every recorded call of an opaque function or solver, in order."""
    for p in log:
        if isinstance(p, Phi):
            for c, v in p.alts:
                yield from events((v,), loops, conds + (c,))
        elif p[0] == 'f':
            yield from events(p[2], loops + (p[1],), conds)
        elif p[0] == 'c':
            yield from events(p[2], loops, conds + (p[1],))
        elif p[0] == 'x':
            yield from events((p[1],), loops, conds)
        elif isinstance(p, tuple) and any(isinstance(x, Phi) for x in p):
            i = next(i for i, x in enumerate(p) if isinstance(x, Phi))
            for c, v in p[i].alts:
                yield from events((p[:i] + (v,) + p[i + 1:],), loops, conds + (c,))
        else:
            yield p, loops, conds


def calls(r, qual):
    """(args tuple of values, loops, conds) of every recorded call of qual, self first for methods."""
    out = []
    for e, loops, conds in events(r.log):
        if e[0] == 'call' and e[1] == qual:
            out.append(([v for _, v in e[3]], dict(e[3]), e[2], loops, conds))
    return out


def attr_final(r, obj, name):
    return r.st.loc.get(('a', obj, name))


def hv_maps(info):
    """(first, next): substitutions giving the loop-carried values at the first test / after one iteration."""
    first, nxt = {}, {}
    for k, subs in info.get('hav', {}).items():
        if k[0] in ('v', 'a') and None in subs:
            h = subs[None]
            if info['init'] is not None and k in info['init'].loc:
                first[h] = info['init'].loc[k]
            if info['end'] is not None and k in info['end'].loc:
                nxt[h] = info['end'].loc[k]
    return first, nxt


def dict_sets(c):
    """(key, value, loops, conds) for every entry written to a modelled dictionary."""
    out = []

    def walk(parts, loops, conds):
        for p in parts:
            if p[0] == 'f':
                walk(p[2], loops + (p[1],), conds)
            elif p[0] == 'c':
                walk(p[2], loops, conds + (p[1],))
            elif p[0] == 'x':
                v = p[1]
                if isinstance(v, Phi):
                    for cc, a in v.alts:
                        if isinstance(a, tuple) and a[0] == 'set':
                            out.append((a[1], a[2], loops, conds + (cc,)))
                        else:
                            out.append((None, a, loops, conds + (cc,)))
                elif v[0] == 'set':
                    out.append((v[1], v[2], loops, conds))
                else:
                    out.append((None, v, loops, conds))
    if isinstance(c, DictC):
        walk(c.parts, (), ())
        for k, v in c.top:
            out.append((k, v, (), ()))
    return out


def dict_writes(coll, c):
    """dict_sets with conditional values split; entries that keep the old value are dropped."""
    out = []
    for k, v, l, cs in dict_sets(c):
        old = None if k is None else mk_item(coll, k)
        for w, a in alg.alts(v):
            if old is not None and same(a, old):
                continue
            out.append((k, a, l, cs if isnum(w) and w == 1 else cs + (w,)))
    return out


def by_family(ctx, rule, construct, got, want, where):
    if not (isinstance(got, Poly) or isnum(got) or isinstance(got, Term)):
        return ctx.eq(rule, construct, got, want, where)
    g, w = split(got), split(want)
    for k in sorted(set(g) | set(w)):
        ctx.eq(rule, '%s: contributions of %s' % (construct, k), g.get(k, 0), w.get(k, 0), where)


NODE = mk_elem(mk_attr(MODEL, 'nodes', 'dict:Node3D'), 0)
COMBO = mk_elem(mk_attr(MODEL, 'load_combos', 'dict:LoadCombo'), 0)


def dof_of(i):
    """(node term, offset) of an index of the form 6*node.ID + k."""
    p = poly(i)
    off, nd = 0, None
    for m, c in p.t.items():
        if not m:
            off = c
        elif len(m) == 1 and c == 6:
            (a, e), = m
            if e != 1 or a.op != 'attr' or a.args[1] != 'ID' or nd is not None:
                return None
            nd = a.args[0]
        else:
            return None
    return (nd, off) if nd is not None and isnum(off) and 0 <= off < 6 else None


def read_dof(p, node, k):
    """Entry 6*node.ID+k of a vector written entry by entry (node numbers are distinct); None when undecided."""
    Q = mk_elem(node.args[0], 7) if node.op == 'elem' else mk('sym', 'node_read', ty='Node3D')
    m = {}
    for t in atoms_of(p):
        if t.op in ('E', 'Eset'):
            if len(t.args) > 1 and t.args[1] != 0:
                return None
            d = dof_of(t.args[0])
            if d is None:
                return None
            m[t] = 0 if d[1] != k else mk('ind', 'same', d[0], Q, ty='num')
        elif t.op in ('unkstore', 'Bset', 'B', 'cur'):
            return None
    v = subst(p, m)
    return subst(v, {Q: node})


def resolve_reads(v):
    """Replace reads of a scattered vector at a nodal degree of freedom by the value written there."""
    for _ in range(3):
        m = {}
        for t in atoms_of(v):
            if t.op == 'cur' and len(t.args) >= 3:
                d = dof_of(t.args[2])
                if d is not None:
                    x = read_dof(t.args[1], d[0], d[1])
                    if x is not None:
                        m[t] = x
        if not m:
            return v
        v = subst(v, m)
    return v


def seq_items(v):
    """(value, loops, condition) for every element of a modelled list value ('seq' term)."""
    out = []

    def walk(parts, loops, cond):
        for p in parts:
            if p[0] == 'f':
                walk(p[2], loops + (p[1],), cond)
            elif p[0] == 'c':
                walk(p[2], loops, alg.c_and(cond, p[1]))
            elif p[0] == 'x':
                out.append((p[1], loops, cond))
            else:
                out.append((mk('unk', 'list part'), loops, cond))
    if isinstance(v, Term) and v.op in ('colvec', 'rowvec') and v.args and isinstance(v.args[0], Term):
        v = v.args[0]
    if isinstance(v, Term) and v.op == 'seq':
        walk(v.args[0], (), 1)
        return out
    return None


def vec(r, v=None):
    """The elements of a returned list/tuple/vector of known length."""
    v = r.v if v is None else v
    if isinstance(v, tuple):
        return list(v)
    m = r.mat(v)
    if isinstance(m, MatC):
        return list(m.e)
    it = seq_items(r.fz(v))
    return None if it is None or any(l or not (isnum(c) and c == 1) for _, l, c in it) else [x for x, _, _ in it]


def store(r, obj, attr, ty):
    """Content of the container obj.attr at the end of the run, also when the attribute was bound to a new container."""
    t = mk_attr(obj, attr, ty)
    v = r.st.loc.get(('a', obj, attr))
    if isinstance(v, Term) and v is not t:
        t = v
    return r.content(t)


def always(conds):
    """True: unconditional; False: definitely conditional; None: unknown."""
    w = 1
    for x in conds:
        w = alg.c_and(w, x)
    if isnum(w):
        return w == 1
    return None if unmodelled(w) else False


def cond_atoms(v):
    return [t for t in atoms_of(v) if t.op == 'ind'] if isinstance(v, (Term, Poly, Phi)) else []


def eq_cases(a, b, limit=4000):
    """Equality of two normal forms by distinguishing the truth of every condition in them: (True, '') or (False, the first
    combination of conditions under which they differ).  None when the number of combinations is too large."""
    n = [0]

    def go(a, b, path):
        n[0] += 1
        if n[0] > limit:
            return None, 'too many combinations of conditions'
        if a is b or same(a, b) or (arith(a) and arith(b) and alg.equal(a, b)):
            return True, ''
        cs = sorted(set(cond_atoms(a)) | set(cond_atoms(b)), key=lambda t: t.id)
        inner = [t for t in cs if not any(u is not t and u.op == 'ind' for u in atoms_of(t))]
        if not inner:
            return False, (path, a, b)
        t = inner[0]
        for val in (0, 1):
            # numerator zero: a division by it does not take place
            ok, d = go(restrict(a, t, val), restrict(b, t, val), path + ((t, val),))
            if ok is not True:
                return ok, d
        return True, ''
    return go(a, b, ())


def restrict(v, t, val):
    if not isinstance(v, (Term, Poly, Phi)):
        return v
    return subst(v, {t: val})
