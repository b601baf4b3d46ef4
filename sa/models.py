"""Transfer functions for builtins, container methods and the numpy/scipy/math calls PyNite uses."""
import ast, math
from fractions import Fraction
from .dom import *
from . import alg, dom
from .types_ import REC


def _I():
    from . import interp
    return interp


# ---------------------------------------------------------------- scalars
def mk_abs(v):
    if isnum(v):
        return abs(v)
    p = poly(v)
    if not p.t:
        return 0
    if len(p.t) == 1:
        (m, c), = p.t.items()
        inds = frozenset((a, e) for a, e in m if a.op == 'ind')
        rest = frozenset((a, e) for a, e in m if a.op != 'ind')
        if not rest:
            return low(Poly({inds: abs(c)}))
        if len(rest) == 1:
            (a, e), = rest
            if a.op in ('abs', 'L+') or a.op == 'P' and e == Fraction(1, 2) or isinstance(e, int) and e % 2 == 0:
                return low(Poly({m: abs(c)}))
        q = Poly({rest: 1})
        return low(alg._mul(Poly({inds: abs(c)}), poly(mk('abs', low(q), ty='num'))))
    k = alg.content(p)
    q = alg.scale(p, Fraction(alg._lead(p)) / k)
    return mul(k, mk('abs', low(q), ty='num'))


alg.REBUILD['abs'] = lambda a, ty: mk_abs(a[0])


def mk_max(op, vals):
    """max/min of numbers in normal form (flattened, idempotent)."""
    s = set()
    for v in vals:
        if isinstance(v, Term) and v.op == op:
            s |= v.args[0]
        else:
            s.add(v)
    if len(s) > 1:
        s = {v for v in s if not (isinstance(v, Term) and v.op == 'absent')} or s
    nums = [v for v in s if alg.const_value(v) is not None]
    if len(nums) > 1:
        k = (max if op == 'max' else min)(nums, key=alg.const_value)
        s = (s - set(nums)) | {k}
    # m + (a, b): pull a common shift out is not attempted
    if len(s) == 1:
        return next(iter(s))
    return mk(op, frozenset(s), ty='num')


alg.MAXMIN['f'] = mk_max
alg.REBUILD['max'] = lambda a, ty: mk_max('max', a[0]) if isinstance(a[0], frozenset) else mk('max', *a, ty=ty)
alg.REBUILD['min'] = lambda a, ty: mk_max('min', a[0]) if isinstance(a[0], frozenset) else mk('min', *a, ty=ty)


def _mk_cond(op):
    def f(a, ty):
        if isnum(a[0]):
            return a[1] if a[0] else mk('absent', ty='num')
        return mk(op, *a, ty=ty)
    return f


alg.REBUILD['maxcond'] = _mk_cond('maxcond')
alg.REBUILD['mincond'] = _mk_cond('mincond')


def mk_trig(f, v):
    if isnum(v) and v == 0:
        return 0 if f in ('sin', 'tan') else 1
    if isnum(v) or isinstance(v, (Term, Poly)):
        p = poly(v)
        if p.t and alg._lead(p) < 0:
            r = mk_trig(f, neg(v))
            return neg(r) if f in ('sin', 'tan') else r
    return mk(f, v, ty='num')


alg.REBUILD['sin'] = lambda a, ty: mk_trig('sin', a[0])
alg.REBUILD['cos'] = lambda a, ty: mk_trig('cos', a[0])


# ---------------------------------------------------------------- matrices
def as_mat(I, st, v):
    """MatC | NC | ScatC | None"""
    if isinstance(v, MatC):
        return v
    if isinstance(v, Term):
        c = I.content(st, v)
        if isinstance(c, (MatC, ScatC)):
            return c
        if isinstance(c, ListC):
            return list_to_mat(I, st, c)
        if v.op == 'mat':
            return MatC(v.args[0], v.args[1])
        if ismat(v):
            return nc_of(v)
    if isinstance(v, tuple):
        return list_to_mat(I, st, ListC([('x', x) for x in v]))
    return None


def list_to_mat(I, st, c):
    l = c.concrete()
    if l is None:
        return None
    rows = []
    for x in l:
        if isinstance(x, tuple):
            rows.append(list(x))
            continue
        cc = I.content(st, x) if isinstance(x, Term) else None
        if isinstance(cc, ListC) and cc.concrete() is not None:
            rows.append(cc.concrete())
        elif isinstance(cc, MatC):
            if len(cc.shape) == 1:
                rows.append(list(cc.e))
            elif cc.shape[0] == 1 or cc.shape[1] == 1:
                rows.append(list(cc.e))
            else:
                return None
        elif isinstance(x, Term) and ismat(x):
            e = expand(nc_of(x))
            if e is None:
                return None
            rows.append(list(e.e))
        else:
            rows.append(None)
    if rows and all(r is not None for r in rows):
        n = len(rows[0])
        if all(len(r) == n for r in rows):
            rows2 = []
            for r in rows:
                rr = []
                for x in r:
                    cx = I.content(st, x) if isinstance(x, Term) else None
                    if isinstance(cx, MatC) and len(cx.e) == 1:
                        x = cx.e[0]
                    elif isinstance(cx, ListC) and cx.concrete() is not None and len(cx.concrete()) == 1:
                        x = cx.concrete()[0]
                    rr.append(x)
                rows2.append(rr)
            return MatC((len(rows2), n), [x for r in rows2 for x in r])
        return None
    if rows and any(r is not None for r in rows):
        return None
    return MatC((len(l),), l)


def expand(n):
    """NC with a concrete shape -> MatC of at() entries."""
    if isinstance(n, MatC):
        return n
    if 'N' in n.shape:
        return None
    sh = n.shape
    if len(sh) == 1:
        return MatC(sh, [nc_at(n, i) for i in range(sh[0])])
    return MatC(sh, [nc_at(n, i, j) for i in range(sh[0]) for j in range(sh[1])])


def nc_at(n, *idx):
    r = 0
    for w, c in n.t.items():
        r = add(r, mul(c, at_word(w, idx, n.shape)))
    return r


def at_word(w, idx, shape):
    if len(w) == 1:
        t = w[0]
        if t.op == 'mat':
            return MatC(t.args[0], t.args[1]).at(*idx)
        if t.op == 'mT' and len(idx) == 2:
            return at_word((t.args[0],), idx[::-1], None)
        if t.op == 'eye' and len(idx) == 2:
            return c_eq(idx[0], idx[1]) if not (isinstance(idx[0], int) and isinstance(idx[1], int)) else int(idx[0] == idx[1])
        if t.op == 'scat':
            k = mk('E', *idx, ty='num')
            p = poly(t.args[1])
            if all(any(a.op == 'E' for a, _ in m) for m in p.t) and not any(a.op in ('sum',) for a in atoms_of(t.args[1])):
                pass
        return mk('at', t, *idx, ty='num')
    return mk('at', mk('mx', frozenset({(w, 1)}), shape), *idx, ty='num')


def to_val(I, st, m):
    if isinstance(m, MatC) or isinstance(m, ScatC):
        return I.newref(st, m)
    if isinstance(m, NC):
        return nc_term(m)
    return m


def to_nc(I, st, m):
    if isinstance(m, NC):
        return m
    if isinstance(m, MatC):
        if all(isnum(x) and x == 0 for x in m.e):
            return NC({}, m.shape)
        t = mat_term(MatC(m.shape, [I.fz(x, st) for x in m.e]))
        return NC({(t,): 1}, m.shape)
    if isinstance(m, ScatC):
        sh = tuple(s if isinstance(s, int) else 'N' for s in m.shape)
        if isnum(m.p) and m.p == 0:
            return NC({}, sh)
        t = mk('scat', m.shape, m.p, ty=mty(sh))
        return NC({(t,): 1}, sh)
    return None


def mat_add(I, st, a, b, k=1):
    if isinstance(a, MatC) and isinstance(b, MatC):
        if a.shape == b.shape:
            return MatC(a.shape, [add(x, mul(k, y)) for x, y in zip(a.e, b.e)])
        if len(a.shape) != len(b.shape) or 1 in a.shape or 1 in b.shape:
            r = broadcast(a, b)
            if r:
                return MatC(r[0].shape, [add(x, mul(k, y)) for x, y in zip(r[0].e, r[1].e)])
        raise_shape(I, st)
    if isinstance(a, MatC) and isinstance(b, NC) and 'N' not in b.shape and a.shape == b.shape:
        # matrix of entries + opaque
        if all(isnum(x) and x == 0 for x in a.e):
            return nc_scale(b, k)
        return mat_add(I, st, a, expand(b), k)
    if isinstance(a, NC) and isinstance(b, MatC) and 'N' not in a.shape and a.shape == b.shape:
        if all(isnum(x) and x == 0 for x in b.e):
            return a
        return mat_add(I, st, expand(a), b, k)
    if isinstance(a, ScatC) and isinstance(b, ScatC):
        return ScatC(a.shape, add(a.p, mul(k, b.p)))
    x, y = to_nc(I, st, a), to_nc(I, st, b)
    if x is None or y is None:
        return I.unknown('matrix sum')
    if 'N' not in x.shape and 'N' not in y.shape and x.shape != y.shape:
        raise_shape(I, st)
    return nc_add(x, y, k)


def raise_shape(I, st):
    I.unk['shape mismatch'] = I.unk.get('shape mismatch', 0) + 1
    I.do_raise(st, 'ValueError', implicit=True)
    raise _I().Dead()


def broadcast(a, b):
    def as2(m):
        return m if len(m.shape) == 2 else MatC((1, m.shape[0]), m.e)
    x, y = as2(a), as2(b)
    r = max(x.shape[0], y.shape[0])
    c = max(x.shape[1], y.shape[1])
    if x.shape[0] not in (1, r) or y.shape[0] not in (1, r) or x.shape[1] not in (1, c) or y.shape[1] not in (1, c):
        return None

    def ex(m):
        return MatC((r, c), [m.at(i if m.shape[0] > 1 else 0, j if m.shape[1] > 1 else 0) for i in range(r) for j in range(c)])
    return ex(x), ex(y)


def mat_mul(I, st, a, b):
    if isinstance(a, MatC) and isinstance(b, MatC):
        if len(a.shape) == 1 and len(b.shape) == 1:
            r = 0
            for x, y in zip(a.e, b.e):
                r = add(r, mul(x, y))
            return r
        A = a if len(a.shape) == 2 else MatC((1, a.shape[0]), a.e)
        Bm = b if len(b.shape) == 2 else MatC((b.shape[0], 1), b.e)
        n, k = A.shape
        k2, m = Bm.shape
        if k != k2:
            raise_shape(I, st)
        out = []
        for i in range(n):
            for j in range(m):
                r = Poly({})
                for t in range(k):
                    x = A.e[i * k + t]
                    if isnum(x) and x == 0:
                        continue
                    y = Bm.e[t * m + j]
                    if isnum(y) and y == 0:
                        continue
                    r = alg._add(r, alg._mul(poly(x), poly(y)))
                out.append(low(r))
        sh = (n, m)
        if len(b.shape) == 1:
            sh = (n,)
        elif len(a.shape) == 1:
            sh = (m,)
        return MatC(sh, out)
    x, y = to_nc(I, st, a), to_nc(I, st, b)
    if x is None or y is None:
        return I.unknown('matrix product')
    if not x.t or not y.t:
        return NC({}, (x.shape[0],) + tuple(y.shape[1:]))
    if len(x.shape) == 2 and isinstance(x.shape[1], int) and isinstance(y.shape[0], int) and x.shape[1] != y.shape[0]:
        raise_shape(I, st)
    return nc_mul(x, y)


def mat_scale(m, k):
    if isinstance(m, MatC):
        return MatC(m.shape, [mul(x, k) for x in m.e])
    if isinstance(m, ScatC):
        return ScatC(m.shape, mul(m.p, k))
    return nc_scale(m, k)


def det(rows):
    n = len(rows)
    if n == 1:
        return rows[0][0]
    if n == 2:
        return sub(mul(rows[0][0], rows[1][1]), mul(rows[0][1], rows[1][0]))
    r = 0
    for j in range(n):
        x = rows[0][j]
        if isnum(x) and x == 0:
            continue
        minor = [row[:j] + row[j + 1:] for row in rows[1:]]
        d = mul(x, det(minor))
        r = add(r, d if j % 2 == 0 else neg(d))
    return r


def mat_inv(I, st, m):
    if isinstance(m, MatC):
        n = m.shape[0]
        if n != m.shape[1]:
            raise_shape(I, st)
        rows = m.rows()
        zero = lambda x: isnum(x) and x == 0
        # block / diagonal structure: invert per connected component
        comp = components(rows)
        if comp is not None and (len(comp) > 1 or n <= 4) and all(len(c) <= 4 for c in comp):
            out = [0] * (n * n)
            for c in comp:
                sub_ = [[rows[i][j] for j in c] for i in c]
                d = det(sub_)
                if zero(d):
                    return None
                di = power(d, -1)
                for a in range(len(c)):
                    for b in range(len(c)):
                        minor = [[sub_[i][j] for j in range(len(c)) if j != a] for i in range(len(c)) if i != b]
                        cf = det(minor) if minor else 1
                        if (a + b) % 2:
                            cf = neg(cf)
                        out[c[a] * n + c[b]] = mul(cf, di)
            return MatC((n, n), out)
        return nc_inv(to_nc(I, st, m))
    return nc_inv(to_nc(I, st, m))


def components(rows):
    n = len(rows)
    adj = {i: set() for i in range(n)}
    for i in range(n):
        for j in range(n):
            if not (isnum(rows[i][j]) and rows[i][j] == 0):
                adj[i].add(j)
                adj[j].add(i)
    seen, out = set(), []
    for i in range(n):
        if i in seen:
            continue
        c, todo = [], [i]
        seen.add(i)
        while todo:
            x = todo.pop()
            c.append(x)
            for y in adj[x]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        out.append(sorted(c))
    return out


def transpose(m):
    if isinstance(m, MatC):
        if len(m.shape) == 1:
            return m
        r, c = m.shape
        return MatC((c, r), [m.e[i * c + j] for j in range(c) for i in range(r)])
    if isinstance(m, NC):
        return nc_T(m)
    # scatter: swap the unit-matrix indices
    mm = {}
    for t in atoms_of(m.p):
        if t.op in ('E', 'Eset') and len(t.args) == 2:
            mm[t] = mk(t.op, t.args[1], t.args[0], ty='num')
    return ScatC(m.shape[::-1], subst(m.p, mm))


def norm_idx(I, st, k, n):
    """index along one axis of size n -> int | list of ints | 'all' | None(symbolic)"""
    SliceV_ = SliceV
    if isinstance(k, SliceV_):
        if k.a is None and k.b is None and k.c is None:
            return list(range(n)) if isinstance(n, int) else 'all'
        if all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)) and isinstance(n, int):
            return list(range(n))[k.a:k.b:k.c]
        return None
    if isinstance(k, bool):
        return None
    if isinstance(k, int):
        if isinstance(n, int):
            return k % n if -n <= k < n else 'oob'
        return k
    if isinstance(k, Term):
        c = I.content(st, k)
        l = None
        if isinstance(c, ListC):
            l = c.concrete()
        elif isinstance(c, MatC) and len(c.shape) == 1:
            l = list(c.e)
        elif k.op == 'mat':
            l = list(k.args[1])
        if l is None and k.op == 'seq':
            l = ListC(k.args[0]).concrete()
        if l is not None and all(isinstance(x, int) and not isinstance(x, bool) for x in l):
            return [x % n if isinstance(n, int) else x for x in l]
        if l is not None and all(isinstance(x, bool) for x in l):
            return [i for i, x in enumerate(l) if x]
        return None
    return None


def mat_index(I, st, o, k):
    if isinstance(o, Term) and o.op == 'row' and not isinstance(k, (tuple, SliceV)):
        return mat_index(I, st, o.args[0], (o.args[1], k))
    m = as_mat(I, st, o)
    if m is None or isinstance(I.content(st, o), ListC):
        return None
    ks = k if isinstance(k, tuple) else (k,)
    # np.ix_ result
    if len(ks) == 1 and isinstance(ks[0], Term) and ks[0].op == 'ix':
        ks = tuple(_unix(x) for x in ks[0].args)
    if not isinstance(m, MatC) and len(ks) == 1 and len(m.shape) == 2 and (isnum(ks[0]) or isinstance(ks[0], Poly) or isinstance(ks[0], Term) and ks[0].ty == 'num'):
        k0 = ks[0]
        if isinstance(m, NC) and isinstance(k0, int) and not isinstance(k0, bool) and all(isinstance(x, int) for x in m.shape):
            if not -m.shape[0] <= k0 < m.shape[0]:
                I.do_raise(st, 'IndexError', implicit=True)
                raise _I().Dead()
            return I.newref(st, MatC((m.shape[1],), [nc_at(m, k0 % m.shape[0], j) for j in range(m.shape[1])]))
        return mk('row', o, I.fz(k0, st))
    if isinstance(m, MatC):
        sh = m.shape
        if len(ks) > len(sh):
            return I.unknown('index rank')
        ii = [norm_idx(I, st, x, n) for x, n in zip(ks, sh)]
        if any(x == 'oob' for x in ii):
            I.do_raise(st, 'IndexError', implicit=True)
            raise _I().Dead()
        if any(x is None for x in ii):
            if all(isinstance(x, (Term, Poly, int)) for x in ks) and len(ks) == len(sh) and all(numeric(x) or isinstance(x, Term) for x in ks):
                return pick_sym(m, ks, ii)
            n = to_nc(I, st, m)
            return nc_slice(I, st, n, ks)
        if len(sh) == 1:
            if isinstance(ii[0], int):
                return m.e[ii[0]]
            return I.newref(st, MatC((len(ii[0]),), [m.e[i] for i in ii[0]]))
        if len(ii) == 1:
            ii.append(list(range(sh[1])))
        r, c = ii
        if isinstance(r, int) and isinstance(c, int):
            return m.at(r, c)
        if isinstance(r, int):
            return I.newref(st, MatC((len(c),), [m.at(r, j) for j in c]))
        if isinstance(c, int):
            return I.newref(st, MatC((len(r),), [m.at(i, c) for i in r]))
        isl = [isinstance(x, SliceV) for x in ks] + [True]
        if not isl[0] and len(ks) > 1 and not isl[1] and not (isinstance(k, Term) and k.op == 'ix'):
            # paired fancy indexing
            if len(r) == len(c):
                return I.newref(st, MatC((len(r),), [m.at(i, j) for i, j in zip(r, c)]))
        return I.newref(st, MatC((len(r), len(c)), [m.at(i, j) for i in r for j in c]))
    if isinstance(m, ScatC):
        kk = tuple(I.fz(x, st) for x in ks)
        if len(kk) == len(m.shape) and all(isnum(x) or isinstance(x, (Term, Poly)) and numeric(x) or isinstance(x, Term) and not ismat(x) and x.ty != 'slice' and x.op not in ('sl', 'seq') for x in kk) and not any(isinstance(x, SliceV) for x in ks):
            return mk('cur', o, m.p, *kk, ty='num')
        return nc_slice(I, st, to_nc(I, st, m), ks)
    return nc_slice(I, st, m, ks)


def _unix(t):
    return t


def pick_sym(m, ks, ii):
    rng = [[i] if isinstance(i, int) else range(n) for i, n in zip(ii, m.shape)]
    r = 0
    if len(m.shape) == 1:
        for i in rng[0]:
            r = add(r, mul(c_eq(ks[0], i) if not isinstance(ii[0], int) else 1, m.e[i]))
        return r
    for i in rng[0]:
        for j in rng[1]:
            e = m.at(i, j)
            if isnum(e) and e == 0:
                continue
            w = mul(1 if isinstance(ii[0], int) else c_eq(ks[0], i), 1 if isinstance(ii[1], int) else c_eq(ks[1], j))
            r = add(r, mul(w, e))
    return r


def nc_slice(I, st, n, ks):
    if len(ks) == 1 and len(n.shape) == 2:
        ks = ks + (SliceV(None, None, None),)
    ii = [norm_idx(I, st, x, d) for x, d in zip(ks, n.shape)]
    scalar = [not isinstance(x, (SliceV, tuple)) and not (isinstance(x, Term) and (I.content(st, x) is not None or ismat(x) or x.op in ('seq', 'sl') or (x.ty or '').startswith('list:'))) for x in ks]
    if any(isinstance(x, str) and x == 'oob' for x in ii):
        I.do_raise(st, 'IndexError', implicit=True)
        raise _I().Dead()
    if all(scalar):
        return nc_at(n, *[x if not isinstance(x, int) or not isinstance(d, int) else x % d for x, d in zip([I.fz(x, st) for x in ks], n.shape)])
    if len(n.shape) == 2 and all(isinstance(x, (int, list)) for x in ii) and 'N' not in n.shape:
        e = expand(n)
        r, c = ii
        if isinstance(r, int):
            return I.newref(st, MatC((len(c),), [e.at(r, j) for j in c]))
        if isinstance(c, int):
            return I.newref(st, MatC((len(r),), [e.at(i, c) for i in r]))
        return I.newref(st, MatC((len(r), len(c)), [e.at(i, j) for i in r for j in c]))
    sel = []
    shp = []
    for x, i, d in zip(ks, ii, n.shape):
        if isinstance(x, SliceV) and x.a is None and x.b is None:
            sel.append(':')
            shp.append(d)
        else:
            f = I.fz(x, st)
            sel.append(f)
            if isinstance(f, Term) and f.op == 'seq':
                c = ListC(f.args[0]).concrete()
                shp.append(len(c) if c is not None else 'N')
            elif isinstance(i, list):
                shp.append(len(i))
            elif isnum(f) or isinstance(f, Poly) or isinstance(f, Term) and f.ty == 'num':
                shp.append(1)
            else:
                shp.append('N')
    sh = tuple(shp)
    t = {}
    for w, c in n.t.items():
        q = sub_word(w, tuple(sel), sh, n.shape)
        t[(q,)] = add(t.get((q,), 0), c)
    return nc_term(NC(t, sh))


def sub_word(w, sel, sh, osh):
    t = w[0] if len(w) == 1 else mk('mx', frozenset({(w, 1)}), osh, ty=mty(osh))
    if all(s == ':' for s in sel):
        return t
    if t.op == 'sub':
        base, s0 = t.args[0], t.args[1]
        if all(a == ':' or b == ':' for a, b in zip(s0, sel)):
            return mk('sub', base, tuple(b if a == ':' else a for a, b in zip(s0, sel)), ty=mty(sh))
    return mk('sub', t, sel, ty=mty(sh))


def _re_sub(a, ty):
    t, sel = a
    if isinstance(t, Term) and ismat(t):
        n = nc_of(t)
        sh = mshape(ty)
        r = {}
        for w, c in n.t.items():
            q = sub_word(w, sel, sh, n.shape)
            r[(q,)] = add(r.get((q,), 0), c)
        return nc_term(NC(r, sh))
    return mk('sub', *a, ty=ty)


REBUILD['sub'] = _re_sub


def mat_store(I, st, o, k, v):
    m = as_mat(I, st, o)
    if m is None:
        return False
    ks = k if isinstance(k, tuple) else (k,)
    isix = len(ks) == 1 and isinstance(ks[0], Term) and ks[0].op == 'ix'
    if isix:
        ks = ks[0].args
    if isinstance(m, NC):
        e = expand(m)
        if e is None:
            # opaque symbolic-size array: log the write
            st.loc[('r', o)] = ScatC(tuple(m.shape), add(mk('base', nc_term(m), ty='num'), 0))
            m = st.loc[('r', o)]
        else:
            st.loc[('r', o)] = m = e
    if isinstance(m, ScatC):
        kk = [I.fz(x, st) for x in ks]
        lists = [ListC(x.args[0]).concrete() if isinstance(x, Term) and x.op == 'seq' else None for x in kk]
        vm = as_mat(I, st, v)
        if any(l is not None for l in lists):
            # block scatter through index lists
            if len(kk) == 2 and lists[0] is not None and (isix or lists[1] is not None or isnum(kk[1])):
                cols = lists[1] if lists[1] is not None else [kk[1]]
                blk = None
                cur_added = None
                if isinstance(v, Term) and v.op == 'ixadd':
                    pass
                if isinstance(vm, NC):
                    # K[ix] + block : split the sub() part
                    rest = NC({}, vm.shape)
                    hit = False
                    for w, c in vm.t.items():
                        if len(w) == 1 and w[0].op == 'sub' and c == 1 and w[0].args[0].op == 'scat' and w[0].args[0].args[1] == m.p:
                            hit = True
                        elif len(w) == 1 and w[0].op == 'sub' and c == 1 and w[0].args[0].op == 'mzero':
                            hit = True
                        else:
                            rest.t[w] = c
                    blk = expand(rest)
                    if blk is not None:
                        p = m.p
                        for i, r in enumerate(lists[0]):
                            for j, c in enumerate(cols):
                                p = add(p, mul(nc_entry(blk, i, j), mk('E' if hit or isnum(m.p) and m.p == 0 else 'Eset', r, c, ty='num')))
                        st.loc[('r', o)] = ScatC(m.shape, p)
                        return True
            I.unknown('block store')
            st.loc[('r', o)] = ScatC(m.shape, add(m.p, mk('unkstore', *kk, _hz(v), ty='num')))
            return True
        if vm is not None and any(isinstance(x, SliceV) for x in ks):
            t = nc_term(to_nc(I, st, vm))
            st.loc[('r', o)] = ScatC(m.shape, add(m.p, mk('Bset', t, *kk, ty='num')))
            return True
        E = mk('E', *kk, ty='num')
        p = poly(v) if not isinstance(v, (str, tuple)) and v is not None else poly(0)
        cur = mk('cur', o, m.p, *kk, ty='num')
        cm = frozenset(((cur, 1),))
        if p.t.get(cm) == 1:
            rest = Poly({a: b for a, b in p.t.items() if a != cm})
            if cur not in atoms_of(rest):
                st.loc[('r', o)] = ScatC(m.shape, add(m.p, mul(low(rest), E)))
                return True
        st.loc[('r', o)] = ScatC(m.shape, add(m.p, mul(low(p), mk('Eset', *kk, ty='num'))))
        return True
    # concrete
    ii = [norm_idx(I, st, x, n) for x, n in zip(ks, m.shape)]
    if any(x == 'oob' for x in ii):
        I.do_raise(st, 'IndexError', implicit=True)
        raise _I().Dead()
    if any(x is None for x in ii):
        if len(ks) == len(m.shape) and all(numeric(x) or isinstance(x, Term) for x in ks) and as_mat(I, st, v) is None:
            e = list(m.e)
            for pos in range(len(e)):
                idx = (pos,) if len(m.shape) == 1 else (pos // m.shape[1], pos % m.shape[1])
                w = 1
                for x, i in zip(ks, idx):
                    w = mul(w, c_eq(x, i))
                if isnum(w) and w == 0:
                    continue
                e[pos] = phi(w, v, e[pos])
            st.loc[('r', o)] = MatC(m.shape, e)
            return True
        I.unknown('store index')
        st.loc[('r', o)] = MatC(m.shape, [I.unknown('stored', ty='num')] * len(m.e))
        return True
    e = list(m.e)
    vm = as_mat(I, st, v)
    if isinstance(vm, NC):
        vm = expand(vm)
    if len(m.shape) == 1:
        idx = [(i,) for i in (ii[0] if isinstance(ii[0], list) else [ii[0]])]
    else:
        if len(ii) == 1:
            ii.append(list(range(m.shape[1])))
        rr = ii[0] if isinstance(ii[0], list) else [ii[0]]
        cc = ii[1] if isinstance(ii[1], list) else [ii[1]]
        idx = [(i, j) for i in rr for j in cc]
    vals = None
    if vm is not None:
        vals = list(vm.e)
        if len(vals) == 1:
            vals = vals * len(idx)
        if len(vals) != len(idx):
            raise_shape(I, st)
    for n, ix in enumerate(idx):
        pos = ix[0] if len(ix) == 1 else ix[0] * m.shape[1] + ix[1]
        e[pos] = vals[n] if vals is not None else v
    st.loc[('r', o)] = MatC(m.shape, e)
    return True


def nc_entry(m, i, j):
    return m.at(i, j) if len(m.shape) == 2 else m.e[i]


def _hz(v):
    try:
        hash(v)
        return v
    except TypeError:
        return repr(v)


# ---------------------------------------------------------------- binary operators
def binop(I, op, a, b, st):
    if isinstance(a, Phi) and not _allnum(a) or isinstance(b, Phi) and not _allnum(b):
        r = NIL
        for w1, x in alts(a):
            for w2, y in alts(b):
                w = _I().simp(mul(w1, w2), st.facts)
                if isnum(w) and w == 0:
                    continue
                if x is None or y is None:
                    I.unknown('none operand')
                    continue
                v = binop(I, op, x, y, st)
                r = v if r is NIL else phi(w, v, r)
        return r if r is not NIL else I.unknown('binop')
    isstr = lambda v: isinstance(v, str) or isinstance(v, Term) and v.ty == 'str'
    if op == 'Add' and (isstr(a) or isstr(b)):
        if isinstance(a, (str, Term)) and isinstance(b, (str, Term)):
            return I.cat([a, b])
        return I.unknown('str add')
    if op == 'Mod' and isinstance(a, str):
        return mk('fmt', a, I.fz(b, st), ty='str')
    if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
        return a * b
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return a + b
    ca, cb = I.content(st, a), I.content(st, b)
    if isinstance(ca, ListC) or isinstance(cb, ListC):
        if op == 'Add' and isinstance(ca, ListC) and isinstance(cb, ListC):
            return I.newref(st, ListC(ca.seq + cb.seq, ca.kind))
        if op == 'Mult':
            c, n = (ca, b) if isinstance(ca, ListC) else (cb, a)
            if isinstance(n, int):
                return I.newref(st, ListC(c.seq * n, c.kind))
            if n is None or numeric(n):
                pass
        if op in ('Sub', 'BitAnd', 'BitOr') and isinstance(ca, ListC) and ca.kind == 'set' and isinstance(cb, ListC):
            return set_op(I, st, op, ca.seq, cb.seq)
    ma, mb = as_mat(I, st, a), as_mat(I, st, b)
    if ma is not None or mb is not None:
        if op == 'MatMult':
            return to_val(I, st, mat_mul(I, st, ma, mb))
        if op in ('Add', 'Sub'):
            k = 1 if op == 'Add' else -1
            if ma is not None and mb is not None:
                return to_val(I, st, mat_add(I, st, ma, mb, k))
            m, s = (ma, b) if ma is not None else (mb, a)
            if isinstance(m, NC):
                m = expand(m)
            if isinstance(m, MatC):
                if ma is not None:
                    return to_val(I, st, MatC(m.shape, [add(x, mul(k, s)) for x in m.e]))
                return to_val(I, st, MatC(m.shape, [add(s, mul(k, x)) for x in m.e]))
            return I.unknown('mat+scalar')
        if op == 'Mult':
            if ma is not None and mb is not None:
                x, y = expand(ma) if not isinstance(ma, ScatC) else None, expand(mb) if not isinstance(mb, ScatC) else None
                if isinstance(x, MatC) and isinstance(y, MatC):
                    if x.shape != y.shape:
                        bb = broadcast(x, y)
                        if bb is None:
                            raise_shape(I, st)
                        x, y = bb
                    return to_val(I, st, MatC(x.shape, [mul(p, q) for p, q in zip(x.e, y.e)]))
                return I.unknown('elementwise product')
            return to_val(I, st, mat_scale(ma if ma is not None else mb, b if ma is not None else a))
        if op == 'Div':
            if ma is not None and mb is None:
                return to_val(I, st, mat_scale(ma, div(1, b)))
            x = expand(ma) if ma is not None and not isinstance(ma, ScatC) else None
            y = expand(mb) if mb is not None and not isinstance(mb, ScatC) else None
            if x is not None and y is not None and x.shape == y.shape:
                return to_val(I, st, MatC(x.shape, [div(p, q) for p, q in zip(x.e, y.e)]))
            if ma is None and y is not None:
                return to_val(I, st, MatC(y.shape, [div(a, q) for q in y.e]))
            return I.unknown('mat div')
        if op == 'Pow':
            x = expand(ma) if ma is not None and not isinstance(ma, ScatC) else None
            if x is not None and mb is None:
                return to_val(I, st, MatC(x.shape, [power(p, b) for p in x.e]))
        return I.unknown('mat ' + op)
    if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        return I.unknown('operand type')
    try:
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mult':
            return mul(a, b)
        if op == 'Div':
            return div(a, b)
        if op == 'Pow':
            if isnum(b):
                return power(a, b)
            return mk('pow', a, b, ty='num')
        if op in ('Mod', 'FloorDiv'):
            if isnum(a) and isnum(b) and b != 0:
                return frac(Fraction(a) % Fraction(b)) if op == 'Mod' else int(Fraction(a) // Fraction(b))
            return mk_mod('mod' if op == 'Mod' else 'floordiv', a, b)
        if op == 'BitAnd' and I.isboolv(a) and I.isboolv(b):
            return mul(truth(a), truth(b))
        if op == 'BitOr' and I.isboolv(a) and I.isboolv(b):
            return c_or(truth(a), truth(b))
    except TypeError:
        pass
    return I.unknown('binop ' + op, _hz(I.fz(a, st)), _hz(I.fz(b, st)))


def _allnum(v):
    return all(numeric(x) for _, x in v.alts)


# ---------------------------------------------------------------- attributes / methods of values
IDENT = {'copy', 'tolil', 'tocsr', 'tocsc', 'todense', 'toarray', 'tocoo', 'tolist_', 'astype', 'ravel_', 'real'}


def value_attr(I, st, o, a):
    m = as_mat(I, st, o)
    isl = isinstance(I.content(st, o), (ListC, DictC))
    if m is not None and not isl:
        if a == 'T':
            if isinstance(o, Term) and o.op == 'rowvec':
                return mk('colvec', o.args[0], ty='mat:N,1')
            if isinstance(o, Term) and o.op == 'colvec':
                return mk('rowvec', o.args[0], ty='mat:1,N')
            return to_val(I, st, transpose(m))
        if a == 'ndim':
            return len(m.shape)
        if a == 'shape':
            if isinstance(m, MatC):
                return m.shape
            if isinstance(m, ScatC):
                return m.shape
            t = nc_term(m)
            if t.op == 'mx':
                # a sum: the shape of any of its terms
                for w in sorted(m.t, key=lambda w: (len(w), [x.id for x in w])):
                    if len(w) == 1 and w[0].op == 'sub':
                        t = w[0]
                        break
            if t.op == 'solve':
                b = t.args[1]
                A = t.args[0]
                sa = value_attr(I, st, A, 'shape')
                return (sa[0], 1)
            if t.op == 'sub':
                return tuple(mk_len_sel(s, t.args[0], i) for i, s in enumerate(t.args[1]))
            return tuple(s if isinstance(s, int) else mk('dim', t, i, ty='num') for i, s in enumerate(m.shape))
        if a == 'size':
            if isinstance(m, MatC):
                return len(m.e)
    return MethV(o, a)


def mk_len_sel(s, base, i):
    if s == ':':
        return mk('dim', base, i, ty='num')
    if isinstance(s, Term) and s.op == 'seq':
        l = ListC(s.args[0]).concrete()
        if l is not None:
            return len(l)
    if isinstance(s, Term):
        return mk_len(s)
    return 1


def _len_seq(I, seq):
    r = 0
    for p in seq:
        if p[0] == 'x':
            r = add(r, 1)
        elif p[0] == 'c':
            r = add(r, mul(p[1], _len_seq(I, p[2])))
        elif p[0] == 'f':
            if p[1].op in ('elem', 'key'):
                r = add(r, mk_sum([p[1]], _len_seq(I, p[2])))
            else:
                r = add(r, mk('itercount', p[1], _len_seq(I, p[2]), ty='num'))
        else:
            r = add(r, mk_len(p[1]))
    return r


def length(I, st, v):
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, Phi):
        return I.lift1(lambda x: length(I, st, x), v)
    c = I.content(st, v)
    if isinstance(c, ListC):
        return _len_seq(I, c.seq)
    if isinstance(c, DictC):
        if v.ty in REC:
            return len(REC[v.ty])
        if not c.parts:
            n = 0
            for k, x in c.top:
                if x is not MISSING:
                    n = add(n, I.present(x, v, k))
            return n
        if not c.top and len(c.parts) == 1 and c.parts[0][0] == 'b':
            return mk_len(c.parts[0][1])
        return mk('lenof', I.fz_content(c, st), ty='num')
    m = as_mat(I, st, v)
    if isinstance(m, MatC):
        return m.shape[0]
    if isinstance(m, ScatC):
        return m.shape[0]
    if isinstance(m, NC):
        t = nc_term(m)
        return m.shape[0] if isinstance(m.shape[0], int) else mk('dim', t, 0, ty='num')
    if isinstance(v, Term):
        return mk('len', v, ty='num')
    return I.unknown('len')


def method_call(I, st, o, name, args, kw):
    if isinstance(o, str) or isinstance(o, Term) and o.ty == 'str' and I.content(st, o) is None:
        return str_method(I, st, o, name, args, kw)
    if isinstance(o, tuple):
        if name == 'index':
            for i, x in enumerate(o):
                if same(x, args[0]):
                    return i
            return mk('index', o, I.fz(args[0], st), ty='num')
        if name == 'count':
            return I.unknown('count')
        return I.unknown('tuple.' + name)
    if isinstance(o, (Poly, int, Fraction)):
        return o
    c = I.content(st, o)
    if isinstance(c, ListC) and name == 'reshape' and c.concrete() is None:
        sh = args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(args)
        if len(sh) == 2 and sh[1] == 1:
            return mk('colvec', I.fz(o, st), ty='mat:N,1')
        if len(sh) == 2 and sh[0] == 1:
            return mk('rowvec', I.fz(o, st), ty='mat:1,N')
    if isinstance(o, Term) and o.op in ('isnan', 'isfinite') and name in ('any', 'all'):
        return any_all_nan(o, name)
    if isinstance(c, ListC):
        return list_method(I, st, o, c, name, args, kw)
    if isinstance(c, DictC):
        return dict_method(I, st, o, c, name, args, kw)
    m = as_mat(I, st, o)
    if m is not None:
        if name in ('copy', 'tolil', 'tocsr', 'tocsc', 'todense', 'toarray', 'tocoo', 'astype', 'round'):
            if isinstance(m, NC):
                return nc_term(m)
            return I.newref(st, m)
        if name == 'reshape':
            sh = args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(args)
            return reshape(I, st, m, sh)
        if name in ('flatten', 'ravel'):
            if isinstance(m, MatC):
                return I.newref(st, MatC((len(m.e),), m.e))
        if name == 'transpose':
            return to_val(I, st, transpose(m))
        if name == 'dot':
            b = as_mat(I, st, args[0])
            return to_val(I, st, mat_mul(I, st, m, b))
        if name == 'tolist':
            if isinstance(m, MatC) and len(m.shape) == 1:
                return I.newref(st, ListC([('x', x) for x in m.e]))
            if isinstance(m, MatC):
                return I.newref(st, ListC([('x', I.newref(st, ListC([('x', x) for x in r]))) for r in m.rows()]))
        if name in ('sum', 'max', 'min'):
            if isinstance(m, MatC) and not args and not kw:
                return I.models.ext_call(I, st, name, [tuple(m.e)], {})
        if name == 'item' and isinstance(m, MatC) and len(m.e) == 1:
            return m.e[0]
        if name == 'fill':
            if isinstance(m, MatC):
                st.loc[('r', o)] = MatC(m.shape, [args[0]] * len(m.e))
                return None
        return I.unknown('array.' + name)
    return I.wrap(mk('mcall', name, I.fz(o, st), *[I.fz(a, st) for a in args])) if _ok(o) else I.unknown('method ' + name)


def _ok(o):
    return isinstance(o, Term)


def reshape(I, st, m, sh):
    if isinstance(m, MatC):
        n = len(m.e)
        sh = list(sh)
        if -1 in sh:
            k = 1
            for x in sh:
                if x != -1:
                    k *= x
            sh[sh.index(-1)] = n // k
        if all(isinstance(x, int) for x in sh):
            return I.newref(st, MatC(tuple(sh), m.e))
    if isinstance(m, NC):
        if len(sh) == 2 and sh[1] == 1:
            if len(m.shape) == 1 or m.shape[1] in (1, 'N'):
                return nc_term(NC(m.t, (m.shape[0], 1)))
    return I.unknown('reshape')


def str_method(I, st, o, name, args, kw):
    if isinstance(o, str):
        if name in ('upper', 'lower', 'strip', 'title') and not args:
            return getattr(o, name)()
        if name in ('startswith', 'endswith') and args and isinstance(args[0], str):
            return getattr(o, name)(args[0])
        if name == 'format':
            if all(isinstance(a, (str, int)) for a in args) and not kw and '{:' not in o:
                return o.format(*args)
            return mk('fmt', o, *[I.fz(a, st) for a in args], ty='str')
        if name == 'join':
            ps = I.parts_of(st, args[0])
            if all(p[0] == 'x' for p in ps):
                out = []
                for i, p in enumerate(ps):
                    if i:
                        out.append(o)
                    out.append(I.to_str(p[1], st))
                return I.cat(out)
            return mk('join', o, I.fz(args[0], st), ty='str')
        if name == 'replace' and all(isinstance(a, str) for a in args):
            return o.replace(*args)
        if name == 'split' and all(isinstance(a, str) for a in args):
            return I.newref(st, ListC([('x', x) for x in o.split(*args)]))
        if name in ('isdigit', 'isalpha', 'isnumeric'):
            return getattr(o, name)()
    ty = 'str' if name in ('upper', 'lower', 'strip', 'format', 'join', 'replace', 'title') else ('bool' if name.startswith('is') or name in ('startswith', 'endswith') else None)
    return I.wrap(mk('mcall', name, I.fz(o, st), *[I.fz(a, st) for a in args], ty=ty))


def filter_seq(seq, pred):
    """The elements of a sequence satisfying a condition."""
    out = []
    for p in seq:
        if p[0] == 'x':
            out.append(('c', pred(p[1]), (p,)))
        elif p[0] in ('c', 'f'):
            out.append((p[0], p[1], filter_seq(p[2], pred)))
        else:
            B = mk_elem(p[1], 0)
            out.append(('f', B, (('c', pred(B), (('x', B),)),)))
    return norm_seq(out)


def set_op(I, st, op, a, b):
    if op == 'BitOr':
        return I.newref(st, ListC(norm_seq(tuple(a) + filter_seq(b, lambda x: c_not(I.seq_contains(a, x, st)))), 'set'))
    f = (lambda x: I.seq_contains(b, x, st)) if op == 'BitAnd' else (lambda x: c_not(I.seq_contains(b, x, st)))
    return I.newref(st, ListC(filter_seq(a, f), 'set'))


def list_method(I, st, o, c, name, args, kw):
    if name in ('intersection', 'difference', 'union', 'isdisjoint', 'issubset', 'issuperset') and c.kind == 'set' and len(args) == 1:
        b = I.parts_of(st, args[0])
        if name == 'isdisjoint':
            return I.boolv(c_not(I.seq_nonempty(filter_seq(c.seq, lambda x: I.seq_contains(b, x, st)))))
        if name == 'issubset':
            return I.boolv(c_not(I.seq_nonempty(filter_seq(c.seq, lambda x: c_not(I.seq_contains(b, x, st))))))
        if name == 'issuperset':
            return I.boolv(c_not(I.seq_nonempty(filter_seq(b, lambda x: c_not(I.seq_contains(c.seq, x, st))))))
        return set_op(I, st, {'intersection': 'BitAnd', 'difference': 'Sub', 'union': 'BitOr'}[name], c.seq, b)
    if name in ('append', 'add'):
        if name == 'add' and c.kind == 'set':
            has = I.seq_contains(c.seq, args[0], st)
            if has == 1:
                return None
        st.loc[('r', o)] = ListC(c.seq + (('x', args[0]),), c.kind)
        return None
    if name in ('extend', 'update'):
        st.loc[('r', o)] = ListC(norm_seq(c.seq + tuple(I.parts_of(st, args[0]))), c.kind)
        return None
    if name == 'clear':
        st.loc[('r', o)] = ListC((), c.kind)
        return None
    if name == 'copy':
        return I.newref(st, c)
    l = c.concrete()
    if name == 'insert' and isinstance(args[0], int):
        if args[0] == 0:
            st.loc[('r', o)] = ListC((('x', args[1]),) + c.seq, c.kind)
            return None
        if l is not None:
            l.insert(args[0], args[1])
            st.loc[('r', o)] = ListC([('x', v) for v in l], c.kind)
            return None
    if name == 'pop':
        k = args[0] if args else -1
        if l is not None and isinstance(k, int) and l:
            v = l.pop(k)
            st.loc[('r', o)] = ListC([('x', v) for v in l], c.kind)
            return v
        if k == -1 and c.seq and c.seq[-1][0] == 'x':
            st.loc[('r', o)] = ListC(c.seq[:-1], c.kind)
            return c.seq[-1][1]
    if name == 'remove':
        if l is not None:
            for i, v in enumerate(l):
                e = I.eqv(v, args[0], st)
                if e == 1:
                    del l[i]
                    st.loc[('r', o)] = ListC([('x', v) for v in l], c.kind)
                    return None
                if e != 0:
                    break
        st.loc[('r', o)] = ListC((('b', mk('removed', mk('seq', smap_seq(c.seq, lambda x: I.fz(x, st)), c.kind), I.fz(args[0], st), ty='list:' + (I.seq_ty(c.seq) or '?'))),), c.kind)
        return None
    if name == 'index':
        if l is not None:
            for i, v in enumerate(l):
                e = I.eqv(v, args[0], st)
                if e == 1:
                    return i
                if e != 0:
                    break
        return mk('index', I.fz(o, st), I.fz(args[0], st), ty='num')
    if name == 'sort':
        if l is not None and all(isnum(x) for x in l) and not kw:
            st.loc[('r', o)] = ListC([('x', v) for v in sorted(l)], c.kind)
            return None
        done = order(I, st, l, kw) if l is not None else None
        if done is not None:
            st.loc[('r', o)] = ListC([('x', v) for v in done], c.kind)
            return None
        st.loc[('r', o)] = ListC((('b', sorted_term(I, st, c, kw)),), c.kind)
        return None
    if name == 'reverse':
        if l is not None:
            st.loc[('r', o)] = ListC(tuple(reversed(c.seq)), c.kind)
            return None
    if name == 'count':
        return I.unknown('count')
    if name in ('insert', 'pop', 'reverse'):
        st.loc[('r', o)] = ListC((('b', mk('unk', 'list.' + name, ty='list:' + (I.seq_ty(c.seq) or '?'))),), c.kind)
    return I.unknown('list.' + name)


def sorted_term(I, st, c, kw):
    key = kw.get('key')
    kt = None
    if key is not None:
        X = mk('sym', 'sortkey', ty=I.seq_ty(c.seq))
        # a tuple element: give it symbolic components of the element's structure
        s = c.seq
        while len(s) == 1 and s[0][0] in ('c', 'f'):
            s = s[0][2]
        arg = X
        if len(s) == 1 and s[0][0] == 'x' and isinstance(s[0][1], tuple):
            arg = tuple(mk('sym', 'sortkey%d' % i, ty='num' if numeric(x) else None) for i, x in enumerate(s[0][1]))
        try:
            kt = I.fz(I.call(key, [arg], {}, st.copy()), st)
        except _I().Dead:
            kt = 'dead'
    rev = kw.get('reverse', False)
    return mk('sorted', smap_seq(c.seq, lambda x: I.fz(x, st)), kt, rev, ty='list:' + (I.seq_ty(c.seq) or '?'))


def dict_method(I, st, o, c, name, args, kw):
    if name in ('keys', 'values', 'items'):
        return I.newref(st, ListC(I.dict_view(o, c, name), 'view'))
    if name == 'get':
        k = I.fz(args[0], st)
        d = args[1] if len(args) > 1 else kw.get('default')
        v = dict_get(c, k)
        return I.wrap(with_default(I, st, o, k, v, d))
    if name == 'pop':
        k = I.fz(args[0], st)
        v = dict_get(c, k)
        if len(args) > 1:
            v2 = with_default(I, st, o, k, v, args[1])
        else:
            if I.implicit or I.trystack:
                I.missing_check(st, c, k, o)
            if v is MISSING:
                I.do_raise(st, 'KeyError', implicit=True)
                raise _I().Dead()
            v2 = v
        st.loc[('r', o)] = I.dict_del(c, k)
        return I.wrap(v2)
    if name == 'clear':
        st.loc[('r', o)] = DictC()
        return None
    if name == 'copy':
        return I.newref(st, c)
    if name == 'setdefault':
        k = I.fz(args[0], st)
        d = args[1] if len(args) > 1 else None
        v = with_default(I, st, o, k, dict_get(c, k), d)
        st.loc[('r', o)] = c.with_set(k, v)
        return v
    if name == 'update':
        oc = I.content(st, args[0]) if args else DictC((), ()) if kw else None
        if isinstance(oc, DictC) and kw and not oc.parts:
            for k, v in kw.items():
                oc = oc.with_set(k, v)
            kw = {}
        if isinstance(oc, DictC) and not kw:
            if not oc.parts:
                for k, v in oc.top:
                    if isinstance(v, Phi) and any(x is MISSING for _, x in v.alts):
                        old = dict_get(c, k)
                        v = I.lift1(lambda x: old if x is MISSING else x, v)
                    c = c.with_set(k, v)
                st.loc[('r', o)] = c
            else:
                base = []
                for p in oc.parts:
                    base += expand_base(I, p)
                st.loc[('r', o)] = DictC(c.flushed() + tuple(base), oc.top)
            return None
        st.loc[('r', o)] = DictC((('b', mk('unk', 'dict.update', ty=o.ty)),), ())
        return I.unknown('dict.update')
    if o.ty in REC:
        return I.unknown('record method')
    return I.unknown('dict.' + name)


def expand_base(I, p):
    """A dict's ('b', D) part as an explicit loop of sets (for update)."""
    if p[0] == 'b':
        D = p[1]
        B = mk_elem(D, 0)
        if B.op == 'elem':
            return [('f', B, (('x', ('set', mk_attr(B, 'name', 'str'), B)),))]
        return [('f', B, (('x', ('set', B, mk('item', D, B, ty=ctype(D)))),))]
    return [p]


def with_default(I, st, o, k, v, d):
    if v is MISSING:
        return d
    if isinstance(v, Phi):
        r = NIL
        for w, x in v.alts:
            y = with_default(I, st, o, k, x, d)
            r = y if r is NIL else phi(w, y, r)
        return None if r is NIL else r
    p = _I().simp(I.present(v, o, k), st.facts)
    if p == 1:
        return v
    return phi(p, v, d)


# ---------------------------------------------------------------- calls of external functions
def ext_call(I, st, name, args, kw):
    base = name.split('.')[-1]
    f = EXT.get(base)
    if name.startswith('exc:'):
        return mk('excval', name)
    if f is not None:
        r = f(I, st, args, kw)
        if r is not NotImplemented:
            return r
    return I.wrap(mk('ext', base, *[_hz(I.fz(a, st)) for a in args], *[(k, _hz(I.fz(v, st))) for k, v in sorted(kw.items())],
                     ty=EXT_TY.get(base)))


EXT_TY = {'acos': 'num', 'asin': 'num', 'atan': 'num', 'tan': 'num', 'ceil': 'num', 'floor': 'num', 'arctan2': 'num', 'atan2': 'num', 'exp': 'num', 'log': 'num'}


def external(t):
    """An object of another library, or one obtained from such an object."""
    while isinstance(t, Term) and t.op in ('call?', 'attr') and t.args:
        t = t.args[0]
    return isinstance(t, Term) and t.op == 'ext'


def term_call(I, st, f, args, kw):
    if f.op == 'unk':
        return I.unknown('call of unknown')
    if f.op == 'attr' and external(f.args[0]):
        # a method of an external object (for example a table being printed)
        I.log(st, ('call', f.args[1], f.args[0], tuple((i, I.fz(a, st)) for i, a in enumerate(args)) + tuple((k, I.fz(v, st)) for k, v in sorted(kw.items()))))
    return I.wrap(mk('call?', f, *[_hz(I.fz(a, st)) for a in args]))


EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


@ext('len')
def _len(I, st, a, kw):
    return length(I, st, a[0])


@ext('range')
def _range(I, st, a, kw):
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, hi = low(poly(lo)) if numeric(lo) or isinstance(lo, Term) else lo, low(poly(hi)) if numeric(hi) or isinstance(hi, Term) else hi
    if all(isinstance(x, int) for x in (lo, hi, step)):
        return I.newref(st, ListC([('x', i) for i in range(lo, hi, step)], 'range'))
    return mk('range', lo, hi, step, ty='list:num')


@ext('abs', 'fabs', 'absolute')
def _abs(I, st, a, kw):
    v = a[0]
    m = as_mat(I, st, v)
    if m is not None:
        e = expand(m) if not isinstance(m, ScatC) else None
        return to_val(I, st, MatC(e.shape, [mk_abs(x) for x in e.e])) if isinstance(e, MatC) else I.unknown('abs mat')
    if isinstance(v, Phi):
        return I.lift1(lambda x: mk_abs(x), v)
    return mk_abs(v)


def _seqvals(I, st, a, kw):
    if len(a) == 1:
        return I.parts_of(st, a[0])
    return tuple(('x', x) for x in a)


@ext('max', 'amax', 'nanmax')
def _max(I, st, a, kw):
    return _maxmin(I, st, 'max', a, kw)


@ext('min', 'amin', 'nanmin')
def _min(I, st, a, kw):
    return _maxmin(I, st, 'min', a, kw)


def _maxmin(I, st, op, a, kw):
    if len(a) == 1 and isinstance(a[0], Term) and ismat(a[0]) and I.content(st, a[0]) is None:
        return mk(op + 'of', a[0], ty='num')
    if 'key' in kw or 'axis' in kw:
        return NotImplemented
    ps = _seqvals(I, st, a, kw)
    vals = []

    def walk(ps, Bs, c):
        for p in ps:
            if p[0] == 'x':
                if Bs or c != 1:
                    v = p[1]
                    t = mk(op + 'over', Bs[0] if len(Bs) == 1 else tuple(Bs), frozenset([v]) if c == 1 else (c, v), ty='num') if Bs else mk(op + 'cond', c, v, ty='num')
                    vals.append(t)
                else:
                    vals.append(p[1])
            elif p[0] == 'c':
                walk(p[2], Bs, mul(c, p[1]))
            elif p[0] == 'f':
                walk(p[2], Bs + [p[1]], c)
            else:
                B = mk_elem(p[1], 0)
                vals.append(mk(op + 'over', B, frozenset([B]), ty='num'))
    walk(ps, [], 1)
    if 'default' in kw and not vals:
        return kw['default']
    if not vals:
        I.do_raise(st, 'ValueError', implicit=True)
        raise _I().Dead()
    out = []
    for v in vals:
        if isinstance(v, Phi):
            return I.unknown('max phi')
        out.append(v)
    return mk_max(op, out)


@ext('sum')
def _sum(I, st, a, kw):
    ps = I.parts_of(st, a[0])
    start = a[1] if len(a) > 1 else kw.get('start', 0)

    def walk(ps):
        r = 0
        for p in ps:
            if p[0] == 'x':
                r = binop(I, 'Add', r, p[1], st) if not (isnum(r) and r == 0) else p[1]
            elif p[0] == 'c':
                r = add(r, mul(p[1], walk(p[2])))
            elif p[0] == 'f':
                r = add(r, mk_sum([p[1]], walk(p[2])))
            else:
                B = mk_elem(p[1], 0)
                r = add(r, mk_sum([B], B))
        return r
    v = walk(ps)
    return v if isnum(start) and start == 0 else binop(I, 'Add', start, v, st)


@ext('any')
def _any(I, st, a, kw):
    def walk(ps):
        r = 0
        for p in ps:
            if p[0] == 'x':
                r = c_or(r, I.truth(st, p[1]))
            elif p[0] == 'c':
                r = c_or(r, mul(p[1], walk(p[2])))
            elif p[0] == 'f':
                r = c_or(r, exists(p[1], walk(p[2])))
            else:
                B = mk_elem(p[1], 0)
                r = c_or(r, exists(B, truth(B)))
        return r
    return I.boolv(_I().simp(walk(I.parts_of(st, a[0])), st.facts))


@ext('all')
def _all(I, st, a, kw):
    def walk(ps):     # exists a false one
        r = 0
        for p in ps:
            if p[0] == 'x':
                r = c_or(r, c_not(I.truth(st, p[1])))
            elif p[0] == 'c':
                r = c_or(r, mul(p[1], walk(p[2])))
            elif p[0] == 'f':
                r = c_or(r, exists(p[1], walk(p[2])))
            else:
                B = mk_elem(p[1], 0)
                r = c_or(r, exists(B, c_not(truth(B))))
        return r
    return I.boolv(_I().simp(c_not(walk(I.parts_of(st, a[0]))), st.facts))


@ext('round', 'around')
def _round(I, st, a, kw):
    n = a[1] if len(a) > 1 else kw.get('ndigits', kw.get('decimals', 0))
    v = a[0]
    if as_mat(I, st, v) is not None:
        return v
    if isinstance(n, int) and n >= 6:
        return v          # documented abstraction: rounding at 1e-6 or finer is the identity
    if alg.const_value(v) is not None and isinstance(n, int):
        return frac(Fraction(round(Fraction(alg.const_value(v)), n)))
    return mk('round', I.fz(v, st), I.fz(n, st), ty='num')


@ext('int')
def _int(I, st, a, kw):
    v = a[0] if a else 0
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            I.do_raise(st, 'ValueError', implicit=True)
            raise _I().Dead()
    if isinstance(v, bool):
        return int(v)
    if isnum(v):
        return int(v)
    if isinstance(v, Term) and intlike(v) or isinstance(v, Term) and v.op == 'ext' and v.args[0] in ('ceil', 'floor'):
        return v
    return mk_int('int', I.fz(v, st))


@ext('float', 'float64')
def _float(I, st, a, kw):
    v = a[0] if a else 0
    if isinstance(v, str):
        try:
            return frac(float(v))
        except ValueError:
            I.do_raise(st, 'ValueError', implicit=True)
            raise _I().Dead()
    if isinstance(v, Term) and v.op == 'cat' and len(v.args) == 2 and v.args[0] in ('-', '+') and isinstance(v.args[1], Term) and v.args[1].op == 'strof':
        x = v.args[1].args[0]
        return neg(x) if v.args[0] == '-' else x
    if isinstance(v, Term) and v.op == 'cat' and len(v.args) == 2 and isinstance(v.args[1], Term) and v.args[1].op == 'strof':
        return mul(mk('signof', v.args[0], ty='num'), v.args[1].args[0])
    if isinstance(v, Term) and v.op == 'strof':
        return v.args[0]
    if isinstance(v, Phi):
        return I.lift1(lambda x: _float(I, st, [x], {}), v)
    return v


def intlike(t):
    """Terms that stand for integers."""
    if t.op in ('idx', 'len', 'dim', 'floordiv', 'int', 'ceil', 'floor'):
        return True
    if t.op == 'attr' and t.args[1] == 'ID':
        return True
    if t.op == 'mod':
        return isinstance(t.args[1], int) and all(all(intlike(a) for a, _ in m) for m in poly(t.args[0]).t)
    return t.op == 'elem' and isinstance(t.args[0], Term) and t.args[0].op == 'range'


def split_int(p, n):
    """p = n*q + r with integer-valued polynomials and 0 <= r < n constant; None when unknown."""
    q, r = {}, 0
    for m, c in poly(p).t.items():
        if not m:
            r = c
        elif Fraction(c) % n == 0 and all(intlike(a) and e > 0 for a, e in m):
            q[m] = Fraction(c) / n
        else:
            return None
    if Fraction(r).denominator != 1:
        return None
    r = int(r)
    return add(low(Poly({m: frac(c) for m, c in q.items()})), r // n), r % n


def mk_mod(op, a, b):
    if isnum(b) and b != 0:
        if isnum(a):
            return frac(Fraction(a) % Fraction(b)) if op == 'mod' else int(Fraction(a) // Fraction(b))
        if isinstance(b, int) and b > 0:
            s = split_int(a, b)
            if s is not None:
                return s[1] if op == 'mod' else s[0]
    return mk(op, a, b, ty='num')


def mk_int(op, v):
    """Integer part of a non-negative quotient."""
    if isnum(v):
        return int(v)
    if isinstance(v, (Poly, Term)):
        if alg.const_value(v) is not None:
            return int(alg.const_value(v))
        p = poly(v)
        d = 1
        for c in p.t.values():
            d = d * Fraction(c).denominator // math.gcd(d, Fraction(c).denominator)
        s = split_int(low(alg.scale(p, d)), d)
        if s is not None:
            return s[0]
    return mk(op, v, ty='num')


REBUILD['mod'] = lambda a, ty: mk_mod('mod', *a)
REBUILD['floordiv'] = lambda a, ty: mk_mod('floordiv', *a)
REBUILD['int'] = lambda a, ty: mk_int('int', *a)


@ext('str')
def _str(I, st, a, kw):
    return I.to_str(a[0], st) if a else ''


@ext('divmod')
def _divmod(I, st, a, kw):
    return (binop(I, 'FloorDiv', a[0], a[1], st), binop(I, 'Mod', a[0], a[1], st))


@ext('bool')
def _bool(I, st, a, kw):
    return I.boolv(I.truth(st, a[0]))


@ext('isinstance')
def _isinstance(I, st, a, kw):
    v, c = a
    cs = c if isinstance(c, tuple) else (c,)
    r = 0
    for k in cs:
        n = k.name if isinstance(k, (ClassV, ExtV)) else None
        if n is None:
            return ind('isinst', I.fz(v, st), I.fz(k, st))
        if isinstance(v, Term) and I.cls_of(v):
            if n in I.repo.classes and I.repo.is_a(I.cls_of(v), n):
                return True
            continue
        co = I.content(st, v)
        if isinstance(co, ListC):
            if n == {'list': 'list', 'set': 'set'}.get(co.kind, 'list'):
                return True
            continue
        if isinstance(co, DictC):
            if n == 'dict':
                return True
            continue
        if isinstance(v, bool):
            if n in ('bool', 'int'):
                return True
            continue
        if isinstance(v, int) and n in ('int',) or isinstance(v, str) and n == 'str' or isinstance(v, tuple) and n == 'tuple':
            return True
        if isnum(v) and n in ('int', 'float'):
            return True
        if isinstance(v, (str, tuple)) or isnum(v) or v is None:
            continue
        r = c_or(r, ind('isinst', I.fz(v, st), n))
    return I.boolv(_I().simp(r, st.facts))


@ext('type')
def _type(I, st, a, kw):
    v = a[0]
    if isinstance(v, Term) and I.cls_of(v):
        return ClassV(I.cls_of(v))
    return mk('typeof', I.fz(v, st))


@ext('id')
def _id(I, st, a, kw):
    return a[0]                 # identities are only ever compared: the object stands for its own


@ext('sorted')
def _sorted(I, st, a, kw):
    c = ListC(I.parts_of(st, a[0]))
    l = c.concrete()
    if l is not None and len(l) <= 1:
        return I.newref(st, ListC(c.seq))
    if l is not None and all(isnum(x) for x in l) and 'key' not in kw:
        return I.newref(st, ListC([('x', x) for x in sorted(l, reverse=bool(kw.get('reverse', False)))]))
    l = order(I, st, l, kw) if l is not None else None
    if l is not None:
        return I.newref(st, ListC([('x', x) for x in l]))
    return I.newref(st, ListC((('b', sorted_term(I, st, c, kw)),)))


def order(I, st, l, kw):
    """The elements in order when every comparison of their keys is decided by what is known."""
    key = kw.get('key')
    try:
        keys = [I.call(key, [x], {}, st) if key is not None else x for x in l]
    except _I().Dead:
        return None
    if not all(numeric(k) and not isinstance(k, Phi) for k in keys):
        return None
    done = []
    for x, k in zip(l, keys):
        i = len(done)
        while i > 0:
            c = _I().simp(c_lt(k, done[i - 1][1]), st.facts)
            if not isnum(c):
                return None
            if not c:
                break
            i -= 1
        done.insert(i, (x, k))
    done = [x for x, _ in done]
    return done[::-1] if kw.get('reverse') else done


@ext('acos', 'arccos')
def _acos(I, st, a, kw):
    if not isinstance(a[0], Phi) and numeric(a[0]):
        for k in (1, -1):
            if alg.equal(a[0], k):
                return mul(mk('sym', 'pi', ty='num'), Fraction(1 - k, 2))
    return mk('ext', 'acos', I.fz(a[0], st), ty='num')


@ext('list')
def _list(I, st, a, kw):
    if not a:
        return I.newref(st, ListC())
    return I.newref(st, ListC(I.parts_of(st, a[0])))


@ext('tuple')
def _tuple(I, st, a, kw):
    if not a:
        return ()
    ps = I.parts_of(st, a[0])
    if all(p[0] == 'x' for p in ps):
        return tuple(p[1] for p in ps)
    return I.newref(st, ListC(ps, 'list'))


@ext('set', 'frozenset')
def _set(I, st, a, kw):
    return I.newref(st, ListC(unique(I.parts_of(st, a[0])) if a else (), 'set'))


def unique(seq):
    """A set keeps one of several identical elements."""
    out = []
    for p in seq:
        if p[0] == 'x' and any(q[0] == 'x' and same(q[1], p[1]) for q in out):
            continue
        out.append(p)
    return tuple(out)


@ext('dict')
def _dict(I, st, a, kw):
    c = DictC()
    if a:
        oc = I.content(st, a[0]) if isinstance(a[0], Term) else None
        if isinstance(oc, DictC):
            c = oc
        else:
            for p in I.parts_of(st, a[0]):
                if p[0] == 'x' and isinstance(p[1], tuple) and len(p[1]) == 2:
                    c = c.with_set(I.fz(p[1][0], st), p[1][1])
                else:
                    c = DictC(c.flushed() + map_pairs(I, st, (p,)))
    for k, v in kw.items():
        c = c.with_set(k, v)
    return I.newref(st, c)


def map_pairs(I, st, ps):
    out = []
    for p in ps:
        if p[0] == 'x' and isinstance(p[1], tuple):
            out.append(('x', ('set', I.fz(p[1][0], st), p[1][1])))
        elif p[0] in ('c', 'f'):
            out.append((p[0], p[1], map_pairs(I, st, p[2])))
        else:
            I.unknown('dict pairs')
    return tuple(out)


@ext('dict.fromkeys', 'fromkeys')
def _fromkeys(I, st, a, kw):
    if len(a) > 1 and a[1] is not None:
        def pair(ps):
            return tuple(('x', (I.fz(p[1], st), a[1])) if p[0] == 'x' else (p[0], p[1], pair(p[2])) if p[0] in ('c', 'f') else p for p in ps)
        ps = pair(I.parts_of(st, a[0]))
        return I.newref(st, DictC(map_pairs(I, st, ps)))
    # used to remove duplicates while keeping order
    ps = I.parts_of(st, a[0])
    return I.newref(st, ListC((('b', mk('unique', smap_seq(ps, lambda x: I.fz(x, st)), ty='list:' + (I.seq_ty(ps) or '?'))),)))


@ext('enumerate')
def _enumerate(I, st, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', 0)
    def walk(ps, n):
        out = []
        for p in ps:
            if p[0] == 'x':
                out.append(('x', (n, p[1])))
                n = add(n, 1)
            elif p[0] == 'c':
                o, m = walk(p[2], n)
                out.append(('c', p[1], tuple(o)))
                n = add(n, mul(p[1], sub(m, n)))
            elif p[0] == 'f' and len(p[2]) == 1 and p[2][0][0] == 'x':
                out.append(('f', p[1], (('x', (add(n, mk('idx', p[1], ty='num')), p[2][0][1])),)))
                n = add(n, mk_len(p[1].args[0]))
            elif p[0] == 'f':
                o, _ = walk(p[2], mk('unk', 'position', p[1], ty='num'))
                out.append(('f', p[1], tuple(o)))
                n = mk('unk', 'position', ty='num')
            else:
                B = mk_elem(p[1], 0)
                out.append(('f', B, (('x', (add(n, mk('idx', B, ty='num')), B)),)))
                n = add(n, mk_len(p[1]))
        return out, n
    return I.newref(st, ListC(walk(I.parts_of(st, a[0]), start)[0], 'view'))


@ext('zip')
def _zip(I, st, a, kw):
    ps = [I.parts_of(st, x) for x in a]
    r = zip_seq(ps)
    if r is None:
        cs = [[p[1] for p in x] if all(p[0] == 'x' for p in x) else None for x in ps]
        if all(c is not None for c in cs):
            return I.newref(st, ListC([('x', t) for t in zip(*cs)], 'view'))
        return I.unknown('zip', ty='list:?')
    return I.newref(st, ListC(r, 'view'))


def zip_seq(ps):
    if not ps:
        return ()
    n = len(ps[0])
    if any(len(p) != n for p in ps):
        return None
    out = []
    for col in zip(*ps):
        k = col[0][0]
        if any(c[0] != k for c in col):
            return None
        if k == 'x':
            out.append(('x', tuple(c[1] for c in col)))
        elif k in ('c', 'f'):
            if any(c[1] != col[0][1] for c in col):
                return None
            s = zip_seq([c[2] for c in col])
            if s is None:
                return None
            out.append((k, col[0][1], s))
        else:
            return None
    return tuple(out)


@ext('getattr')
def _getattr(I, st, a, kw):
    if isinstance(a[1], str):
        if len(a) > 2 and isinstance(a[0], Term) and I.cls_of(a[0]) and ('a', a[0], a[1]) not in st.loc and I.repo.method(I.cls_of(a[0]), a[1]) is None \
                and I.attr_ty(I.cls_of(a[0]), a[1]) is None:
            return phi(ind('hasattr', a[0], a[1]), I.get_attr(st, a[0], a[1]), a[2])
        return I.get_attr(st, a[0], a[1])
    if isinstance(a[1], Phi):
        return I.lift1(lambda x: I.get_attr(st, a[0], x), a[1])
    return I.wrap(mk('getattr', I.fz(a[0], st), I.fz(a[1], st)))


@ext('setattr')
def _setattr(I, st, a, kw):
    if isinstance(a[1], str):
        I.set_attr(st, a[0], a[1], a[2])
        return None
    if isinstance(a[1], Phi):
        for w, x in a[1].alts:
            w = _I().simp(w, st.facts)
            if w == 0:
                continue
            s2 = st.copy()
            I.set_attr(s2, a[0], x, a[2])
            I.absorb(st, w, s2)
        return None
    I.unknown('setattr')
    st.loc[('a', a[0], mk('dyn', I.fz(a[1], st)))] = a[2]
    return None


@ext('hasattr')
def _hasattr(I, st, a, kw):
    o, n = a
    if isinstance(o, Term) and I.cls_of(o) and isinstance(n, str):
        if ('a', o, n) in st.loc or I.repo.method(I.cls_of(o), n) or I.attr_ty(I.cls_of(o), n):
            return True
    return ind('hasattr', I.fz(o, st), _hz(I.fz(n, st)))


@ext('deepcopy', 'copy')
def _deepcopy(I, st, a, kw):
    v = a[0]
    c = I.content(st, v) if isinstance(v, Term) else None
    if c is not None:
        return I.newref(st, c)
    return v


@ext('reversed')
def _reversed(I, st, a, kw):
    ps = I.parts_of(st, a[0])
    if all(p[0] == 'x' for p in ps):
        return I.newref(st, ListC(tuple(reversed(ps))))
    return I.newref(st, ListC((('b', mk('reversed', smap_seq(ps, lambda x: I.fz(x, st)), ty='list:' + (I.seq_ty(ps) or '?'))),)))


@ext('iter')
def _iter(I, st, a, kw):
    return a[0]


@ext('next')
def _next(I, st, a, kw):
    c = I.content(st, a[0]) if isinstance(a[0], Term) else None
    if isinstance(c, ListC):
        l = c.concrete()
        if l:
            return l[0]
        s = c.seq
        ne = I.seq_nonempty(s)
        v = None
        if len(s) == 1 and s[0][0] == 'f':
            B, q = s[0][1], s[0][2]
            if len(q) == 1 and q[0][0] == 'c' and len(q[0][2]) == 1 and q[0][2][0][0] == 'x':
                v = subst(q[0][2][0][1], {B: mk('first', B.args[0], B, low(poly(q[0][1])), ty=B.ty)})
        if v is not None:
            if len(a) > 1:
                return phi(ne, v, a[1])
            return v
    return I.unknown('next')


@ext('map')
def _map(I, st, a, kw):
    ps = I.parts_of(st, a[1])

    def walk(ps):
        out = []
        for p in ps:
            if p[0] == 'x':
                out.append(('x', I.call(a[0], [p[1]], {}, st)))
            elif p[0] in ('c', 'f'):
                out.append((p[0], p[1], walk(p[2])))
            else:
                B = mk_elem(p[1], 0)
                out.append(('f', B, (('x', I.call(a[0], [B], {}, st)),)))
        return tuple(out)
    return I.newref(st, ListC(walk(ps), 'view'))


@ext('print', 'warn', 'seterr', 'simplefilter')
def _noop(I, st, a, kw):
    return None


@ext('chr')
def _chr(I, st, a, kw):
    return chr(a[0]) if isinstance(a[0], int) else mk('chr', a[0], ty='str')


@ext('pow')
def _pow(I, st, a, kw):
    return binop(I, 'Pow', a[0], a[1], st)


# ---- math / numpy scalars
@ext('sqrt')
def _sqrt(I, st, a, kw):
    return power(a[0], Fraction(1, 2))


@ext('sin')
def _sin(I, st, a, kw):
    return mk_trig('sin', a[0])


@ext('cos')
def _cos(I, st, a, kw):
    return mk_trig('cos', a[0])


@ext('radians', 'deg2rad')
def _rad(I, st, a, kw):
    return mul(a[0], div(mk('sym', 'pi', ty='num'), 180))


@ext('ceil')
def _ceil(I, st, a, kw):
    v = a[0]
    if alg.const_value(v) is not None:
        return -((-alg.const_value(v)) // 1)
    return mk('ext', 'ceil', v, ty='num')


@ext('isclose', 'allclose')
def _isclose(I, st, a, kw):
    x, y = a[0], a[1]
    mx, my = as_mat(I, st, x), as_mat(I, st, y)
    if mx is not None or my is not None:
        return NotImplemented
    if isinstance(x, Phi) or isinstance(y, Phi):
        return NotImplemented
    return I.boolv(_I().simp(int(r) if isinstance(r := c_eq(x, y), bool) else r, st.facts))


# ---- numpy arrays
@ext('atleast_2d')
def _atl2(I, st, a, kw):
    return _array(I, st, a, dict(kw, ndmin=2))


@ext('array', 'asarray', 'matrix', 'atleast_1d')
def _array(I, st, a, kw):
    v = a[0]
    c = I.content(st, v) if isinstance(v, Term) else None
    if isinstance(c, ListC) and len(c.seq) == 1 and c.seq[0][0] == 'x':
        ci = I.content(st, c.seq[0][1]) if isinstance(c.seq[0][1], Term) else None
        if isinstance(ci, ListC) and ci.concrete() is None:
            return mk('rowvec', I.fz(c.seq[0][1], st), ty='mat:1,N')
    if isinstance(c, ListC) and c.concrete() is None and kw.get('ndmin') == 2:
        return mk('rowvec', I.fz(v, st), ty='mat:1,N')
    if isinstance(c, MatC) and len(c.shape) == 1 and kw.get('ndmin') == 2:
        return I.newref(st, MatC((1,) + c.shape, c.e))
    if isinstance(c, ListC) and c.concrete() is not None and kw.get('ndmin') == 2:
        m = as_mat(I, st, v)
        if isinstance(m, MatC) and len(m.shape) == 1:
            return I.newref(st, MatC((1,) + m.shape, m.e))
    if isinstance(v, Term) and c is None and ismat(v):
        return v
    m = as_mat(I, st, v)
    if isinstance(m, (MatC, ScatC)):
        return I.newref(st, m)
    if isinstance(m, NC):
        return nc_term(m)
    if isinstance(c, ListC) and not c.concrete():
        return I.newref(st, c)
    return NotImplemented


@ext('zeros', 'empty', 'zeros_like')
def _zeros(I, st, a, kw):
    sh = a[0]
    if len(a) > 1 and not isinstance(a[1], (ExtV, str)):
        # zeros(n, n): the second argument is a dtype
        I.do_raise(st, 'TypeError', implicit=True)
        raise _I().Dead()
    c = I.content(st, sh) if isinstance(sh, Term) else None
    if isinstance(c, ListC) and c.concrete():
        sh = tuple(c.concrete())
    if not isinstance(sh, tuple):
        sh = (sh,)
    sh = tuple(low(poly(s)) if numeric(s) or isinstance(s, Term) else s for s in sh)
    if all(isinstance(s, int) for s in sh):
        n = 1
        for s in sh:
            n *= s
        return I.newref(st, MatC(sh, [0] * n))
    return I.newref(st, ScatC(sh, 0))


@ext('lil_matrix', 'csr_matrix', 'csc_matrix')
def _lil(I, st, a, kw):
    if a and isinstance(a[0], tuple) and len(a[0]) == 2 and not isinstance(a[0][1], tuple):
        return _zeros(I, st, [a[0]], {})
    if a:
        m = as_mat(I, st, a[0])
        if m is not None:
            return a[0]
    return NotImplemented


@ext('coo_matrix')
def _coo(I, st, a, kw):
    d, (r, c) = a[0]
    sh = a[1] if len(a) > 1 else kw.get('shape')
    ps = [I.parts_of(st, x) for x in (d, r, c)]
    z = zip_seq(ps)
    if z is None:
        return I.unknown('coo', ty='mat:N,N')

    def walk(ps):
        p = 0
        for q in ps:
            if q[0] == 'x':
                v, i, j = q[1]
                p = add(p, mul(v, mk('E', I.fz(i, st), I.fz(j, st), ty='num')))
            elif q[0] == 'c':
                p = add(p, mul(q[1], walk(q[2])))
            elif q[0] == 'f':
                p = add(p, mk_sum([q[1]], walk(q[2])))
            else:
                p = add(p, I.unknown('coo part', ty='num'))
        return p
    return I.newref(st, ScatC(sh, walk(z)))


@ext('full', 'ones')
def _full(I, st, a, kw):
    sh = a[0]
    v = a[1] if len(a) > 1 else 1
    if isinstance(sh, int):
        sh = (sh,)
    if isinstance(sh, tuple) and all(isinstance(s, int) for s in sh):
        n = 1
        for s in sh:
            n *= s
        return I.newref(st, MatC(sh, [v] * n))
    return NotImplemented


@ext('eye', 'identity')
def _eye(I, st, a, kw):
    n = a[0]
    if isinstance(n, int):
        return I.newref(st, MatC((n, n), [1 if i == j else 0 for i in range(n) for j in range(n)]))
    return NotImplemented


@ext('add')
def _add(I, st, a, kw):
    if len(a) == 2:
        return binop(I, 'Add', a[0], a[1], st)
    return NotImplemented


@ext('subtract')
def _subtract(I, st, a, kw):
    return binop(I, 'Sub', a[0], a[1], st)


@ext('multiply')
def _multiply(I, st, a, kw):
    return binop(I, 'Mult', a[0], a[1], st)


@ext('divide')
def _divide(I, st, a, kw):
    return binop(I, 'Div', a[0], a[1], st)


@ext('negative')
def _negative(I, st, a, kw):
    return binop(I, 'Mult', -1, a[0], st)


@ext('matmul', 'dot')
def _matmul(I, st, a, kw):
    x, y = as_mat(I, st, a[0]), as_mat(I, st, a[1])
    if x is None or y is None:
        return binop(I, 'Mult', a[0], a[1], st) if x is not None or y is not None or numeric(a[0]) else NotImplemented
    return to_val(I, st, mat_mul(I, st, x, y))


@ext('multi_dot')
def _mdot(I, st, a, kw):
    r = None
    for p in I.parts_of(st, a[0]):
        r = p[1] if r is None else binop(I, 'MatMult', r, p[1], st)
    return r


@ext('inv')
def _inv(I, st, a, kw):
    m = as_mat(I, st, a[0])
    if m is None:
        return NotImplemented
    r = mat_inv(I, st, m)
    if r is None:
        I.do_raise(st, 'LinAlgError', implicit=True)
        raise _I().Dead()
    return to_val(I, st, r)


@ext('pinv')
def _pinv(I, st, a, kw):
    m = as_mat(I, st, a[0])
    if m is None:
        return NotImplemented
    t = nc_term(to_nc(I, st, m))
    return mk('pinv', t, ty=mty(mshape(t.ty)[::-1]))


@ext('det')
def _det(I, st, a, kw):
    m = as_mat(I, st, a[0])
    if isinstance(m, NC):
        m = expand(m)
    if isinstance(m, MatC) and m.shape[0] <= 4:
        return det(m.rows())
    return NotImplemented


@ext('norm')
def _norm(I, st, a, kw):
    m = as_mat(I, st, a[0])
    if isinstance(m, NC):
        m = expand(m)
    if isinstance(m, MatC):
        r = 0
        for x in m.e:
            r = add(r, mul(x, x))
        return power(r, Fraction(1, 2))
    return NotImplemented


@ext('cross')
def _cross(I, st, a, kw):
    x, y = as_mat(I, st, a[0]), as_mat(I, st, a[1])
    if isinstance(x, NC):
        x = expand(x)
    if isinstance(y, NC):
        y = expand(y)
    if isinstance(x, MatC) and isinstance(y, MatC) and len(x.e) == 3 and len(y.e) == 3:
        p, q = x.e, y.e
        return I.newref(st, MatC((3,), [sub(mul(p[1], q[2]), mul(p[2], q[1])), sub(mul(p[2], q[0]), mul(p[0], q[2])), sub(mul(p[0], q[1]), mul(p[1], q[0]))]))
    return NotImplemented


@ext('vstack', 'hstack', 'concatenate', 'column_stack', 'row_stack')
def _stack(I, st, a, kw):
    return NotImplemented


def _stackn(axis):
    def f(I, st, a, kw):
        ps = I.parts_of(st, a[0])
        if not all(p[0] == 'x' for p in ps):
            if axis == 'h' or axis == 'v':
                return I.newref(st, ListC(smap_seq(ps, lambda v: v), 'list')) if False else mk(axis + 'stack', I.fz(a[0], st), ty='list:num')
            return NotImplemented
        ms = []
        for p in ps:
            m = as_mat(I, st, p[1])
            if isinstance(m, NC):
                m = expand(m)
            if not isinstance(m, MatC):
                return mk(axis + 'stack', I.fz(a[0], st), ty='list:num')
            ms.append(m)
        if axis == 'v':
            ms = [m if len(m.shape) == 2 else MatC((1, m.shape[0]), m.e) for m in ms]
            e = []
            for m in ms:
                e += m.e
            return I.newref(st, MatC((sum(m.shape[0] for m in ms), ms[0].shape[1]), e))
        if all(len(m.shape) == 1 for m in ms):
            e = []
            for m in ms:
                e += m.e
            return I.newref(st, MatC((len(e),), e))
        rows = ms[0].shape[0]
        e = []
        for i in range(rows):
            for m in ms:
                e += m.rows()[i]
        return I.newref(st, MatC((rows, len(e) // rows), e))
    return f


EXT['vstack'] = _stackn('v')
EXT['hstack'] = _stackn('h')


@ext('concatenate')
def _concat(I, st, a, kw):
    ax = a[1] if len(a) > 1 else kw.get('axis', 0)
    ps = I.parts_of(st, a[0])
    one = all(p[0] == 'x' for p in ps) and all(isinstance(as_mat(I, st, p[1]), MatC) and len(as_mat(I, st, p[1]).shape) == 1 for p in ps)
    return EXT['hstack' if ax == 1 or one else 'vstack'](I, st, a[:1], {})


@ext('append')
def _append(I, st, a, kw):
    ax = a[2] if len(a) > 2 else kw.get('axis')
    ms = [expand(m) if isinstance(m, NC) else m for m in (as_mat(I, st, x) for x in a[:2])]
    if len(ms) == 2 and all(isinstance(m, MatC) for m in ms):
        if ax is None:
            return I.newref(st, MatC((len(ms[0].e) + len(ms[1].e),), list(ms[0].e) + list(ms[1].e)))
        if ax == 0 and all(len(m.shape) == 2 for m in ms) and ms[0].shape[1] == ms[1].shape[1]:
            return I.newref(st, MatC((ms[0].shape[0] + ms[1].shape[0], ms[0].shape[1]), list(ms[0].e) + list(ms[1].e)))
    return NotImplemented


@ext('insert')
def _insert(I, st, a, kw):
    m = as_mat(I, st, a[0])
    i, v = a[1], a[2]
    ax = a[3] if len(a) > 3 else kw.get('axis')
    if isinstance(m, NC):
        m = expand(m)
    if isinstance(m, MatC) and isinstance(i, int) and as_mat(I, st, v) is None:
        if len(m.shape) == 1 or ax is None:
            e = list(m.e)
            e.insert(i, v)
            return I.newref(st, MatC((len(e),), e))
        rows = m.rows()
        if ax == 0:
            rows.insert(i, [v] * m.shape[1])
        else:
            for r in rows:
                r.insert(i, v)
        return I.newref(st, MatC((len(rows), len(rows[0])), [x for r in rows for x in r]))
    return NotImplemented


@ext('delete')
def _delete(I, st, a, kw):
    m = as_mat(I, st, a[0])
    ax = a[2] if len(a) > 2 else kw.get('axis')
    if isinstance(m, NC):
        m = expand(m)
    idx = a[1]
    if isinstance(idx, Term):
        idx = I.content(st, idx)
        idx = idx.concrete() if isinstance(idx, ListC) else None
    elif isinstance(idx, int):
        idx = [idx]
    if isinstance(m, MatC) and idx is not None and all(isinstance(x, int) for x in idx):
        if len(m.shape) == 1:
            return I.newref(st, MatC((len(m.e) - len(idx),), [x for i, x in enumerate(m.e) if i not in idx]))
        rows = m.rows()
        if ax == 0:
            rows = [r for i, r in enumerate(rows) if i not in idx]
        else:
            rows = [[x for j, x in enumerate(r) if j not in idx] for r in rows]
        return I.newref(st, MatC((len(rows), len(rows[0]) if rows else 0), [x for r in rows for x in r]))
    return NotImplemented


@ext('transpose')
def _transpose(I, st, a, kw):
    m = as_mat(I, st, a[0])
    return to_val(I, st, transpose(m)) if m is not None else NotImplemented


@ext('ix_')
def _ix(I, st, a, kw):
    return mk('ix', *[I.fz(x, st) for x in a])


@ext('diag')
def _diag(I, st, a, kw):
    m = as_mat(I, st, a[0])
    if isinstance(m, MatC) and len(m.shape) == 1:
        n = m.shape[0]
        return I.newref(st, MatC((n, n), [m.e[i] if i == j else 0 for i in range(n) for j in range(n)]))
    if isinstance(m, MatC) and len(m.shape) == 2 and len(a) == 1 and not kw:
        n = min(m.shape)
        return I.newref(st, MatC((n,), [m.e[i*m.shape[1] + i] for i in range(n)]))
    return NotImplemented


@ext('trace')
def _trace(I, st, a, kw):
    m = as_mat(I, st, a[0])
    if isinstance(m, MatC) and len(m.shape) == 2 and len(a) == 1 and not kw:
        r = 0
        for i in range(min(m.shape)):
            r = add(r, m.e[i*m.shape[1] + i])
        return r
    return NotImplemented


@ext('ones_like', 'full_like')
def _full_like(I, st, a, kw):
    m = as_mat(I, st, a[0])
    v = a[1] if len(a) > 1 else 1
    if isinstance(m, MatC) and numeric(v) and not kw:
        return I.newref(st, MatC(m.shape, [v]*len(m.e)))
    return NotImplemented


@ext('inner', 'vdot')
def _inner(I, st, a, kw):
    x, y = as_mat(I, st, a[0]), as_mat(I, st, a[1])
    if isinstance(x, MatC) and isinstance(y, MatC) and len(x.shape) == len(y.shape) == 1 and x.shape == y.shape:
        r = 0
        for p, q in zip(x.e, y.e):
            r = add(r, mul(p, q))
        return r
    return NotImplemented


@ext('square')
def _square(I, st, a, kw):
    return binop(I, 'Mult', a[0], a[0], st)


@ext('hypot')
def _hypot(I, st, a, kw):
    if all(numeric(x) for x in a):
        r = 0
        for x in a:
            r = add(r, mul(x, x))
        return EXT['sqrt'](I, st, [r], {})
    return NotImplemented


@ext('outer')
def _outer(I, st, a, kw):
    x, y = as_mat(I, st, a[0]), as_mat(I, st, a[1])
    if isinstance(x, MatC) and isinstance(y, MatC):
        return I.newref(st, MatC((len(x.e), len(y.e)), [mul(p, q) for p in x.e for q in y.e]))
    return NotImplemented


@ext('linspace')
def _linspace(I, st, a, kw):
    n = a[2] if len(a) > 2 else kw.get('num', 50)
    return mk('linspace', I.fz(a[0], st), I.fz(a[1], st), I.fz(n, st), ty='list:num')


def any_all_nan(o, name):
    t = o.args[0]
    bad = ind('singular', t.args[0]) if t.op == 'solve' else ind('nan', t)
    if (o.op, name) == ('isnan', 'any'):
        return bad
    if (o.op, name) == ('isfinite', 'all'):
        return c_not(bad)
    return ind(name, o)


@ext('isnan', 'isfinite')
def _isnan(I, st, a, kw):
    return NotImplemented


def _mk_isnan(nm):
    def f(I, st, a, kw):
        m = as_mat(I, st, a[0])
        if isinstance(m, NC):
            return mk('%s' % nm, nc_term(m), ty='list:bool')
        if numeric(a[0]):
            r = ind('nan', a[0])
            return r if nm == 'isnan' else c_not(r)
        return NotImplemented
    return f


EXT['isnan'] = _mk_isnan('isnan')
EXT['isfinite'] = _mk_isnan('isfinite')


@ext('spsolve')
def _spsolve(I, st, a, kw):
    # an exactly singular matrix gives nan values and a warning, not an exception
    A, b = as_mat(I, st, a[0]), as_mat(I, st, a[1])
    if A is None or b is None:
        return NotImplemented
    At, bt = nc_term(to_nc(I, st, A)), nc_term(to_nc(I, st, b))
    I.log(st, ('solve', At, bt))
    return mk('solve', At, bt, ty=mty((mshape(bt.ty)[0], 1)))


@ext('solve')
def _solve(I, st, a, kw):
    A, b = as_mat(I, st, a[0]), as_mat(I, st, a[1])
    if A is None or b is None:
        return NotImplemented
    if isinstance(A, MatC):
        # a small system given entry by entry: the explicit inverse
        inv = mat_inv(I, st, A)
        if inv is None:
            I.do_raise(st, 'LinAlgError', implicit=True)
            raise _I().Dead()
        if isinstance(inv, MatC):
            return binop(I, 'MatMult', I.newref(st, inv), a[1], st)
    At, bt = nc_term(to_nc(I, st, A)), nc_term(to_nc(I, st, b))
    if all(isinstance(n, int) for n in mshape(At.ty)):
        # element matrices: the same as multiplying with the inverse
        return binop(I, 'MatMult', EXT['inv'](I, st, [a[0]], {}), a[1], st)
    t = mk('solve', At, bt, ty=mty(mshape(bt.ty)))
    # may fail: singular matrix
    s2 = st.copy()
    c = ind('singular', At)
    s2.assume(c)
    I.do_raise(s2, 'LinAlgError', implicit=True)
    st.assume(c_not(c))
    I.log(st, ('solve', At, bt))
    return t


REBUILD['solve'] = lambda a, ty: mk('solve', *a, ty=ty)
REBUILD['dim'] = lambda a, ty: mk('dim', *a, ty=ty)
