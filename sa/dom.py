"""Structured values of the abstract interpreter: sequences, containers, matrices, sums."""
from .alg import *
from .alg import _add, _mul
from . import alg


class _Missing:
    def __repr__(self):
        return 'MISSING'


MISSING = _Missing()


class FuncV:
    """A function value (function, lambda, bound method)."""
    __slots__ = ('fn', 'self_', 'scope', 'node', 'mod', 'cls', 'dflt')

    def __init__(self, fn=None, self_=None, scope=None, node=None, mod=None, cls=None, dflt=None):
        self.fn, self.self_, self.scope, self.node, self.mod, self.cls = fn, self_, scope, node, mod, cls
        self.dflt = dflt or {}      # default values of a local function: bound when it is defined


class ClassV:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ClassV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'class ' + self.name


class ModV:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class ExtV:
    """A function of an external library (numpy, math, scipy, builtins)."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ext ' + self.name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class MethV:
    """Method of a builtin-typed value (list.append, dict.items, ndarray.T ...)."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SuperV:
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SliceV:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Content:
    """Base class of the contents of mutable containers."""
    __slots__ = ()

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return type(o) is type(self) and o.key() == self.key()


class ListC(Content):
    """Seq: tuple of parts ('x', v) | ('c', cond, seq) | ('f', binder, seq) | ('b', collection term)."""
    __slots__ = ('seq', 'kind')

    def __init__(self, seq=(), kind='list'):
        self.seq, self.kind = tuple(seq), kind

    def key(self):
        return (self.seq, self.kind)

    def kids(self):
        return [self.seq]

    def smap(self, f):
        return ListC(smap_seq(self.seq, f), self.kind)

    def concrete(self):
        if all(p[0] == 'x' for p in self.seq):
            return [p[1] for p in self.seq]
        return None


def smap_seq(seq, f):
    out = []
    for p in seq:
        if p[0] == 'x':
            out.append(('x', f(p[1])))
        elif p[0] == 'c':
            c = f(p[1])
            s = smap_seq(p[2], f)
            c = low(poly(c))
            if c == 1:
                out.extend(s)
            elif c != 0 and s:
                out.append(('c', c, s))
        elif p[0] == 'f':
            out.append(('f', f(p[1]), smap_seq(p[2], f)))
        else:
            b = f(p[1])
            out.append(('b', b))
    return tuple(out)


def norm_seq(seq):
    out = []
    for p in seq:
        if p[0] == 'c':
            c = low(poly(p[1]))
            s = norm_seq(p[2])
            if c == 0 or not s:
                continue
            if c == 1:
                out.extend(s)
                continue
            if len(s) == 1 and s[0][0] == 'c':
                out.append(('c', mul(c, s[0][1]), s[0][2]))
                continue
            out.append(('c', c, s))
        elif p[0] == 'f':
            s = norm_seq(p[2])
            if not s:
                continue
            if s == (('x', p[1]),) and isinstance(p[1], Term) and p[1].op == 'elem':
                out.append(('b', p[1].args[0]))
                continue
            out.append(('f', p[1], s))
        else:
            out.append(p)
    # merge adjacent conditionals with complementary guards and equal content
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if a[0] == 'c' and b[0] == 'c' and a[2] == b[2] and low(poly(mul(a[1], b[1]))) == 0:
            out[i:i + 2] = norm_seq((('c', add(a[1], b[1]), a[2]),))
            continue
        i += 1
    return tuple(out)


def merge_seq(c, a, b):
    """Sequence equal to a if c else b."""
    if a == b:
        return a
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    ra, rb = a[n:], b[n:]
    if len(ra) == len(rb) and ra and all(x[0] == 'x' and y[0] == 'x' for x, y in zip(ra, rb)):
        return norm_seq(a[:n] + tuple(('x', phi(c, x[1], y[1])) for x, y in zip(ra, rb)))
    return norm_seq(a[:n] + (('c', c, ra), ('c', c_not(c), rb)))


class DictC(Content):
    """base/complex parts (a Seq of ('set',k,v) records) overlaid by definite writes `top`."""
    __slots__ = ('parts', 'top')

    def __init__(self, parts=(), top=()):
        self.parts, self.top = tuple(parts), tuple(top)   # top: tuple of (key, value)

    def key(self):
        return (self.parts, frozenset(self.top) if True else self.top)

    def kids(self):
        return [self.parts, self.top]

    def smap(self, f):
        return DictC(smap_seq(self.parts, f), tuple((f(k), v if v is MISSING else f(v)) for k, v in self.top))

    def with_set(self, k, v):
        return DictC(self.parts, tuple(x for x in self.top if not same(x[0], k)) + ((k, v),))

    def flushed(self):
        return self.parts + tuple(('x', ('set', k, v)) for k, v in self.top)


def dict_get(d, key):
    """Value at key (MISSING if known absent)."""
    r = None
    stack = []
    for k, v in reversed(d.top):
        e = c_eq(k, key)
        if e is True or e == 1:
            stack.append((1, v))
            break
        if e is False or e == 0:
            continue
        stack.append((e, v))
    if stack and stack[-1][0] == 1:
        r = stack.pop()[1]
    else:
        r = seq_get(d.parts, key)
    for e, v in reversed(stack):
        r = phi(e, v, r)
    return r


def seq_get(parts, key, rest=MISSING):
    r = rest
    for p in parts:
        if p[0] == 'b':
            r = mk_item(p[1], key)
        elif p[0] == 'x':
            _, k, v = p[1]
            r = phi(c_eq(k, key), v, r)
        elif p[0] == 'c':
            r = phi(p[1], seq_get(p[2], key, r), r)
        elif p[0] == 'f':
            s = p[2]
            hit = None
            cc = 1
            while len(s) == 1 and s[0][0] == 'c':
                cc = alg.c_and(cc, s[0][1])
                s = s[0][2]
            if len(s) == 1 and s[0][0] == 'x' and isinstance(s[0][1], tuple) and s[0][1][0] == 'set':
                _, k, v = s[0][1]
                hit = match_key(p[1], k, key)
                if hit is not None:
                    t, cond = hit
                    vv = subst(v, {p[1]: t})
                    cond = alg.c_and(cond, subst(cc, {p[1]: t})) if not (isnum(cc) and cc == 1) else cond
                    r = vv if isnum(cond) and cond == 1 else phi(cond, vv, r)
            s = p[2]
            if hit is None:
                r = mk('dget', p[1], _freeze(s), key, _h2(r))
    return r


def _h2(v):
    return v


def _freeze(s):
    return s


def match_key(B, k, key):
    """Solve k(B) == key for B: returns (value for B, guard)."""
    coll = B.args[0]
    if k is B:
        return key, (1 if isinstance(key, Term) and key.op in ('elem', 'key') and key.args[0] is coll else ind('in', key, coll))
    if isinstance(k, Term) and k.op == 'attr' and k.args[1] == 'name' and k.args[0] is B:
        it = mk_item(coll, key)
        return it, (1 if isinstance(it, Term) and it.op in ('elem', 'first') else ind('in', key, coll))
    return None


def merge_dict(c, a, b):
    if a == b:
        return a
    if a.parts == b.parts:
        keys = []
        for k, _ in a.top + b.top:
            if not any(same(k, x) for x in keys):
                keys.append(k)
        top = []
        for k in keys:
            va, vb = dict_get(a, k), dict_get(b, k)
            top.append((k, phi(c, va, vb)))
        return DictC(a.parts, tuple(top))
    pa, pb = a.flushed(), b.flushed()
    return DictC(merge_seq(c, pa, pb))


class MatC(Content):
    """Concrete-shape array."""
    __slots__ = ('shape', 'e')

    def __init__(self, shape, e):
        self.shape, self.e = tuple(shape), tuple(e)

    def key(self):
        return (self.shape, self.e)

    def kids(self):
        return [self.e]

    def smap(self, f):
        return MatC(self.shape, [f(x) for x in self.e])

    def at(self, *i):
        if len(self.shape) == 1:
            return self.e[i[0]]
        return self.e[i[0] * self.shape[1] + i[1]]

    def rows(self):
        r, c = self.shape
        return [list(self.e[i * c:(i + 1) * c]) for i in range(r)]


class ScatC(Content):
    """Symbolic-shape array: shape terms and a formal sum of value*E(index...)."""
    __slots__ = ('shape', 'p')

    def __init__(self, shape, p=0):
        self.shape, self.p = tuple(shape), p

    def key(self):
        return (self.shape, self.p)

    def kids(self):
        return [self.shape, self.p]

    def smap(self, f):
        return ScatC(tuple(f(x) for x in self.shape), f(self.p))


class ObjDead(Exception):
    pass


# ---------------------------------------------------------------- noncommutative matrices
class NC:
    """Formal sum of scalar * product of opaque matrices."""
    __slots__ = ('t', 'shape')

    def __init__(self, t, shape):
        self.t = {k: v for k, v in t.items() if not (isnum(v) and v == 0)}
        self.shape = shape

    def term(self):
        """As a hash-consed Term usable inside other terms."""
        if len(self.t) == 1:
            (w, c), = self.t.items()
            if len(w) == 1 and c == 1:
                return w[0]
        return mk('mx', frozenset(self.t.items()), self.shape, ty=mty(self.shape))


def mty(shape):
    return 'mat:' + ','.join(str(s) if isinstance(s, int) else 'N' for s in shape)


def mshape(ty):
    return tuple(int(s) if s != 'N' else 'N' for s in ty[4:].split(','))


def ismat(v):
    return isinstance(v, Term) and isinstance(v.ty, str) and v.ty.startswith('mat:')


def nc_of(t):
    """Term -> NC"""
    if isinstance(t, Term) and t.op == 'mx':
        return NC(dict(t.args[0]), t.args[1])
    if isinstance(t, Term) and t.op == 'mzero':
        return NC({}, t.args[0])
    return NC({(t,): 1}, mshape(t.ty))


def nc_term(n):
    if not n.t:
        return mk('mzero', n.shape, ty=mty(n.shape))
    return n.term()


def nc_add(a, b, k=1):
    t = dict(a.t)
    for w, c in b.t.items():
        t[w] = add(t.get(w, 0), mul(k, c))
    sh = a.shape if 'N' not in a.shape else b.shape
    return NC(t, sh)


def nc_scale(a, k):
    return NC({w: mul(k, c) for w, c in a.t.items()}, a.shape)


def is_eye(t):
    return isinstance(t, Term) and t.op == 'eye'


def nc_mul(a, b):
    t = {}
    for w1, c1 in a.t.items():
        for w2, c2 in b.t.items():
            w = list(w1)
            for x in w2:
                if w and (is_inv(w[-1], x)):
                    w.pop()
                    if not w:
                        w = [mk('eye', ty=x.ty)]
                    continue
                if is_eye(x) and w:
                    continue
                if w and is_eye(w[-1]):
                    w.pop()
                w.append(x)
            w = tuple(w)
            t[w] = add(t.get(w, 0), mul(c1, c2))
    sh = (a.shape[0],) + ((b.shape[1],) if len(b.shape) > 1 else ())
    return NC(t, sh)


ORTHO = set()     # names of opaque calls known to be orthogonal


def is_inv(a, b):
    return m_inv(a) is b or m_inv(b) is a


def m_T(t):
    if t.op == 'mT':
        return t.args[0]
    if t.op in ('eye',):
        return t
    if t.op == 'call' and t.args[0] in SYMM:
        return t
    if t.op == 'minv' and t.args[0].op == 'call' and t.args[0].args[0] in SYMM:
        return t
    s = mshape(t.ty)
    return mk('mT', t, ty=mty(s[::-1]))


SYMM = set()


def m_inv(t):
    if t.op == 'minv':
        return t.args[0]
    if t.op == 'eye':
        return t
    if t.op == 'call' and t.args[0] in ORTHO:
        return m_T(t)
    if t.op == 'mT' and t.args[0].op == 'call' and t.args[0].args[0] in ORTHO:
        return t.args[0]
    return mk('minv', t, ty=t.ty)


def nc_T(a):
    return NC({tuple(m_T(x) for x in reversed(w)): c for w, c in a.t.items()}, a.shape[::-1])


def nc_inv(a):
    if len(a.t) == 1:
        (w, c), = a.t.items()
        return NC({tuple(m_inv(x) for x in reversed(w)): div(1, c)}, a.shape)
    t = nc_term(a)
    return NC({(mk('minv', t, ty=t.ty),): 1}, a.shape)


def mat_term(m):
    """Freeze a MatC as a Term so it can be used inside words."""
    return mk('mat', m.shape, m.e, ty=mty(m.shape))


def _re_mx(args, ty):
    d, shape = args
    r = NC({}, shape)
    for w, c in d:
        q = None
        for x in w:
            if isinstance(x, Term) and (ismat(x)):
                n = nc_of(x)
            else:
                n = NC({(x,): 1}, shape)
            q = n if q is None else nc_mul(q, n)
        r = nc_add(r, nc_scale(q, c))
    return nc_term(r)


REBUILD['mx'] = _re_mx
REBUILD['minv'] = lambda a, ty: nc_term(nc_inv(nc_of(a[0]))) if ismat(a[0]) else mk('minv', *a, ty=ty)
REBUILD['mT'] = lambda a, ty: nc_term(nc_T(nc_of(a[0]))) if ismat(a[0]) else mk('mT', *a, ty=ty)


# ---------------------------------------------------------------- collections
TYPES = {}


def ctype(t):
    """element type of a collection Term"""
    ty = t.ty or ''
    if ty.startswith('dict:') or ty.startswith('list:'):
        return ty[5:]
    return None


NAMED = set()


def mk_elem(coll, depth=0):
    ty = coll.ty or ''
    if coll.op == 'range':
        return mk('elem', coll, depth, ty='num')
    if ty.startswith('dict:'):
        et = ty[5:]
        if et in NAMED:
            return mk('elem', coll, depth, ty=et)
        return mk('key', coll, depth, ty='str')
    return mk('elem', coll, depth, ty=ctype(coll))


def mk_item(d, k):
    """d[k] for a symbolic container"""
    et = ctype(d)
    if isinstance(k, Term) and k.op == 'idx' and isinstance(k.args[0], Term) and k.args[0].op == 'elem' and k.args[0].args[0] is d:
        return k.args[0]        # the element at its own position
    if isinstance(k, Term) and k.op == 'attr' and k.args[1] == 'name':
        o = k.args[0]
        if isinstance(o, Term) and et is not None and (o.ty == et or (o.op == 'elem' and o.args[0] is d)):
            return o
    if isinstance(k, Phi):
        r = NIL
        for w, x in k.alts:
            v = mk_item(d, x)
            r = v if r is NIL else phi(w, v, r)
        return None if r is NIL else r
    if d.ty in RECS and isinstance(k, int):
        tys = RECS[d.ty]
        if -len(tys) <= k < len(tys):
            return mk('item', d, k % len(tys), ty=tys[k])
    return mk('item', d, k, ty=et)


RECS = {}
REBUILD['item'] = lambda a, ty: mk_item(a[0], a[1]) if isinstance(a[0], Term) else (
    a[0][a[1]] if isinstance(a[0], tuple) and isinstance(a[1], int) else mk('item', *a, ty=ty))
REBUILD['elem'] = lambda a, ty: mk_elem(*a) if isinstance(a[0], Term) else mk('elem', *a, ty=ty)


def mk_attr(o, a, ty=None):
    return mk('attr', o, a, ty=ty)


def _re_attr(args, ty):
    o, a = args
    if isinstance(o, Phi):
        r = NIL
        for w, x in o.alts:
            v = _re_attr((x, a), ty)
            r = v if r is NIL else phi(w, v, r)
        return None if r is NIL else r
    return mk('attr', o, a, ty=ty)


REBUILD['attr'] = _re_attr


def _re_at(args, ty):
    m = args[0]
    if isinstance(m, MatC):
        try:
            return m.at(*args[1:])
        except Exception:
            pass
    if isinstance(m, Term) and m.op == 'mat':
        return MatC(m.args[0], m.args[1]).at(*args[1:])
    return mk('at', *args, ty='num')


REBUILD['at'] = _re_at


# ---------------------------------------------------------------- sums over collections
def binder(t):
    return isinstance(t, Term) and t.op in ('elem', 'key')


def mk_sum(Bs, p):
    """Sum of p over the binders Bs (iterable of binder Terms), in normal form."""
    p = poly(p)
    Bs = frozenset(Bs)
    out = 0
    for m, c in p.t.items():
        out = add(out, _sum_mono(Bs, m, c))
    return out


def _sum_mono(Bs, m, c):
    dep, indep = {}, {}
    todo = dict(m)
    bs = set(Bs)
    # binders whose collection depends on another binder stay together
    for a, e in todo.items():
        at = atoms_of(a)
        if at & bs:
            dep[a] = e
        else:
            indep[a] = e
    # flatten nested sums
    for a in list(dep):
        if a.op == 'sum' and dep[a] == 1:
            e = dep.pop(a)
            inner_b, body = a.args
            clash = inner_b & bs
            rest = Poly({frozenset(dep.items()): c})
            if clash:
                mm = {}
                for b in clash:
                    k = 1
                    while True:
                        nb = fresh_binder(b, k)
                        if nb not in bs and nb not in inner_b and not any(nb in atoms_of(x) for x in list(dep) + [body]):
                            break
                        k += 1
                    mm[b] = nb
                body = subst(body, mm)
                inner_b = frozenset(mm.get(b, b) for b in inner_b)
            q = _mul(rest, poly(body))
            r = mk_sum(bs | inner_b, low(q))
            return mul(Poly({frozenset(indep.items()): 1}), r)
    # binder elimination through an equality indicator
    for a in list(dep):
        if a.op != 'ind' or a.args[0] not in ('same', 'is'):
            continue
        x, y = a.args[1], a.args[2]
        for u, v in ((x, y), (y, x)):
            if not isinstance(u, Term):
                continue
            for b in bs:
                if b in atoms_of(v) or b not in atoms_of(u):
                    continue
                hit = match_key(b, u, v)
                if hit is None:
                    continue
                if any(o is not b and b in atoms_of(o.args[0]) for o in bs):
                    continue
                t, g = hit
                d2 = dict(dep)
                d2.pop(a)
                body = subst(Poly({frozenset(d2.items()): c}), {b: t})
                body = mul(body, g)
                nb = bs - {b}
                r = mk_sum(nb, body) if nb else body
                return mul(Poly({frozenset(indep.items()): 1}), r)
    # binders not occurring in the body: a count
    used = set()
    for a in dep:
        used |= atoms_of(a) & bs
    changed = True
    while changed:
        changed = False
        for b in list(used):
            for o in bs:
                if o not in used and o in atoms_of(b.args[0]):
                    used.add(o)
                    changed = True
    r = Poly({frozenset(indep.items()): c})
    for b in bs - used:
        # nested dependence: collection of b depends on used binder
        if atoms_of(b.args[0]) & bs:
            used.add(b)
            continue
        r = _mul(r, poly(mk_len(b.args[0])))
    if used:
        body = low(Poly({frozenset(dep.items()): 1}))
        t = mk('sum', *canon_binders(frozenset(used), body), ty='num')
        r = _mul(r, poly(t))
    return low(r)


def fresh_binder(b, k):
    return mk(b.op, b.args[0], k, ty=b.ty)


def canon_binders(bs, body):
    """Renumber binders over the same collection to the smallest depths (only when unambiguous)."""
    groups = {}
    for b in bs:
        groups.setdefault(b.args[0], []).append(b)
    m = {}
    at = None
    for coll, l in groups.items():
        l.sort(key=lambda b: b.args[1])
        for i, b in enumerate(l):
            if b.args[1] != i:
                nb = fresh_binder(b, i)
                if at is None:
                    at = atoms_of(body)
                if nb in bs or nb in at:
                    continue
                m[b] = nb
    if m:
        body = subst(body, m)
        bs = frozenset(subst(b, m) for b in bs)
        return canon_binders(bs, body) if any(atoms_of(b.args[0]) & set(m) for b in bs) else (bs, body)
    return bs, body


def mk_len(coll):
    if coll.op == 'range' and coll.args[0] == 0 and coll.args[2] == 1:
        return coll.args[1]
    return mk('len', coll, ty='num')


def _re_sum(args, ty):
    bs, body = args
    if all(binder(b) for b in bs):
        return mk_sum(bs, body)
    # a binder was substituted by a concrete value: just the body
    nb = frozenset(b for b in bs if binder(b))
    return mk_sum(nb, body) if nb else body


REBUILD['sum'] = _re_sum
REBUILD['len'] = lambda a, ty: mk_len(a[0]) if isinstance(a[0], Term) else mk('len', *a, ty='num')


def exists(B, c):
    """Condition: some element B satisfies c."""
    c = low(poly(c))
    if c == 0:
        return 0
    if B not in atoms_of(c):
        return mul(c, nonempty(B.args[0]))
    p = poly(c)
    if len(p.t) == 1:
        # pull independent factors out
        (m, k), = p.t.items()
        if k == 1:
            dep = frozenset((a, e) for a, e in m if B in atoms_of(a))
            ind_ = frozenset((a, e) for a, e in m if B not in atoms_of(a))
            # a membership test written as a loop
            if len(dep) == 1:
                (a, e), = dep
                if a.op == 'ind' and a.args[0] == 'in' and a.args[1] is B and B not in atoms_of(a.args[2]) and B.op == 'elem':
                    # two collections have a common element: symmetric
                    x, y = B.args[0], a.args[2]
                    if isinstance(y, Term) and isinstance(x, Term) and repr(y) < repr(x):
                        B2 = mk_elem(y, 1)
                        return mul(low(Poly({ind_: 1})), ind('exists', B2, ind('in', B2, x)))
                    if B is not mk_elem(x, 1):
                        B2 = mk_elem(x, 1)
                        return mul(low(Poly({ind_: 1})), ind('exists', B2, ind('in', B2, y)))
                if a.op == 'ind' and a.args[0] in ('same', 'is'):
                    for u, v in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                        if isinstance(u, Term) and B in atoms_of(u) and B not in atoms_of(v):
                            h = match_key(B, u, v)
                            if h is not None:
                                return mul(low(Poly({ind_: 1})), h[1])
            return mul(low(Poly({ind_: 1})), ind('exists', B, low(Poly({dep: 1}))))
    return ind('exists', B, c)


def nonempty(coll):
    if coll.op == 'range':
        return c_lt(coll.args[0], coll.args[1])
    return ind('truthy', coll)


def _at_least_one(t):
    if t.op == 'len':
        return nonempty(t.args[0])
    bs, body = t.args
    if not alg._isbool(poly(body)):
        return None
    left = sorted(bs, key=repr)
    while left:
        b = next((x for x in left if not any(x in atoms_of(y) for y in left if y is not x)), None)
        if b is None or b.op != 'elem':
            return None
        left.remove(b)
        body = exists(b, body)
    return body


alg.NONEMPTY[0] = _at_least_one
