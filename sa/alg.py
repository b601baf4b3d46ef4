"""Value domain of the analysis: hash-consed terms and polynomial normal forms.

Everything the abstract interpreter computes is one of
  * a Python constant (int, Fraction, str, bool, None),
  * a Term  - a hash-consed symbolic atom, e.g. attr(elem(nodes), 'ID'),
  * a Poly  - a polynomial with rational coefficients over Terms (exponents may be
              negative or fractional).  Conditions are polynomials too: an `ind` Term is a
              0/1 indicator, `and` is the product, `not c` is 1-c, so that two ways of
              writing the same guard have the same normal form.
No values are ever sampled and no solver is called: equality is identity of normal forms.
"""
from fractions import Fraction

_table = {}


class Term:
    __slots__ = ('op', 'args', 'ty', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


def mk(op, *args, ty=None):
    key = (op, args, tuple(type(a) if isinstance(a, (bool, int, float)) else None for a in args))
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.ty, t.id = op, args, ty, len(_table)
        _table[key] = t
    elif ty is not None and t.ty is None:
        t.ty = ty
    return t


def is_ind(t):
    return isinstance(t, Term) and t.op == 'ind'


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        return show(self)


ONE = frozenset()


def isnum(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def frac(v):
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('float', repr(v))
        v = Fraction(repr(v))
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def poly(v):
    """Coerce to Poly."""
    if isinstance(v, Poly):
        return v
    if isinstance(v, bool):
        return Poly({ONE: 1} if v else {})
    if isinstance(v, float):
        v = frac(v)
    if isinstance(v, (int, Fraction)):
        return Poly({ONE: v} if v != 0 else {})
    if isinstance(v, Term):
        if v.ty == 'bool' and v.op != 'ind':
            v = ind('truthy', v)       # a boolean in arithmetic is its indicator
        return Poly({frozenset(((v, 1),)): 1})
    if isinstance(v, Phi):
        r = Poly({})
        for c, x in v.alts:
            r = _add(r, _mul(poly(c), poly(x)))
        return r
    raise TypeError('not numeric: %r' % (v,))


def low(p):
    """Lower a Poly to a constant / Term when it is one."""
    if not isinstance(p, Poly):
        return p
    if not p.t:
        return 0
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not m:
            return frac(c)
        if c == 1 and len(m) == 1:
            (a, e), = m
            if e == 1:
                return a
    return p


def _add(p, q, k=1):
    r = dict(p.t)
    for m, c in q.t.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return Poly(r)


CORNERS = ('i_node', 'j_node', 'm_node', 'n_node')


def _excl(a, b):
    """Mutually exclusive indicators?"""
    x, y = a.args, b.args
    if x[0] == 'is' and y[0] == 'is' and x[1] is y[1] and not (x[2] == y[2] and type(x[2]) is type(y[2])):
        return True
    if x[0] == 'lt' and y[0] == 'lt':
        return low(neg(x[1])) == y[1]
    if x[0] == 'lt' and y[0] == 'zero' or x[0] == 'zero' and y[0] == 'lt':
        p = x[1]
        q = y[1]
        return p == q or low(neg(p)) == q
    if x[0] == 'same' and y[0] == 'same':
        # two different corner nodes of one element are different nodes
        for i in (1, 2):
            for j in (1, 2):
                if x[i] is y[j]:
                    u, v = x[3 - i], y[3 - j]
                    if (isinstance(u, Term) and isinstance(v, Term) and u.op == v.op == 'attr' and u.args[0] is v.args[0]
                            and u.args[1] != v.args[1] and u.args[1] in CORNERS and v.args[1] in CORNERS):
                        return True
        return False
    if x[0] == 'truthy' and y[0] == 'is' and y[1] is x[1] and y[2] in (None, False, 0, ''):
        return True
    if y[0] == 'truthy' and x[0] == 'is' and x[1] is y[1] and x[2] in (None, False, 0, ''):
        return True
    return False


_mmcache = {}


def _mulmono(m1, m2):
    """Product of two monomials: returns (list of (mono, coef)) usually of length 1."""
    if not m1:
        return ((m2, 1),)
    if not m2:
        return ((m1, 1),)
    key = (m1, m2)
    r = _mmcache.get(key)
    if r is not None:
        return r
    r = _mulmono0(m1, m2)
    if len(_mmcache) > 400000:
        _mmcache.clear()
    _mmcache[key] = r
    return r


def _mulmono0(m1, m2):
    d = dict(m1)
    expand = []
    for a, e in m2:
        if a.op == 'ind':
            if a in d:
                continue
            for b in d:
                if b.op == 'ind' and _excl(a, b):
                    return ()
            d[a] = 1
            continue
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
            if a.op == 'P' and (n >= 1 or _cbase(a)):
                expand.append(a)
    out = None
    for a in expand:
        e = d.get(a)
        if e is None:
            continue
        if _cbase(a):
            k = e.__floor__()
            if k != 0:
                rest = e - k
                if rest == 0:
                    d.pop(a)
                else:
                    d[a] = rest
                f = Poly({ONE: Fraction(_cbase(a)) ** k})
                out = f if out is None else _mul(out, f)
            continue
        k = int(e) if e > 0 else 0
        if k >= 1:
            rest = e - k
            if rest == 0:
                d.pop(a)
            else:
                d[a] = rest
            f = a.args[0]
            for _ in range(k):
                out = f if out is None else _mul(out, f)
    base = Poly({frozenset(d.items()): 1})
    if out is not None:
        base = _mul(base, out)
    return tuple(base.t.items())


_DL = [None]


class Deadline(BaseException):
    """The analysis budget of one group of obligations is used up (they stay undecided)."""


_WD = {'lock': None, 'tid': None}


def deadline(t):
    """Limit in absolute time; also enforced by a watchdog thread, for steps that never reach _tick."""
    import ctypes, threading, time
    if _WD['lock'] is None:
        _WD['lock'] = threading.Lock()

        def watch():
            while True:
                time.sleep(0.5)
                with _WD['lock']:
                    if _DL[0] is not None and time.time() > _DL[0] + 0.5:
                        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(_WD['tid']), ctypes.py_object(Deadline))
                        _DL[0] += 2
        threading.Thread(target=watch, daemon=True).start()
    with _WD['lock']:
        if t is None and _WD['tid'] is not None:
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(_WD['tid']), None)
        _DL[0], _WD['tid'] = t, threading.get_ident()


def _tick():
    import time
    if _DL[0] is not None and time.time() > _DL[0]:
        raise Deadline('time budget exceeded')


def _mul(p, q):
    if len(p.t) > len(q.t):
        p, q = q, p
    if len(p.t) > 8:
        _tick()
    r = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            for m, k in _mulmono(m1, m2):
                v = r.get(m, 0) + c1 * c2 * k
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
    return Poly(r)


def add(a, b):
    return low(_add(poly(a), poly(b)))


def sub(a, b):
    return low(_add(poly(a), poly(b), -1))


def neg(a):
    return low(_add(Poly({}), poly(a), -1))


def mul(a, b):
    return low(_mul(poly(a), poly(b)))


def content(p):
    """Leading rational content of a Poly (a positive number)."""
    from math import gcd
    n, d = 0, 1
    for c in p.t.values():
        c = Fraction(c)
        n = gcd(n, abs(c.numerator))
        d = d * c.denominator // gcd(d, c.denominator)
    return Fraction(n, d) if n else Fraction(1)


def _lead(p):
    """A deterministic sign for p: sign of the coefficient of the smallest monomial by id."""
    k = min(p.t, key=lambda m: (len(m), sorted((a.id, e) for a, e in m)))
    return 1 if p.t[k] > 0 else -1


def scale(p, k):
    return Poly({m: c * k for m, c in p.t.items()})


def _isqrt(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None


def _pos(a):
    """Symbols declared positive by a rule (their name starts with '+')."""
    return a.op == 'sym' and isinstance(a.args[0], str) and (a.args[0].startswith('+') or a.args[0] == 'pi')


def _nonneg(a):
    return _pos(a) or a.op == 'P' and isinstance(a.args[0], Poly) and any(_pos(x) for m in a.args[0].t for x, _ in m) and all(
        c > 0 and all(_pos(x) or isinstance(k, int) and k % 2 == 0 for x, k in m) for m, c in a.args[0].t.items())


def _length(a, k):
    """Square root of a sum of squares: a length, taken as not zero."""
    return a.op == 'P' and isinstance(k, Fraction) and k.denominator == 2 and isinstance(a.args[0], Poly) and all(
        c > 0 and all(_pos(x) or isinstance(e, int) and e % 2 == 0 for x, e in m) for m, c in a.args[0].t.items())


def _strip(p):
    """p without the positive factors common to all of its terms."""
    common = None
    for m in p.t:
        d = {a: k for a, k in m if _pos(a) or _length(a, k)}
        if common is None:
            common = d
        else:
            common = {a: min(k, d[a]) for a, k in common.items() if a in d and (_pos(a) or k == d[a])}
        if not common:
            return p
    return _fixP(Poly({frozenset((a, k2) for a, k2 in ((a, frac(Fraction(k) - Fraction(common.get(a, 0)))) for a, k in m) if k2): c for m, c in p.t.items()}))


PI = Fraction(314159265358979323846264338327950288419716939937510, 10 ** 50)


def const_value(v):
    """The value of an expression in numbers and pi alone (None otherwise)."""
    if isnum(v):
        return v
    if not isinstance(v, (Poly, Term)):
        return None
    r = Fraction(0)
    for m, c in poly(v).t.items():
        for a, k in m:
            if not (isinstance(a, Term) and a.op == 'sym' and a.args == ('pi',)) or not isinstance(k, int) and Fraction(k).denominator != 1:
                return None
            c = c * PI ** int(k)
        r += c
    return r


def _sign(p):
    """1 / -1 when every term of p has that sign for positive symbols."""
    v = const_value(p) if len(p.t) > 1 else None
    if v is not None:
        return (v > 0) - (v < 0)
    sg = 0
    for m, c in p.t.items():
        if not all(_pos(a) or _length(a, k) for a, k in m):
            return 0
        t = 1 if c > 0 else -1
        if sg and t != sg:
            return 0
        sg = t
    return sg


def power(a, e):
    e = frac(e)
    if not isnum(e):
        return mk('pow', a if not isinstance(a, Poly) else a, e, ty='num')
    a = low(poly(a))
    if isnum(e) and e == 0:
        return 1
    if isnum(a):
        if isinstance(e, int):
            if a == 0 and e < 0:
                return mk('divzero')
            return frac(Fraction(a) ** e)
        if a == 0:
            return 0
        if e.denominator == 2 and a > 0:
            n, d = Fraction(a).numerator, Fraction(a).denominator
            rn, rd = _isqrt(n), _isqrt(d)
            if rn and rd:
                return frac(Fraction(rn, rd) ** int(e * 2))
            # sqrt(n/d) = sqrt(n*d)/d
            at = mk('P', Poly({ONE: n * d}))
            half = Poly({frozenset(((at, Fraction(1, 2)),)): Fraction(1, d)})
            k = int(e * 2)
            r = Poly({ONE: 1})
            for _ in range(abs(k)):
                r = _mul(r, half)
            if k < 0:
                r = poly(power(low(r), -1))
            return low(r)
        return mk('pow', a, e, ty='num')
    p = poly(a)
    if len(p.t) == 1 and e.denominator == 2:
        (m, c), = p.t.items()
        if c > 0 and m and all(_pos(x) for x, _ in m):
            return low(_mul(poly(power(frac(c), e)), Poly({frozenset((x, frac(Fraction(k) * e)) for x, k in m): 1})))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if isinstance(e, int) or (c > 0 and all((x * e).denominator in (1, 2) if not isinstance(x * e, int) else True for _, x in m)):
            cc = power(frac(c), e)
            if any(x.op == 'ind' for x, _ in m) and e < 0:
                pass
            elif isinstance(e, int) or len(m) == 1 and all(x.op == 'P' for x, _ in m):
                r = poly(cc)
                mm = Poly({ONE: 1})
                for x, k in m:
                    mm = _mul(mm, Poly({frozenset(((x, frac(Fraction(k) * e) if x.op != 'ind' else 1),)): 1}))
                    # normalise positive integer powers of P atoms
                if any(x.op == 'P' for x, _ in m):
                    mm = _mul(mm, Poly({ONE: 1}))
                    mm = _fixP(mm)
                return low(_mul(r, mm))
    if isinstance(e, int) and e > 0:
        r = Poly({ONE: 1})
        for _ in range(e):
            r = _mul(r, p)
        return low(r)
    c = content(p)
    if isinstance(e, int):  # negative
        s = _lead(p)
        q = scale(p, Fraction(s) / c)
        at = mk('P', q, ty='num')
        coef = Fraction(s) ** (-e) / (c ** (-e))
        return low(Poly({frozenset(((at, e),)): coef}))
    # fractional
    if e.denominator == 2:
        # factors that cannot be negative come out of the root
        common = None
        for m in p.t:
            d = dict(m)
            common = d if common is None else {x: min(common.get(x, 0), d.get(x, 0)) for x in set(common) | set(d)}
        common = {x: k for x, k in common.items() if k and _nonneg(x)}
        if common:
            rest = _fixP(_mul(p, Poly({frozenset((x, -k) for x, k in common.items()): 1})))
            out = Poly({frozenset((x, frac(Fraction(k) * e)) for x, k in common.items()): 1})
            return _fixlow(_mul(poly(power(low(rest), e)), out))
    cc = power(frac(c), e)
    if isinstance(cc, (int, Fraction)):
        q = scale(p, 1 / c)
        at = mk('P', q, ty='num')
        return _fixlow(Poly({frozenset(((at, e),)): cc}))
    at = mk('P', p, ty='num')
    return _fixlow(Poly({frozenset(((at, e),)): 1}))


def _cbase(a):
    t = a.args[0].t if isinstance(a.args[0], Poly) else None
    if t is not None and len(t) == 1 and ONE in t:
        return t[ONE]
    return None


def _fixP(p):
    r = Poly({})
    for m, c in p.t.items():
        q = Poly({ONE: c})
        for a, e in m:
            if a.op == 'P' and _cbase(a):
                k = e.__floor__()
                q = scale(q, Fraction(_cbase(a)) ** k)
                if e - k:
                    q = _mul(q, Poly({frozenset(((a, e - k),)): 1}))
            elif a.op == 'P' and e >= 1:
                k = int(e)
                for _ in range(k):
                    q = _mul(q, a.args[0])
                if e - k:
                    q = _mul(q, Poly({frozenset(((a, e - k),)): 1}))
            else:
                q = _mul(q, Poly({frozenset(((a, e),)): 1}))
        r = _add(r, q)
    return r


def _fixlow(p):
    return low(_fixP(p))


def div(a, b):
    b = low(poly(b))
    if isnum(b) and b == 0:
        return mk('divzero')
    return mul(a, power(b, -1))


def is_zero(p, depth=0):
    """Exact zero test modulo the inverse atoms P(q)^-k: clears denominators."""
    p = poly(p)
    if not p.t:
        return True
    if depth > 40:
        return False
    atoms = {}
    for m in p.t:
        for a, e in m:
            if a.op == 'P' and e < 0:
                atoms[a] = min(atoms.get(a, 0), e)
    for a, e in atoms.items():
        n = -e
        k = int(n) if n == int(n) else int(n) + 1
        f = Poly({frozenset(((a, frac(Fraction(k))),)): 1})
        # multiply by a^k; positive integer powers are expanded
        r = {}
        tot = Poly({})
        for m, c in p.t.items():
            tot = _add(tot, _fixP(_mul(Poly({m: c}), f)))
        return is_zero(tot, depth + 1)
    return False


def equal(a, b):
    if a is b:
        return True
    try:
        return is_zero(_add(poly(a), poly(b), -1))
    except TypeError:
        return a == b


# ---------------------------------------------------------------- Phi (non numeric choice)
class Phi:
    """A choice between values under disjoint, covering conditions."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __hash__(self):
        return hash(frozenset(self.alts))

    def __eq__(self, o):
        return isinstance(o, Phi) and frozenset(self.alts) == frozenset(o.alts)

    def __repr__(self):
        return show(self)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        if isnum(a) and isnum(b):
            return a == b
        return False
    try:
        return a == b
    except Exception:
        return False


def numeric(v):
    return isnum(v) or isinstance(v, (Poly, bool)) or (isinstance(v, Term) and (v.ty in ('num', 'bool') or v.op in ('ind', 'P')))


def _isboolish(v):
    return isinstance(v, bool) or is_ind(v) or isinstance(v, Poly) and _isbool(v)


def _as_maxmin(c, a, b):
    """a if c else b recognised as min(a,b) / max(a,b)."""
    flip = False
    if not is_ind(c):
        c = low(poly(sub(1, c)))
        if not is_ind(c):
            return None
        a, b = b, a
    if c.args[0] != 'lt':
        return None
    d = low(_add(poly(a), poly(b), -1))
    if isnum(d):
        return None
    p = poly(d)
    q = low(scale(p, 1 / content(p)))
    f = MAXMIN.get('f')
    if f is None:
        return None
    if q == c.args[1]:
        return f('min', [a, b])
    if low(neg(q)) == c.args[1]:
        return f('max', [a, b])
    return None


NIL = object()      # 'no value yet' (None is a value of the analysed program)
MAXMIN = {}


def phi(c, a, b):
    """value = a if c else b"""
    if same(a, b):
        return a
    c = low(poly(c))
    if c == 1:
        return a
    if c == 0:
        return b
    e = _eq_guard(c, a, b)
    if e is not None:
        return e
    if numeric(a) and numeric(b) and not (isinstance(a, bool) != isinstance(b, bool) and not (_isboolish(a) and _isboolish(b))):
        if isinstance(a, bool) and isinstance(b, bool):
            return c if a else sub(1, c)
        if not isinstance(a, bool) and not isinstance(b, bool):
            mm = _as_maxmin(c, a, b)
            if mm is not None:
                return mm
        return add(mul(c, a), mul(sub(1, c), b))
    if (numeric(a) or isinstance(a, (int, Term))) and isnum(b) or isnum(a) and isinstance(b, Term):
        # a number against an untyped term: treat as numeric
        if not (isinstance(a, bool) or isinstance(b, bool)) and not (isinstance(a, Term) and a.ty not in (None, 'num')) and not (isinstance(b, Term) and b.ty not in (None, 'num')):
            return add(mul(c, a), mul(sub(1, c), b))
    alts = []

    def put(w, v):
        w = low(poly(w))
        if w == 0:
            return
        for i, (w0, v0) in enumerate(alts):
            if same(v0, v):
                alts[i] = (add(w0, w), v0)
                return
        alts.append((w, v))
    for w, v in (a.alts if isinstance(a, Phi) else ((1, a),)):
        put(mul(c, w), v)
    nc = sub(1, c)
    for w, v in (b.alts if isinstance(b, Phi) else ((1, b),)):
        put(mul(nc, w), v)
    if len(alts) == 1:
        return alts[0][1]
    return Phi(alts)


def _eq_guard(c, a, b):
    """a if a != b else b  ->  a ;  a if a == b else b  ->  b"""
    if not (isinstance(a, (Term, Poly)) or isinstance(b, (Term, Poly))) or isinstance(a, Phi) or isinstance(b, Phi):
        return None
    if is_ind(c):
        t, neg_ = c, False
    elif isinstance(c, Poly) and len(c.t) == 2 and c.t.get(ONE) == 1:
        t, neg_ = low(sub(1, c)), True
    else:
        return None
    if not is_ind(t) or t.args[0] not in ('zero', 'same', 'is'):
        return None
    try:
        e = c_eq(a, b)
    except Exception:
        return None
    if e is t or same(e, t):
        return a if neg_ else b
    return None


def alts(v):
    return v.alts if isinstance(v, Phi) else ((1, v),)


# ---------------------------------------------------------------- conditions
def ind(kind, *args):
    return mk('ind', kind, *args, ty='bool')


def c_not(c):
    return sub(1, c)


def c_and(a, b):
    return mul(a, b)


def c_or(a, b):
    return sub(add(a, b), mul(a, b))


def c_lt(a, b):
    """a < b"""
    d = low(_add(poly(a), poly(b), -1))
    if isnum(d):
        return d < 0
    p = poly(d)
    sg = _sign(p)
    if sg:
        return sg < 0
    n = _count(p)
    if n is not None:
        # d = k*(n) + c with n a number of things
        k, c, ne = n
        if k < 0 and 0 <= c < -k:
            return ne          # c < |k| n  with c < |k|: at least one
        if k > 0 and -k <= c < 0:
            return c_not(ne)   # k n < |c| <= k: none
        if k > 0 and c >= 0:
            return 0
        if k < 0 and c < 0:
            return 1
    p = _strip(p)
    return ind('lt', low(scale(p, 1 / content(p))))


NONEMPTY = [lambda t: None]


def _count(p):
    """(k, c, at least one) when p = k*n + c and n counts the elements of a collection."""
    c, it = 0, None
    if len(p.t) > 2:
        return None
    for m, k in p.t.items():
        if not m:
            c = k
        elif len(m) == 1 and it is None:
            (a, e), = m
            if e != 1 or a.op not in ('len', 'sum'):
                return None
            it = (k, a)
        else:
            return None
    if it is None:
        return None
    ne = NONEMPTY[0](it[1])
    return None if ne is None else (it[0], c, ne)


def c_eq(a, b):
    """Equality of two values, normalised."""
    if same(a, b):
        return True
    if (isinstance(a, Poly) or isnum(a) or isinstance(a, Term) and a.ty == 'num') and (isinstance(b, Poly) or isnum(b) or isinstance(b, Term) and b.ty == 'num') \
            and not isinstance(a, bool) and not isinstance(b, bool) and _sign(poly(sub(a, b))):
        return False
    ca, cb = isinstance(a, (str, type(None), bool)) or isnum(a), isinstance(b, (str, type(None), bool)) or isnum(b)
    if ca and cb:
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = 1
        for x, y in zip(a, b):
            r = c_and(r, c_eq(x, y))
        return r
    if isinstance(a, Phi) or isinstance(b, Phi):
        r = 0
        for w1, x in alts(a):
            for w2, y in alts(b):
                r = add(r, mul(mul(w1, w2), c_eq(x, y)))
        return r
    if ca:
        a, b, ca, cb = b, a, cb, ca
    if cb:
        if isinstance(a, Term) and a.op == 'new':
            return False
        if is_ind(a) or (isinstance(a, Poly) and _isbool(a)) or (isinstance(a, Term) and a.ty == 'bool' and isinstance(b, bool)):
            if b is True or b == 1:
                return truth(a)
            if b is False or b == 0:
                return c_not(truth(a))
            return False
        if isinstance(a, Term):
            if b is None or isinstance(b, (str, bool)):
                if b is None and (a.ty in ('str!',) or a.op == 'call' and a.ty == 'num' or a.op in ('max', 'min', 'abs', 'linspace', 'vstack', 'hstack', 'mat', 'seq')):
                    return False
                return ind('is', a, b)
            if a.op == 'dim' and isinstance(b, int) and b < 6:
                return False     # an assembled array has one row per degree of freedom of a non-empty model
            if isnum(b) and a.op in ('len', 'sum'):
                n = _count(poly(a))
                if n is not None and b == 0:
                    return c_not(n[2])
                if n is not None and b < 0:
                    return False
            return ind('zero', _nz(sub(a, b))) if a.ty == 'num' else ind('is', a, b)
        if isinstance(a, Poly):
            if b is None or isinstance(b, (str, bool)):
                return False
            n = _count(a)
            if n is not None and b == n[1]:
                return c_not(n[2])
            return ind('zero', _nz(sub(a, b)))
        return False
    if isinstance(a, (Poly, Term)) and isinstance(b, (Poly, Term)):
        if isinstance(a, Poly) or isinstance(b, Poly) or (a.ty == 'num' and b.ty == 'num'):
            return ind('zero', _nz(sub(a, b)))
        if {a.op, b.op} in ({'new'}, {'new', 'sym'}):
            return False                # an object created by the code is none of the inputs
        x, y = sorted((a, b), key=lambda t: t.id)
        return ind('same', x, y)
    return ind('cmp', repr(type(a)), _h(a), _h(b))


def _h(v):
    try:
        hash(v)
        return v
    except TypeError:
        return repr(v)


def _nz(d):
    p = _strip(poly(d))
    # a quotient is zero when its numerator is: clear common and negative powers of the denominators
    lowest = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                lowest[a] = min(lowest.get(a, 0), e)
    if lowest:
        q = poly(mul(p, Poly({frozenset((a, -e) for a, e in lowest.items()): 1})))
        q = poly(_fixlow(q)) if q.t else q
        if q.t and not isnum(low(q)):
            p = q
    return low(scale(p, Fraction(_lead(p)) / content(p)))


def _isbool(p):
    return all(all(a.op == 'ind' for a, _ in m) for m in p.t)


def truth(v):
    """Condition polynomial for bool(v)."""
    if isinstance(v, bool):
        return 1 if v else 0
    if v is None:
        return 0
    if isnum(v):
        return 1 if v != 0 else 0
    if isinstance(v, (str, tuple)):
        return 1 if len(v) else 0
    if isinstance(v, Term):
        if v.op == 'ind':
            return v
        if v.op == 'new':
            return 1
        if v.ty == 'num':
            return c_not(ind('zero', _nz(v)))
        return ind('truthy', v)
    if isinstance(v, Poly):
        if _isbool(v):
            return low(v)
        return c_not(ind('zero', _nz(v)))
    if isinstance(v, Phi):
        r = 0
        for w, x in v.alts:
            r = add(r, mul(w, truth(x)))
        return r
    return 1


# ---------------------------------------------------------------- traversal
def children(v):
    if isinstance(v, Term):
        return v.args
    if isinstance(v, Poly):
        return [a for m in v.t for a, _ in m]
    if isinstance(v, (tuple, frozenset, list)):
        return v
    if isinstance(v, Phi):
        return [x for al in v.alts for x in al]
    if hasattr(v, 'kids'):
        return v.kids()
    return ()


_depc = {}


def atoms_of(v):
    """frozenset of all Terms occurring in v (deep)."""
    if isinstance(v, Term):
        r = _depc.get(v)
        if r is None:
            s = {v}
            for a in v.args:
                s |= atoms_of(a)
            r = frozenset(s)
            _depc[v] = r
        return r
    if isinstance(v, (Poly, Phi, tuple, frozenset, list)) or hasattr(v, 'kids'):
        s = set()
        for a in children(v):
            s |= atoms_of(a)
        return s
    return frozenset()


def depends(v, t):
    return t in atoms_of(v)


def subst(v, m, memo=None):
    """Replace Terms by mapping m (Term -> value), rebuilding normal forms."""
    if memo is None:
        memo = {}
    if isinstance(v, Term):
        if v in m:
            return m[v]
        if v in memo:
            return memo[v]
        hit = False
        at = atoms_of(v)
        for k in m:
            if k in at:
                hit = True
                break
        if not hit:
            memo[v] = v
            return v
        args = tuple(subst(a, m, memo) for a in v.args)
        r = rebuild(v.op, args, v.ty)
        memo[v] = r
        return r
    if isinstance(v, Poly):
        r = Poly({})
        for mo, c in v.t.items():
            q = Poly({ONE: c})
            for a, e in mo:
                b = subst(a, m, memo)
                if b is a:
                    q = _mul(q, Poly({frozenset(((a, e),)): 1}))
                else:
                    if isinstance(b, Phi):
                        b = poly(b)
                    q = _mul(q, poly(power(b, e)))
            r = _add(r, q)
        return low(r)
    if isinstance(v, tuple):
        return tuple(subst(a, m, memo) for a in v)
    if isinstance(v, frozenset):
        return frozenset(subst(a, m, memo) for a in v)
    if isinstance(v, Phi):
        first, out = True, None
        for w, x in v.alts:
            w2, x2 = subst(w, m, memo), subst(x, m, memo)
            out = x2 if first else phi(w2, x2, out)
            first = False
        return out
    if hasattr(v, 'smap'):
        return v.smap(lambda x: subst(x, m, memo))
    return v


REBUILD = {}


def rebuild(op, args, ty=None):
    f = REBUILD.get(op)
    if f is not None:
        return f(args, ty)
    if op == 'ind':
        k = args[0]
        if k == 'lt':
            return c_lt(args[1], 0)
        if k == 'zero':
            return c_eq(args[1], 0) if not isnum(args[1]) else args[1] == 0
        if k == 'is':
            return c_eq(args[1], args[2])
        if k == 'same':
            return c_eq(args[1], args[2])
        if k == 'truthy':
            return truth(args[1])
    if op == 'P':
        return args[0] if not isinstance(args[0], Poly) else mk('P', args[0], ty='num')
    return mk(op, *args, ty=ty)


# ---------------------------------------------------------------- printing
def show(v, depth=0):
    if depth > 12:
        return '...'
    d = depth + 1
    if isinstance(v, Term):
        o, a = v.op, v.args
        if o == 'sym':
            return a[0]
        if o == 'attr':
            return show(a[0], d) + '.' + a[1]
        if o == 'elem':
            return 'each(' + show(a[0], d) + ')' + ("'" * a[1] if len(a) > 1 and isinstance(a[1], int) else '')
        if o == 'item':
            return show(a[0], d) + '[' + show(a[1], d) + ']'
        if o == 'at':
            return show(a[0], d) + '[' + ','.join(show(x, d) for x in a[1:]) + ']'
        if o == 'call':
            return a[0] + '(' + ', '.join(show(x, d) for x in a[1:]) + ')'
        if o == 'ind':
            if a[0] == 'lt':
                return '{' + show(a[1], d) + ' < 0}'
            if a[0] == 'zero':
                return '{' + show(a[1], d) + ' = 0}'
            if a[0] in ('is', 'same'):
                return '{' + show(a[1], d) + ' == ' + show(a[2], d) + '}'
            if a[0] == 'truthy':
                return '{' + show(a[1], d) + '}'
            return '{' + str(a[0]) + ' ' + ', '.join(show(x, d) for x in a[1:]) + '}'
        if o == 'sum':
            return 'SUM[' + ','.join(sorted(show(x, d) for x in a[0])) + '](' + show(a[1], d) + ')'
        if o == 'P':
            return '(' + show(a[0], d) + ')'
        return o + '(' + ', '.join(show(x, d) for x in a) + ')'
    if isinstance(v, Poly):
        parts = []
        for m, c in sorted(v.t.items(), key=lambda kv: str(kv[1]))[:14]:
            s = '*'.join(sorted(show(a, d) + ('' if e == 1 else '^%s' % e) for a, e in m))
            if not s:
                parts.append(str(c))
            elif c == 1:
                parts.append(s)
            elif c == -1:
                parts.append('-' + s)
            else:
                parts.append('%s*%s' % (c, s))
        if len(v.t) > 14:
            parts.append('... %d terms' % len(v.t))
        return ' + '.join(sorted(parts)).replace('+ -', '- ') or '0'
    if isinstance(v, Phi):
        return 'one of{' + '; '.join(show(x, d) + ' if ' + show(c, d) for c, x in v.alts) + '}'
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x, d) for x in v) + ')'
    if isinstance(v, frozenset):
        return '{' + ', '.join(sorted(show(x, d) for x in v)) + '}'
    return repr(v) if isinstance(v, str) else str(v)


# ---------------------------------------------------------------- derivative
class NoDerivative(Exception):
    pass


def divide(p, q):
    """Exact quotient of two polynomials, None when there is a remainder."""
    p, q = poly(p), poly(q)
    order = sorted({a for x in (p, q) for m in x.t for a, _ in m}, key=repr)
    key = lambda m: tuple(dict(m).get(a, 0) for a in order)
    lq = max(q.t, key=key)
    dq = dict(lq)
    out = Poly({})
    for _ in range(60):
        if not p.t:
            return low(out)
        lp = max(p.t, key=key)
        d = dict(lp)
        e = {a: d.get(a, 0) - dq.get(a, 0) for a in set(d) | set(dq)}
        if any(k < 0 for k in e.values()):
            return None
        t = Poly({frozenset((a, k) for a, k in e.items() if k): Fraction(p.t[lp]) / q.t[lq]})
        out = _add(out, t)
        p = _add(p, _mul(t, q), -1)
    return None


def split_roots(v, bases):
    """Roots of a product of the given non-negative polynomials become products of their roots."""
    for _ in range(4):
        m = {}
        for t in atoms_of(v) if isinstance(v, (Term, Poly)) else ():
            if t.op == 'P' and isinstance(t.args[0], Poly):
                for b in bases:
                    if isnum(b) or equal(t.args[0], b):
                        continue
                    r = divide(t.args[0], b)
                    if r is not None and not isnum(r):
                        m[t] = (b, r)
                        break
        if not m:
            return v
        out = Poly({})
        for mono, c in poly(v).t.items():
            q = Poly({frozenset((a, e) for a, e in mono if a not in m): c})
            for a, e in mono:
                if a in m:
                    for f in m[a]:
                        q = _mul(q, poly(power(f, e)))
            out = _add(out, q)
        v = _fixlow(out)
    return v


def diff(v, x):
    """Derivative of a normal form with respect to the symbol x."""
    if isnum(v):
        return 0
    if not depends(v, x):
        return 0
    if v is x:
        return 1
    if isinstance(v, Term) and v.op == 'P':
        return diff(v.args[0], x)
    if not isinstance(v, Poly):
        raise NoDerivative(show(v)[:200])
    r = 0
    for m, c in v.t.items():
        for a, e in m:
            d = diff(a, x)
            if d == 0:
                continue
            rest = low(Poly({frozenset((b, k) for b, k in m if b is not a): c}))
            r = add(r, mul(mul(rest, d), mul(e, power(a if a.op != 'P' else a.args[0], e - 1))))
    return r
