"""Abstract interpreter over the repository's syntax trees (gated value numbering).

Every statement is visited once per calling context; branches are joined (values become
indicator-weighted polynomials / Phi), loops over unknown collections are summarised by a
generic element, methods are resolved through the declared field types (types_.py) and either
summarised in place or kept opaque when a query asks for that.  No path enumeration, no solver."""
import ast
from fractions import Fraction
from .dom import *
from .dom import _freeze
from . import alg, dom
from .repo import AnalysisBroken
from .live import annotate
from .types_ import TY, REC, NULLABLE, NAMED as _NAMED

dom.NAMED |= _NAMED
dom.RECS.update(REC)


class Dead(Exception):
    """The current path always raises."""


class Unsupported(Exception):
    pass


class _Unbound:
    def __repr__(self):
        return 'UNBOUND'


UNB = _Unbound()


class State:
    __slots__ = ('loc', 'facts', 'conds', 'fc')

    def __init__(self, loc=None, facts=None, conds=(), fc=1):
        self.loc = loc if loc is not None else {}
        self.facts = facts if facts is not None else {}
        self.conds = conds
        self.fc = fc

    def copy(self):
        return State(dict(self.loc), dict(self.facts), self.conds, self.fc)

    def assume(self, c):
        """Record that condition c holds; returns False when contradictory."""
        c = low(poly(c))
        if c == 1:
            return True
        if c == 0:
            return False
        self.conds = self.conds + (c,)
        self._learn(c)
        return True

    def _learn(self, c):
        p = poly(c)
        if len(p.t) == 1:
            (m, k), = p.t.items()
            if k == 1:
                for a, e in m:
                    if a.op == 'ind':
                        self.facts[a] = 1
                return
        if len(p.t) == 2 and p.t.get(ONE) == 1:
            # 1 - product: single indicator -> it is false
            (m, k), = [x for x in p.t.items() if x[0] != ONE]
            if k == -1 and len(m) == 1:
                (a, e), = m
                if a.op == 'ind':
                    self.facts[a] = 0
                return
        # prod (1-x_i)...: try factoring common single indicators
        inds = set()
        for m in p.t:
            for a, _ in m:
                if a.op == 'ind':
                    inds.add(a)
        if len(p.t) <= 64:
            for a in inds:
                # c implies a  <=> c*(1-a)=0 ; c implies not a <=> c*a=0
                if low(poly(mul(c, sub(1, a)))) == 0:
                    self.facts[a] = 1
                elif low(poly(mul(c, a))) == 0:
                    self.facts[a] = 0

    def pc(self):
        r = 1
        for c in self.conds:
            r = mul(r, c)
        return r


def simp(c, facts):
    """Simplify condition c with known indicator values."""
    c = low(poly(c))
    if isnum(c) or not facts:
        return c
    m = {}
    for a in inds_of(c):
        if a in facts:
            m[a] = facts[a]
        else:
            v = implied(a, facts)
            if v is not None:
                m[a] = v
    if not m:
        return c
    p = poly(c)
    r = Poly({})
    for mo, k in p.t.items():
        keep, ok = [], True
        for a, e in mo:
            if a in m:
                if m[a] == 0:
                    ok = False
                    break
            else:
                keep.append((a, e))
        if ok:
            q = Poly({frozenset(keep): k})
            r = alg._add(r, q)
    return low(r)


def inds_of(c):
    s = set()
    for mo in poly(c).t:
        for a, _ in mo:
            if a.op == 'ind':
                s.add(a)
    return s


def implied(a, facts):
    k = a.args[0]
    if k in ('is', 'lt', 'zero', 'truthy'):
        for f, v in facts.items():
            if v == 1 and f is not a and alg._excl(a, f):
                return 0
        if k == 'lt':
            # not(p<0), not(p=0) ... leave
            pass
    return None


class Raise:
    __slots__ = ('conds', 'exc', 'st', 'binders', 'where', 'stack', 'implicit')

    def __init__(self, conds, exc, st, binders, where, stack, implicit=False):
        self.conds, self.exc, self.st, self.binders, self.where, self.stack, self.implicit = conds, exc, st, binders, where, stack, implicit

    def cond(self):
        r = 1
        for c in self.conds:
            r = mul(r, c)
        for b in reversed(self.binders):
            if b.op in ('elem', 'key'):
                r = exists(b, r)
        return r


BUILTINS = {'len', 'range', 'abs', 'max', 'min', 'sum', 'any', 'all', 'round', 'int', 'float', 'str', 'isinstance',
            'id', 'sorted', 'list', 'tuple', 'set', 'dict', 'enumerate', 'zip', 'getattr', 'setattr', 'hasattr', 'print',
            'super', 'type', 'deepcopy', 'map', 'reversed', 'next', 'iter', 'repr', 'bool', 'chr', 'ord', 'pow', 'divmod',
            'filter', 'frozenset', 'callable', 'object', 'format'}
EXCS = {'Exception', 'ValueError', 'NameError', 'KeyError', 'TypeError', 'IndexError', 'NotImplementedError',
        'RuntimeError', 'AttributeError', 'ZeroDivisionError', 'UserWarning', 'Warning', 'ArithmeticError',
        'AssertionError', 'LookupError', 'DeprecationWarning', 'StopIteration', 'SyntaxError', 'ModuleNotFoundError',
        'ImportError', 'BaseException', 'LinAlgError', 'OSError', 'FloatingPointError'}


class Interp:
    def __init__(self, repo, opaque=None, single=None, implicit=False, maxdepth=24):
        self.repo = repo
        self.opaque = opaque or {}
        self.single = single or {}
        self.implicit = implicit
        self.raises = []
        self.trystack = []
        self.nref = 0
        self.nscope = 0
        self.active = []          # active symbolic binders
        self.callstack = []
        self.maxdepth = maxdepth
        self.unk = {}             # reason -> count
        self.visited = set()
        self.nuid = 0
        self.trace = []
        self.steps = 0
        self.whiles = []
        from . import models
        self.models = models
        self.consts_cache = {}
        self.const_name = ()
        self.const_refs = {}        # module-level containers not modified so far

    # ------------------------------------------------------------ helpers
    def newref(self, st, content, kind='obj'):
        self.nref += 1
        if self.const_name:
            t = mk('ref', 'const', self.nref, *self.const_name)
        else:
            t = mk('ref', self.nref, *self.active)
        st.loc[('r', t)] = content
        return t

    def unknown(self, why, *args, ty=None):
        self.unk[why] = self.unk.get(why, 0) + 1
        return mk('unk', why, *[a for a in args if _hashable(a)], ty=ty)

    def content(self, st, t):
        """Content of a mutable container value, or None."""
        if not isinstance(t, Term):
            return None
        c = st.loc.get(('r', t))
        if c is not None:
            return c
        if t.op == 'ref':
            return self.const_refs.get(t)
        ty = t.ty or ''
        if ty.startswith('dict:'):
            return DictC((('b', t),))
        if ty.startswith('list:'):
            return ListC((('b', t),))
        if ty in REC:
            return DictC((('b', t),))
        return None

    def setcontent(self, st, t, c):
        st.loc[('r', t)] = c

    def wrap(self, t):
        if isinstance(t, Term) and t.ty == 'bool' and t.op != 'ind':
            return ind('truthy', t)
        return t

    def truth(self, st, v):
        if isinstance(v, Term):
            c = self.content(st, v)
            if c is not None:
                return self.nonempty(st, v, c)
            if ismat(v):
                return 1
        if isinstance(v, Phi):
            r = 0
            for w, x in v.alts:
                r = add(r, mul(w, self.truth(st, x)))
            return simp(r, st.facts)
        if isinstance(v, (FuncV, ClassV, ExtV, ModV, MethV)):
            return 1
        return simp(truth(v), st.facts)

    def nonempty(self, st, v, c):
        if isinstance(c, ListC):
            return self.seq_nonempty(c.seq)
        if isinstance(c, DictC):
            if v.ty in REC:
                return 1
            r = self.seq_nonempty(c.parts)
            for k, x in c.top:
                if x is MISSING:
                    if not c.parts:
                        continue
                    return ind('nonempty', v, c.key()) if not isinstance(r, int) else r
                if isinstance(x, Phi) and any(y is MISSING for _, y in x.alts):
                    for w, y in x.alts:
                        if y is not MISSING:
                            r = c_or(r, w)
                    continue
                return 1
            return r
        return 1

    def seq_nonempty(self, seq):
        r = 0
        for p in seq:
            if p[0] == 'x':
                return 1
            if p[0] == 'c':
                r = c_or(r, mul(p[1], self.seq_nonempty(p[2])))
            elif p[0] == 'f':
                r = c_or(r, exists(p[1], self.seq_nonempty(p[2])))
            else:
                r = c_or(r, nonempty(p[1]))
        return r

    # ------------------------------------------------------------ state merging
    def default(self, key):
        k = key[0]
        if k == 'a':
            return self.attr_default(key[1], key[2])
        if k == 'r':
            t = key[1]
            return self.content(State(), t)
        return UNB

    def attr_default(self, o, a):
        if o.op == 'new' or o.op == 'ref':
            return UNB
        ty = None
        if o.ty in TY or o.ty in self.repo.classes:
            for c in self.repo.mro(o.ty):
                ty = TY.get(c.name, {}).get(a)
                if ty:
                    break
        if a == 'model' and self.single.get('FEModel3D') is not None and o.ty in self.repo.classes:
            return self.single['FEModel3D']
        if o.op == 'sym' and ty and ty.startswith('dict:'):
            pass
        return self.wrap(mk_attr(o, a, ty))

    def mergev(self, c, a, b, st, sa, sb):
        if a is UNB:
            return b
        if b is UNB:
            return a
        if same(a, b):
            return a
        # matrices behind refs: merge contents into a fresh ref
        ca = sa.loc.get(('r', a)) if isinstance(a, Term) else None
        cb = sb.loc.get(('r', b)) if isinstance(b, Term) else None
        if ca is not None and cb is not None and type(ca) is type(cb):
            m = self.merge_content(c, ca, cb)
            if m is not None:
                self.nref += 1
                t = mk('ref', self.nref, *self.active)
                st.loc[('r', t)] = m
                return t
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mergev(c, x, y, st, sa, sb) for x, y in zip(a, b))
        ma, mb = self.nc_maybe(a), self.nc_maybe(b)
        if ma is not None and mb is not None and ma.shape == mb.shape:
            return nc_term(nc_add(nc_scale(ma, c), nc_scale(mb, c_not(c))))
        return phi(c, a, b)

    def nc_maybe(self, v):
        if isinstance(v, Term) and ismat(v):
            return nc_of(v)
        return None

    def merge_content(self, c, a, b):
        if a == b:
            return a
        if isinstance(a, ListC) and isinstance(b, ListC):
            return ListC(merge_seq(c, a.seq, b.seq), a.kind)
        if isinstance(a, DictC) and isinstance(b, DictC):
            return merge_dict(c, a, b)
        if isinstance(a, MatC) and isinstance(b, MatC) and a.shape == b.shape:
            return MatC(a.shape, [x if same(x, y) else phi(c, x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, ScatC) and isinstance(b, ScatC) and a.shape == b.shape:
            return ScatC(a.shape, phi(c, a.p, b.p))
        return None

    def merge(self, c, a, b):
        """State equal to a if c else b (fc handled by the caller)."""
        if a is None:
            return b
        if b is None:
            return a
        st = State({}, {}, (), 1)
        la, lb = a.loc, b.loc
        for k in la:
            va = la[k]
            if k in lb:
                vb = lb[k]
                if va is vb:
                    st.loc[k] = va
                    continue
            else:
                vb = self.default(k)
            if k[0] == 'r':
                if vb is None or vb is UNB:
                    st.loc[k] = va
                    continue
                m = self.merge_content(c, va, vb)
                st.loc[k] = m if m is not None else va
            elif k[0] == 'log':
                st.loc[k] = merge_seq(c, va, vb if vb is not UNB else ())
            else:
                st.loc[k] = self.mergev(c, va, vb, st, a, b)
        for k in lb:
            if k in la:
                continue
            vb = lb[k]
            va = self.default(k)
            if k[0] == 'r':
                if va is None or va is UNB:
                    st.loc[k] = vb
                    continue
                m = self.merge_content(c, va, vb)
                st.loc[k] = m if m is not None else vb
            elif k[0] == 'log':
                st.loc[k] = merge_seq(c, (), vb)
            else:
                st.loc[k] = self.mergev(c, va, vb, st, a, b)
        st.facts = {k: v for k, v in a.facts.items() if b.facts.get(k, None) == v}
        n = 0
        while n < len(a.conds) and n < len(b.conds) and (a.conds[n] is b.conds[n] or a.conds[n] == b.conds[n]):
            n += 1
        ra = rb = 1
        for x in a.conds[n:]:
            ra = mul(ra, x)
        for x in b.conds[n:]:
            rb = mul(rb, x)
        r = low(poly(add(ra, rb)))
        st.conds = a.conds[:n] + ((r,) if r != 1 else ())
        return st

    def log(self, st, rec):
        st.loc[('log',)] = st.loc.get(('log',), ()) + (('x', rec),)

    # ------------------------------------------------------------ statements
    def block(self, body, st, sid):
        """-> (state|None, exits); fc relative to the block's start."""
        exits = []
        F = 1
        st.fc = 1
        for s in body:
            try:
                st2, ex = self.stmt(s, st, sid)
            except Dead:
                st2, ex = None, []
            for kind, es, v in ex:
                es.fc = mul(F, es.fc)
                exits.append((kind, es, v))
            if st2 is None:
                return None, exits
            F = mul(F, st2.fc)
            if low(poly(F)) == 0:
                return None, exits
            st = st2
            st.fc = 1
        st.fc = F
        return st, exits

    def branch(self, c, st, f1, f2):
        """Run f1 under c and f2 under not c; each returns (state|None, exits)."""
        c = simp(c, st.facts)
        if c == 1:
            return f1(st)
        if c == 0:
            return f2(st)
        s1, s2 = st.copy(), st.copy()
        ok1, ok2 = s1.assume(c), s2.assume(c_not(c))
        s1.fc = s2.fc = 1
        r1, e1 = self._safe(f1, s1)
        r2, e2 = self._safe(f2, s2)
        dead1, dead2 = r1 is None and not e1, r2 is None and not e2
        w1 = 1 if dead2 else c
        w2 = 1 if dead1 else c_not(c)
        exits = []
        for k, es, v in e1:
            es.fc = mul(w1, es.fc)
            exits.append((k, es, v))
        for k, es, v in e2:
            es.fc = mul(w2, es.fc)
            exits.append((k, es, v))
        if r1 is None and r2 is None:
            return None, exits
        if r1 is None:
            r2.fc = mul(w2, r2.fc)
            return r2, exits
        if r2 is None:
            r1.fc = mul(w1, r1.fc)
            return r1, exits
        m = self.merge(c, r1, r2)
        m.fc = add(mul(w1, r1.fc), mul(w2, r2.fc))
        return m, exits

    def _safe(self, f, s):
        try:
            return f(s)
        except Dead:
            return None, []

    def stmt(self, s, st, sid):
        self.steps += 1
        t = type(s).__name__
        m = getattr(self, 's_' + t, None)
        if m is None:
            self.unknown('stmt ' + t)
            return st, []
        self.line = getattr(s, 'lineno', 0)
        st.fc = 1
        return m(s, st, sid)

    def s_Expr(self, s, st, sid):
        if isinstance(s.value, ast.Constant):
            return st, []
        self.ev(s.value, st, sid)
        return st, []

    def s_Pass(self, s, st, sid):
        return st, []

    def s_Global(self, s, st, sid):
        return st, []

    s_Nonlocal = s_Global

    def s_Import(self, s, st, sid):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            st.loc[('v', sid, nm)] = ModV(a.name if a.asname else a.name.split('.')[0])
        return st, []

    def s_ImportFrom(self, s, st, sid):
        base = s.module or ''
        if s.level:
            base = 'PyNite' + ('.' + base if base else '')
        for a in s.names:
            st.loc[('v', sid, a.asname or a.name)] = self.imported(base + '.' + a.name)
        return st, []

    def imported(self, full):
        parts = full.split('.')
        if parts[0] == 'PyNite':
            if len(parts) == 2 and parts[1] in self.repo.modules:
                return ModV(full)
            m = self.repo.modules.get('.'.join(parts[1:-1]))
            n = parts[-1]
            if m is not None:
                if n in m.classes:
                    return ClassV(n)
                if n in m.funcs:
                    return FuncV(fn=m.funcs[n])
                if n in m.imports:
                    return self.imported(m.imports[n])
                if n in m.consts:
                    r = self.const_of(m, n)
                    return r[0] if r is not None else self.unknown('name ' + n)
            return ModV(full)
        if full.split('.')[0] in ('numpy', 'math', 'scipy', 'copy', 'warnings') and parts[-1] not in ('numpy', 'math', 'scipy', 'linalg', 'sparse', 'copy') or full == 'copy.copy':
            if parts[-1] == 'pi':
                return mk('sym', 'pi', ty='num')
            if parts[-1] == 'inf':
                return mk('sym', 'inf', ty='num')
            return ExtV(parts[-1])
        if len(parts) == 1 or parts[-1] in ('linalg', 'sparse', 'numpy', 'math'):
            return ModV(full)
        return ExtV(parts[-1])

    def const_of(self, m, n):
        k = (m.name, n)
        if k not in self.consts_cache:
            self.consts_cache[k] = None
            st = State()
            self.callstack.append(_Frame(None, m, None))
            old, self.const_name = self.const_name, k
            try:
                v = self.ev(m.consts[n], st, 0)
            finally:
                self.callstack.pop()
                self.const_name = old
            self.consts_cache[k] = (v, st)
            for kk, c in st.loc.items():
                if kk[0] == 'r':
                    self.const_refs[kk[1]] = c
        return self.consts_cache[k]

    def s_Return(self, s, st, sid):
        v = self.ev(s.value, st, sid) if s.value is not None else None
        st.fc = 1
        return None, [('return', st, v)]

    def s_Break(self, s, st, sid):
        return None, [('break', st, None)]

    def s_Continue(self, s, st, sid):
        return None, [('continue', st, None)]

    def s_Raise(self, s, st, sid):
        name = 'Exception'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(e)
        self.do_raise(st, name)
        return None, []

    def do_raise(self, st, name, implicit=False):
        f = self.callstack[-1] if self.callstack else None
        r = Raise(st.conds, name, st.copy(), tuple(self.active),
                  '%s:%d' % (f.mod.path, getattr(self, 'line', 0)) if f and f.mod else '?',
                  tuple(x.fn.qual for x in self.callstack if x.fn is not None), implicit)
        if self.trystack:
            self.trystack[-1].append(r)
        else:
            self.raises.append(r)

    def s_Assert(self, s, st, sid):
        c = self.truth(st, self.ev(s.test, st, sid))

        def dead(x):
            self.do_raise(x, 'AssertionError')
            return None, []
        return self.branch(c, st, lambda x: (x, []), dead)

    def s_If(self, s, st, sid):
        c = self.truth(st, self.ev(s.test, st, sid))
        d = getattr(s, '_dead', ())

        def drop(res):
            r, ex = res
            if r is not None:
                for n in d:
                    r.loc.pop(('v', sid, n), None)
            return r, ex
        return self.branch(c, st, lambda x: drop(self.block(s.body, x, sid)), lambda x: drop(self.block(s.orelse, x, sid)))

    def s_FunctionDef(self, s, st, sid):
        st.loc[('v', sid, s.name)] = FuncV(node=s, scope=sid, mod=self.callstack[-1].mod, cls=self.callstack[-1].cls,
                                           self_=self.closure_chain(sid), dflt=self.local_defaults(s.args, st, sid))
        return st, []

    def closure_chain(self, sid):
        return None

    def s_ClassDef(self, s, st, sid):
        self.unknown('local class')
        return st, []

    def s_With(self, s, st, sid):
        for it in s.items:
            v = self.ev(it.context_expr, st, sid)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.unknown('with'), st, sid)
        return self.block(s.body, st, sid)

    def s_Delete(self, s, st, sid):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, sid)
                k = self.ev(t.slice, st, sid)
                self.del_item(st, o, k)
            elif isinstance(t, ast.Name):
                st.loc.pop(('v', sid, t.id), None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st, sid)
                st.loc[('a', o, t.attr)] = UNB
        return st, []

    def del_item(self, st, o, k):
        c = self.content(st, o)
        if isinstance(c, DictC):
            k = self.fz(k, st)
            if self.implicit or self.trystack:
                self.missing_check(st, c, k, o)
            st.loc[('r', o)] = self.dict_del(c, k)
        elif isinstance(c, ListC) and isinstance(k, int) and c.concrete() is not None:
            l = c.concrete()
            del l[k]
            st.loc[('r', o)] = ListC([('x', v) for v in l], c.kind)
        else:
            self.unknown('del item')

    def dict_del(self, c, k):
        return c.with_set(k, MISSING)

    def s_Assign(self, s, st, sid):
        v = self.ev(s.value, st, sid)
        for t in s.targets:
            self.assign(t, v, st, sid)
        return st, []

    def s_AnnAssign(self, s, st, sid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, sid), st, sid)
        return st, []

    def s_AugAssign(self, s, st, sid):
        t = s.target
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, sid)
            k = self.ev_index(t.slice, st, sid)
            old = self.get_item(st, o, k)
            new = self.binop(type(s.op).__name__, old, self.ev(s.value, st, sid), st)
            self.set_item(st, o, k, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, sid)
            old = self.get_attr(st, o, t.attr)
            v = self.ev(s.value, st, sid)
            self.set_attr(st, o, t.attr, self.augop(s, old, v, st))
        else:
            old = self.ev(ast.Name(t.id, ast.Load()), st, sid)
            v = self.ev(s.value, st, sid)
            self.assign(t, self.augop(s, old, v, st), st, sid)
        return st, []

    def augop(self, s, old, v, st):
        c = self.content(st, old)
        if isinstance(c, ListC) and c.kind == 'list' and isinstance(s.op, ast.Add):
            st.loc[('r', old)] = ListC(norm_seq(c.seq + tuple(self.parts_of(st, v))), c.kind)
            return old
        new = self.binop(type(s.op).__name__, old, v, st)
        if isinstance(c, (MatC, ScatC)):
            # in-place on an array object
            cn = self.content(st, new)
            if cn is not None:
                st.loc[('r', old)] = cn
                return old
        return new

    def assign(self, t, v, st, sid):
        if isinstance(t, ast.Name):
            st.loc[('v', self.scope_for(t.id, sid, st), t.id)] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, sid)
            self.set_attr(st, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, sid)
            k = self.ev_index(t.slice, st, sid)
            self.set_item(st, o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), st)
            for x, y in zip(t.elts, vs):
                if isinstance(x, ast.Starred):
                    self.unknown('starred assign')
                    continue
                self.assign(x, y, st, sid)
        else:
            self.unknown('assign')

    def scope_for(self, name, sid, st):
        return sid

    def unpack(self, v, n, st):
        if isinstance(v, tuple) and len(v) == n:
            return list(v)
        if isinstance(v, Phi) and all(isinstance(x, tuple) and len(x) == n for _, x in v.alts):
            out = []
            for i in range(n):
                r = NIL
                for w, x in v.alts:
                    r = x[i] if r is NIL else phi(w, x[i], r)
                out.append(r)
            return out
        c = self.content(st, v)
        if isinstance(c, ListC) and c.concrete() is not None and len(c.concrete()) == n:
            return c.concrete()
        if isinstance(c, MatC) and len(c.shape) == 1 and c.shape[0] == n:
            return list(c.e)
        if isinstance(v, Term):
            return [self.get_item(st, v, i) for i in range(n)]
        return [self.unknown('unpack') for _ in range(n)]

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, sid):
        it = self.ev(s.iter, st, sid)

        def body(x, v):
            self.assign(s.target, v, x, sid)
            r, ex = self.block(s.body, x, sid)
            dh = getattr(s, '_deadhead', ())
            if r is not None:
                for n in dh:
                    r.loc.pop(('v', sid, n), None)
            # continue joins the fallthrough
            out = []
            for kind, es, val in ex:
                if kind == 'continue':
                    for n in dh:
                        es.loc.pop(('v', sid, n), None)
                    f = es.fc
                    if r is None:
                        r = es
                    else:
                        fr = r.fc
                        r = self.merge(f, es, r)
                        r.fc = add(f, fr)
                else:
                    out.append((kind, es, val))
            return r, out
        parts = self.parts_of(st, it)
        r, ex = self.run_seq(st, parts, body)
        return self.finish_loop(r, ex, s.orelse, sid)

    def finish_loop(self, r, ex, orelse, sid):
        out, brk = [], []
        for kind, es, v in ex:
            (brk if kind == 'break' else out).append((kind, es, v))
        if r is not None and orelse:
            f = r.fc
            r, e2 = self.block(orelse, r, sid)
            for kind, es, v in e2:
                es.fc = mul(f, es.fc)
                (brk if kind == 'break' else out).append((kind, es, v))
            if r is not None:
                r.fc = mul(f, r.fc)
        for _, es, _v in brk:
            if r is None:
                r = es
            else:
                f, fr = es.fc, r.fc
                r = self.merge(f, es, r)
                r.fc = add(f, fr)
        return r, out

    def run_seq(self, st, parts, body):
        exits = []
        F = 1
        st.fc = 1
        for p in parts:
            if st is None:
                break
            st.fc = 1
            try:
                if p[0] == 'x':
                    st2, ex = body(st, p[1])
                elif p[0] == 'c':
                    st2, ex = self.branch(p[1], st, lambda x: self.run_seq(x, p[2], body), lambda x: (x, []))
                elif p[0] == 'f':
                    st2, ex = self.sym_loop(st, p[1], p[2], body)
                else:
                    coll = p[1]
                    B = mk_elem(coll, 0)
                    if isinstance(coll.ty, str) and coll.ty.startswith('dict:') and B.op == 'elem':
                        st2, ex = self.sym_loop(st, B, (('x', B),), body)
                    else:
                        st2, ex = self.sym_loop(st, B, (('x', B),), body)
            except Dead:
                st2, ex = None, []
            for kind, es, v in ex:
                es.fc = mul(F, es.fc)
                exits.append((kind, es, v))
            if st2 is None:
                return None, exits
            F = mul(F, st2.fc)
            st = st2
            if low(poly(F)) == 0:
                return None, exits
        st.fc = F
        return st, exits

    def hv(self, B, key, x0, x1):
        kk = mk('key_', *[a if _hashable(a) else repr(a) for a in key])
        isb = (isinstance(x0, bool) or is_ind(x0)) and (x1 is None or isinstance(x1, bool) or is_ind(x1) or isinstance(x1, Poly) and alg._isbool(x1))
        if isb:
            return ind('hv', B, kk)
        if numeric(x0) or (x1 is not None and numeric(x1) and x0 is not None):
            return mk('hv', B, kk, ty='num')
        if ismat(x0):
            return mk('hv', B, kk, ty=x0.ty)
        return mk('hv', B, kk, ty=getattr(x0, 'ty', None) if isinstance(x0, Term) else None)

    def sym_loop(self, st0, B, seq, body):
        used = set()
        for x in self.active:
            used |= atoms_of(x)     # (also as a bound name inside the collection of an outer loop)
        if B in used:
            k = 1
            while fresh_binder(B, k) in used:
                k += 1
            nb = fresh_binder(B, k)
            seq = smap_seq(seq, lambda v: subst(v, {B: nb}) if not isinstance(v, str) else v)
            B = nb
        coll = B.args[0]
        hav = {}      # key -> {sub: hvterm} ; sub None for scalars
        n_r = len(self.trystack[-1]) if self.trystack else len(self.raises)
        nref0, nw = self.nref, len(self.whiles)
        mc = {}
        st_in = st0
        for attempt in range(12):
            rl = self.trystack[-1] if self.trystack else self.raises
            del rl[n_r:]
            del self.whiles[nw:]
            self.nref = nref0
            st0 = self.carry_in(st_in, mc)
            s = st0.copy()
            s.fc = 1
            s.loc[('log',)] = ()
            ne = nonempty(coll)
            if not isnum(ne) and is_ind(ne):
                s.facts[ne] = 1
            for k, subs in hav.items():
                self.apply_havoc(s, k, subs)
            start = dict(s.loc)
            self.active.append(B)
            try:
                r, exits = self.run_seq(s, seq, body)
            finally:
                self.active.pop()
            ends = [x for x in [r] + [es for k_, es, _ in exits if k_ == 'break'] if x is not None]
            new = self.carry_new(start, st0, ends, B, mc) or self.need_havoc(start, st0, ends, B, hav)
            if not new:
                break
        return self.summarise(st0, start, r, exits, B, hav)

    def carry_in(self, st0, mc):
        """Give every container that is re-bound in each iteration (x = x + y) one location for the whole loop."""
        if not mc:
            return st0
        s = st0.copy()
        for k, R in mc.items():
            s.loc[('r', R)] = self.content(st0, st0.loc[k])
            s.loc[k] = R
        return s

    def carry_new(self, start, st0, ends, B, mc):
        new = False
        for x in ends:
            for k, R in mc.items():
                v = x.loc.get(k)
                if v is not R:
                    c = self.content(x, v) if isinstance(v, Term) else None
                    if self._carryable(self.content(st0, R), c):
                        x.loc[('r', R)] = c
                        x.loc[k] = R
            for k, v in x.loc.items():
                if k[0] not in ('v', 'a') or k in mc or k not in start:
                    continue
                v0 = start[k]
                if v0 is v or not isinstance(v0, Term) or not isinstance(v, Term) or v0.op != 'ref' or v.op != 'ref':
                    continue
                if self._carryable(self.content(st0, v0), self.content(x, v)):
                    mc[k] = mk('ref', 'carry', B.id, *[a for a in k if isinstance(a, (int, str))], *[a for a in k if isinstance(a, Term)], *self.active)
                    new = True
        return new

    def _carryable(self, a, b):
        if isinstance(a, MatC) and isinstance(b, MatC):
            return a.shape == b.shape
        if isinstance(a, ScatC) and isinstance(b, ScatC):
            return tuple(a.shape) == tuple(b.shape)
        return isinstance(a, ListC) and isinstance(b, ListC) and a.kind == b.kind == 'list'

    def need_havoc(self, start, st0, sts, B, hav):
        new = False
        for x in sts:
            for k, v in x.loc.items():
                if k[0] == 'log' or B in atoms_of(k):
                    continue
                v0 = start.get(k, None)
                if v0 is None:
                    if k in start:
                        pass
                    elif k[0] == 'v' or k[0] == 'r' and k[1].op == 'ref':
                        continue     # born in the loop
                    else:
                        v0 = self.default(k)
                        if v0 is UNB:
                            continue
                if v0 is v or same(v0, v):
                    continue
                if k[0] == 'r':
                    if isinstance(v, DictC) and isinstance(v0, DictC):
                        h = hav.setdefault(k, {})
                        for kk, vv in v.top:
                            if kk in h or B in atoms_of(kk):
                                continue
                            old = dict_get(v0, kk)
                            if same(old, vv):
                                continue
                            if old is MISSING or isinstance(old, Phi) and any(y is MISSING for _, y in old.alts):
                                h[kk] = MISSING
                                old2 = vv
                                h[kk] = self.hv(B, k + ('i', kk), old2, vv)
                                new = True
                                continue
                            h[kk] = self.hv(B, k + ('i', kk), old, vv)
                            new = True
                    elif isinstance(v, MatC):
                        h = hav.setdefault(k, {})
                        for i, (p, q) in enumerate(zip(v0.e, v.e)):
                            if i not in h and not same(p, q):
                                h[i] = self.hv(B, k + ('m', i), 0, 0)
                                new = True
                    elif isinstance(v, ScatC):
                        if k not in hav:
                            hav[k] = {None: mk('hv', B, mk('key_', 'r', k[1]), ty='num')}
                            new = True
                    elif isinstance(v, ListC):
                        if k in hav and None in hav[k]:
                            continue
                        e0, e1 = (v0.concrete(), v.concrete()) if isinstance(v0, ListC) else (None, None)
                        if e0 and e1 and len(e0) == len(e1) and all(same(x, y) or numeric(x) and numeric(y) for x, y in zip(e0, e1)):
                            # a fixed-length list used as accumulators
                            h = hav.setdefault(k, {})
                            for i, (x, y) in enumerate(zip(e0, e1)):
                                if i not in h and not same(x, y):
                                    h[i] = self.hv(B, k + ('l', i), x, y)
                                    new = True
                        else:
                            hav[k] = {None: mk('hv', B, mk('key_', 'r', k[1]), ty='list:?')}
                            new = True
                else:
                    if k not in hav:
                        hav[k] = {None: self.hv(B, k, v0, v)}
                        new = True
        return new

    def apply_havoc(self, s, k, subs):
        if k[0] == 'r':
            c = self.content(s, k[1])
            if isinstance(c, DictC):
                for kk, h in subs.items():
                    c = c.with_set(kk, h)
                s.loc[k] = c
            elif isinstance(c, MatC):
                e = list(c.e)
                for i, h in subs.items():
                    e[i] = h
                s.loc[k] = MatC(c.shape, e)
            elif isinstance(c, ScatC):
                s.loc[k] = ScatC(c.shape, subs[None])
            elif isinstance(c, ListC):
                if None in subs:
                    s.loc[k] = ListC((('b', subs[None]),), c.kind)
                else:
                    s.loc[k] = ListC([('x', subs.get(i, x)) for i, x in enumerate(c.concrete())], c.kind)
        else:
            s.loc[k] = subs[None]

    def summarise(self, st0, start, r, exits, B, hav):
        coll = B.args[0]
        out_exits = []
        rets = []
        brks = []
        for kind, es, v in exits:
            (brks if kind == 'break' else rets).append((kind, es, v))
        hvall = set()
        for subs in hav.values():
            hvall |= set(subs.values())
        # ---- final values of carried keys after all iterations
        final = st0.copy()
        final.fc = 1
        if r is None and not brks:
            # every iteration leaves the loop
            pass
        else:
            body_end = r
            brk_terms = None
            if brks:
                # combine break states: an element satisfying the break condition ends the loop
                cb = 0
                bs = None
                for _, es, _v in brks:
                    f, c0 = es.fc, cb
                    bs = es if bs is None else self.merge(f, es, bs)
                    cb = add(cb, f)
                carried_change = r is not None and self.changed(start, r, hav, hvall)
                ex = exists(B, cb)
                F = mk('first', coll, B, low(poly(cb)), ty=B.ty)
                if not carried_change:
                    # no effect before the break: state is st0 or the break state at the first hit
                    bst = self.after(st0, start, bs, {B: F}, hav, hvall)
                    bst.fc = 1
                    m = self.merge(ex, bst, final)
                    m.fc = 1
                    final = m
                    self.exits_from(rets, st0, start, B, hav, hvall, out_exits, final, cb)
                    return final, out_exits
                mm = self.sum_state(st0, start, r, B, hav, hvall)
                for k, v in mm.loc.items():
                    if st0.loc.get(k, UNB) is not v and k[0] != 'log':
                        if k[0] in ('v', 'a') and not same(st0.loc.get(k, UNB), v):
                            mm.loc[k] = self.unknown('break', mk('key_', *[a if _hashable(a) else repr(a) for a in k]), B, low(poly(cb)), v if _hashable(v) else None,
                                                     ty='num' if numeric(v) else None)
                final = mm
            else:
                final = self.sum_state(st0, start, r, B, hav, hvall)
        self.exits_from(rets, st0, start, B, hav, hvall, out_exits, final, 0)
        fc = 1
        for _, es, _v in out_exits:
            fc = sub(fc, es.fc)
        if r is None and not brks:
            ne = nonempty(coll)
            final = st0.copy()
            if low(poly(ne)) == 1:
                return None, out_exits
            if not rets:
                # every element raises: the loop is passed only when the collection is empty
                final.assume(c_not(ne))
                final.fc = 1
                return final, out_exits
        final.fc = fc
        return final, out_exits

    def changed(self, start, r, hav, hvall):
        for k, v in r.loc.items():
            if k[0] == 'log':
                if v:
                    return True
                continue
            if k not in start:
                if k[0] == 'v' or k[0] == 'r' and k[1].op == 'ref':
                    continue
                return True
            if not same(start[k], v):
                if k[0] == 'v' and k not in hav:
                    continue
                return True
        return False

    def after(self, st0, start, s, m, hav, hvall):
        """State s of one iteration, hv replaced by the pre-loop values, binder replaced through m."""
        sub_ = dict(m)
        for k, subs in hav.items():
            for kk, h in subs.items():
                x0 = self.initial(st0, k, kk)
                if x0 is not UNB and x0 is not None and x0 is not MISSING and not isinstance(x0, Content):
                    sub_[h] = x0
        loc = {}
        for k, v in s.loc.items():
            if k[0] == 'log':
                continue
            v0 = start.get(k, UNB)
            if same(v0, v) and k in st0.loc:
                loc[k] = st0.loc[k]
            elif k[0] == 'r' and isinstance(v, ListC) and None in hav.get(k, ()):
                c0 = self.content(st0, k[1])
                if isinstance(c0, ListC):
                    v = ListC(norm_seq(splice(v.seq, hav[k][None], c0.seq)), v.kind)
                loc[subst(k, sub_)] = self.sv(v, sub_)
            else:
                loc[subst(k, sub_) if k[0] != 'v' else k] = self.sv(v, sub_)
        l0 = st0.loc.get(('log',), ())
        l1 = s.loc.get(('log',), ())
        loc[('log',)] = l0 + smap_seq(l1, lambda x: self.sv(x, sub_))
        st = State(loc, dict(st0.facts), st0.conds)
        return st

    def sv(self, v, m):
        if v is MISSING or v is UNB or v is None or isinstance(v, (str, bool)):
            return v
        return subst(v, m)

    def initial(self, st0, k, kk):
        if k[0] == 'r':
            c = self.content(st0, k[1])
            if isinstance(c, DictC):
                return dict_get(c, kk)
            if isinstance(c, MatC):
                return c.e[kk]
            if isinstance(c, ScatC):
                return c.p
            if isinstance(c, ListC) and kk is not None:
                e = c.concrete()
                return e[kk] if e and kk < len(e) else None
            return None
        v = st0.loc.get(k, UNB)
        return self.default(k) if v is UNB else v

    def exits_from(self, rets, st0, start, B, hav, hvall, out, final, cb):
        if not rets:
            return
        tot = 0
        for _, es, _v in rets:
            tot = add(tot, es.fc)
        for kind, es, v in rets:
            c = es.fc
            F = mk('first', B.args[0], B, low(poly(add(tot, cb))), ty=B.ty)
            ex = exists(B, c)
            fr = self.after(st0, start, es, {B: F}, hav, hvall)
            # effects of earlier iterations are approximated by the initial values
            fr.fc = ex
            fv = self.sv(v, {B: F}) if not isinstance(v, (FuncV,)) else v
            out.append((kind, fr, fv))

    def sum_state(self, st0, start, r, B, hav, hvall):
        st = st0.copy()
        # resolve scalar recurrences first, to obtain prefix sums for other values
        pre = {}
        fin = {}
        todo = []
        for k, subs in hav.items():
            for kk, h in subs.items():
                todo.append((k, kk, h))
        vals = {}
        for k, kk, h in todo:
            x0 = self.initial(st0, k, kk)
            X = self.initial(r, k, kk)
            vals[(k, kk)] = (x0, X, h)
        # iterate: resolve those whose increment does not mention unresolved hv
        pending = dict(vals)
        progress = True
        while pending and progress:
            progress = False
            for key, (x0, X, h) in list(pending.items()):
                others = {t for t in hvall if t is not h}
                Xs = self.sv(X, pre)
                if atoms_of(Xs) & (others - set(pre)):
                    # may still be resolvable when it does not matter
                    continue
                f, p = self.recur(x0, Xs, h, B)
                fin[key] = f
                if p is not None:
                    pre[h] = p
                else:
                    pre[h] = h
                del pending[key]
                progress = True
        for key, (x0, X, h) in pending.items():
            Xs = self.sv(X, {a: b for a, b in pre.items() if a is not b})
            f, p = self.recur(x0, Xs, h, B)
            fin[key] = f
        prem = {a: b for a, b in pre.items() if a is not b}
        for (k, kk), f in fin.items():
            if k[0] == 'r':
                c = self.content(st, k[1])
                if isinstance(c, DictC):
                    st.loc[k] = c.with_set(kk, f)
                elif isinstance(c, MatC):
                    e = list(c.e)
                    e[kk] = f
                    st.loc[k] = MatC(c.shape, e)
                elif isinstance(c, ScatC):
                    st.loc[k] = ScatC(c.shape, f)
                elif isinstance(c, ListC):
                    if kk is not None:
                        e = list(c.concrete())
                        e[kk] = f
                        st.loc[k] = ListC([('x', x) for x in e], c.kind)
            else:
                st.loc[k] = f
        ne = nonempty(B.args[0])
        # ---- other changed keys
        for k, v in r.loc.items():
            if k[0] == 'log':
                if v:
                    st.loc[k] = norm_seq(st0.loc.get(k, ()) + (('f', B, smap_seq(v, lambda x: self.sv(x, prem))),))
                continue
            if k[0] == 'r':
                v0 = start.get(k)
                if v0 is None:
                    if k[1].op == 'ref':
                        st.loc[k] = self.sv(v, prem)     # allocated in the loop
                        continue
                    v0 = self.content(State(), k[1])
                if v is v0:
                    continue
                if isinstance(v, ListC):
                    if k in hav and None not in hav[k]:
                        pass
                    elif k in hav:
                        h = hav[k][None]
                        if v.seq[:1] == (('b', h),) and h not in atoms_of(v.seq[1:]):
                            suf = smap_seq(v.seq[1:], lambda x: self.sv(x, prem))
                            c0 = self.content(st0, k[1])
                            st.loc[k] = ListC(norm_seq(c0.seq + (('f', B, suf),)), v.kind)
                        else:
                            st.loc[k] = ListC((('b', self.unknown('listfold', B, v.seq, ty='list:?')),), v.kind)
                    else:
                        st.loc[k] = self.sv(v, prem)    # content of a per-element container
                elif isinstance(v, DictC):
                    if B in atoms_of(k):
                        st.loc[k] = self.sv(v, prem)
                        continue
                    c = self.content(st, k[1])
                    v0p = v0.parts
                    n = 0
                    while n < len(v0p) and n < len(v.parts) and v0p[n] == v.parts[n]:
                        n += 1
                    extra = []
                    if n == len(v0p):
                        extra += list(v.parts[n:])
                    elif v.parts != v0p:
                        extra += list(v.parts)
                    recs = []
                    for kk, vv in v.top:
                        if B in atoms_of(kk):
                            old = dict_get(v0, kk)
                            if same(old, vv):
                                continue
                            recs += self.cond_set(kk, vv, old)
                    if extra or recs:
                        s2 = smap_seq(tuple(extra) + tuple(recs), lambda x: x if x is MISSING else self.sv(x, prem))
                        st.loc[k] = DictC(c.flushed() + norm_seq((('f', B, s2),)))
                elif k not in hav:
                    st.loc[k] = self.sv(v, prem)
                continue
            if k in hav:
                continue
            v0 = start.get(k, UNB)
            if v0 is UNB:
                v0 = self.default(k) if k[0] == 'a' else UNB
            if same(v0, v) and k in start:
                continue
            if k[0] == 'v':
                vv = self.sv(v, prem)
                if B in atoms_of(vv):
                    vv = subst(vv, {B: mk('last', B.args[0], B, ty=B.ty)}) if _hashable(vv) else self.unknown('last')
                st.loc[k] = vv
            else:
                st.loc[k] = self.sv(v, prem)
        # ListC that were havocked but unchanged
        return st

    def cond_set(self, kk, vv, old):
        """('set') records equivalent to overwriting key kk with vv where old was there."""
        if isinstance(vv, Phi):
            keep, rest = 0, []
            for w, x in vv.alts:
                if same(x, old):
                    keep = add(keep, w)
                elif x is MISSING and old is MISSING:
                    keep = add(keep, w)
                else:
                    rest.append((w, x))
            if rest and not (isnum(keep) and keep == 0):
                return [('c', w, (('x', ('set', kk, x)),)) for w, x in rest]
        return [('x', ('set', kk, vv))]

    def recur(self, x0, X, h, B):
        """Value after the loop of a variable with initial x0 and one-iteration update X(h).
        Returns (final, prefix value inside the loop or None)."""
        coll = B.args[0]
        ne = nonempty(coll)
        if X is h or same(X, h):
            return x0, x0
        at = atoms_of(X)
        if h not in at:
            if x0 is MISSING:
                if B not in at:
                    return phi(ne, X, MISSING), None
            if B not in at:
                return (X if x0 is MISSING or x0 is UNB else self.phi2(ne, X, x0)), None
            L = mk('last', coll, B, ty=B.ty)
            return self.phi2(ne, subst(X, {B: L}), x0), None
        if isinstance(X, Term) and ismat(X):
            n = nc_of(X)
            if n.t.get((h,)) == 1:
                rest = NC({w: c for w, c in n.t.items() if w != (h,)}, n.shape)
                if not any(h in atoms_of(w) or h in atoms_of(c) for w, c in rest.t.items()):
                    r = nc_of(x0) if isinstance(x0, Term) and ismat(x0) else None
                    tot = NC({(mk('msum', frozenset([B]), nc_term(rest), ty=X.ty),): 1}, n.shape)
                    return nc_term(nc_add(r, tot) if r else tot), None
        if numeric(X):
            p = poly(X)
            a, b, bad = Poly({}), Poly({}), False
            for m, c in p.t.items():
                hit = [e for t, e in m if t is h]
                rest = frozenset((t, e) for t, e in m if t is not h)
                if any(h in atoms_of(t) for t, _ in rest):
                    bad = True
                    break
                if not hit:
                    b = alg._add(b, Poly({m: c}))
                elif hit[0] == 1:
                    a = alg._add(a, Poly({rest: c}))
                else:
                    bad = True
                    break
            if not bad:
                al = low(a)
                if al == 1:
                    if is_ind(h):
                        # flag := flag or c  is  h + c - h*c, handled below; h + b with b disjoint: same
                        pass
                    else:
                        bl = low(b)
                        S = mk_sum([B], bl)
                        fin = add(x0, S)
                        if B not in atoms_of(bl):
                            prefix = add(x0, mul(bl, mk('idx', B, ty='num')))
                        else:
                            prefix = add(x0, mk('presum', B, bl, ty='num'))
                        return fin, prefix
                if alg._isbool(a) or not a.t:
                    c = c_not(al)       # overwritten when c
                    bl = low(b)
                    # b = c*v
                    v = self.divide_cond(bl, c)
                    if v is not None and B not in atoms_of(v):
                        e = exists(B, c)
                        x = x0 if x0 is not None else None
                        if isinstance(x0, bool) or is_ind(h):
                            if isnum(v) and v in (0, 1):
                                v = bool(v)
                        return self.phi2(e, v, x0), None
                    return mk('lastmatch', B, c, bl, _hz(x0), ty='num' if not is_ind(h) else 'bool'), None
            # max / min accumulation
            if isinstance(X, Term) and X.op in ('max', 'min') and h in X.args[0]:
                rest = X.args[0] - {h}
                if not any(h in atoms_of(t) for t in rest):
                    o = mk(X.op + 'over', B, rest, ty='num')
                    if x0 is None:
                        return o, None
                    from .models import mk_max
                    return mk_max(X.op, [x0, o]), None
        if isinstance(X, Phi):
            keep, rest = 0, []
            for w, x in X.alts:
                if x is h:
                    keep = add(keep, w)
                else:
                    rest.append((w, x))
            if len(rest) == 1 and h not in atoms_of(rest[0][0]) and h not in atoms_of(rest[0][1]):
                c, v = rest[0]
                if B not in atoms_of(v):
                    return self.phi2(exists(B, c), v, x0), None
                return self.phi2(exists(B, c), subst(v, {B: mk('lastwhere', coll, B, low(poly(c)), ty=B.ty)}), x0), None
        return mk('fold', B, h, X if _hashable(X) else repr(X), _hz(x0), ty='num' if numeric(X) and not is_ind(h) else None), None

    def phi2(self, c, a, b):
        if b is UNB or b is MISSING and False:
            return a
        return phi(c, a, b)

    def divide_cond(self, b, c):
        """v with b == c*v, v constant or a simple value."""
        if isnum(b) and b == 0:
            return 0
        pb, pc = poly(b), poly(c)
        if pb == pc:
            return 1
        # b proportional to c?
        m0 = next(iter(pc.t))
        if m0 in pb.t:
            k = Fraction(pb.t[m0]) / Fraction(pc.t[m0])
            if alg.scale(pc, k) == pb:
                return frac(k)
        # b = c * v for the value v = b with indicators of c set to true
        inds = set()
        if len(pc.t) == 1:
            (m, k), = pc.t.items()
            if k == 1:
                ok = True
                r = Poly({})
                for mo, co in pb.t.items():
                    if not (m <= mo):
                        ok = False
                        break
                    r = alg._add(r, Poly({mo - m: co}))
                if ok:
                    return low(r)
        if len(pc.t) == 2 and pc.t.get(ONE) == 1:
            # c = 1 - ind
            (m, k), = [x for x in pc.t.items() if x[0] != ONE]
            v = Poly({mo: co for mo, co in pb.t.items() if not (m <= mo)})
            if low(alg._mul(v, pc)) == low(pb) or alg._mul(v, pc) == pb:
                return low(v)
        return None

    # ---- while
    def while_test(self, s):
        """`while True: if c: break` tests at its head: the loop `while not c`."""
        if not hasattr(s, '_norm'):
            s._norm = s
            h = s.body[0]
            if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and isinstance(h, ast.If):
                if len(h.body) == 1 and isinstance(h.body[0], ast.Break):
                    n, body = ast.UnaryOp(ast.Not(), h.test), h.orelse + s.body[1:]
                elif len(h.orelse) == 1 and isinstance(h.orelse[0], ast.Break):
                    n, body = h.test, h.body + s.body[1:]
                else:
                    return s
                if body:
                    s._norm = ast.fix_missing_locations(ast.copy_location(ast.While(ast.copy_location(n, h.test), body, []), s))
                    for k, v in s.__dict__.items():
                        if k.startswith('_') and k != '_norm':
                            setattr(s._norm, k, v)
                    s._norm._norm = s._norm
        return s._norm

    def counted(self, s):
        """A loop `while c < e: ...; c += 1` whose body changes neither c nor e: (c, e), else None."""
        if hasattr(s, '_counted'):
            return s._counted
        s._counted = None
        t, neg = s.test, False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        if not isinstance(t, ast.Compare) or len(t.ops) != 1 or type(t.ops[0]) not in (ast.Lt, ast.LtE, ast.Gt, ast.GtE) or s.orelse:
            return None
        op, l, e = type(t.ops[0]), t.left, t.comparators[0]
        if neg:
            op = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}[op]
        if op in (ast.Gt, ast.GtE):
            op, l, e = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op], e, l
        h = s.body[-1]
        if not isinstance(l, ast.Name) or len(s.body) < 2:
            return None
        one = isinstance(h, ast.AugAssign) and isinstance(h.op, ast.Add) and isinstance(h.target, ast.Name) and h.target.id == l.id and isinstance(h.value, ast.Constant) and h.value.value == 1
        if not one and isinstance(h, ast.Assign) and len(h.targets) == 1 and isinstance(h.targets[0], ast.Name) and h.targets[0].id == l.id and isinstance(h.value, ast.BinOp) and isinstance(h.value.op, ast.Add):
            u, v = h.value.left, h.value.right
            if isinstance(u, ast.Constant):
                u, v = v, u
            one = isinstance(u, ast.Name) and u.id == l.id and isinstance(v, ast.Constant) and v.value == 1
        if not one:
            return None
        body = s.body[:-1]
        stored = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}

        def jumps(b):
            for x in b:
                if isinstance(x, ast.Continue):
                    return True
                if isinstance(x, (ast.For, ast.While, ast.FunctionDef)):
                    continue
                for f in ('body', 'orelse', 'finalbody', 'handlers'):
                    if jumps(getattr(x, f, None) or []):
                        return True
            return False
        if l.id in stored or jumps(body):
            return None
        lens = []

        def plain(x):
            if isinstance(x, ast.Name):
                return x.id not in stored and x.id != l.id
            if isinstance(x, ast.Constant):
                return True
            if isinstance(x, ast.BinOp):
                return plain(x.left) and plain(x.right)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and len(x.args) == 1 and isinstance(x.args[0], (ast.Name, ast.Attribute)):
                lens.append(x.args[0])
                return all(n.id not in stored for n in ast.walk(x.args[0]) if isinstance(n, ast.Name))
            return False
        if not plain(e):
            return None
        for x in lens:
            d = ast.dump(x)
            last = x.attr if isinstance(x, ast.Attribute) else x.id
            for b in body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Attribute) and n.attr == last and not isinstance(n.ctx, ast.Load):
                        return None
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'remove', 'clear', 'pop', 'popitem', 'update', 'add', 'setdefault', 'discard'):
                        v = n.func.value
                        if ast.dump(v) == d or getattr(v, 'attr', getattr(v, 'id', None)) == last:
                            return None
                    if isinstance(n, ast.Delete):
                        return None
        if op is ast.LtE:
            e = ast.BinOp(e, ast.Add(), ast.Constant(1))
        g = ast.For(ast.Name(l.id, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [ast.Name(l.id, ast.Load()), e], []), body, [])
        g.type_comment = None
        ast.fix_missing_locations(ast.copy_location(g, s))
        g._deadhead = frozenset(getattr(s, '_deadhead', ())) | {l.id}
        s._counted = (l.id, e, g)
        return s._counted

    def counted_for(self, s, c, st, sid):
        name, e, g = c
        lo, hi = self.ev(ast.copy_location(ast.Name(name, ast.Load()), s), st, sid), self.ev(ast.fix_missing_locations(ast.copy_location(e, s)), st, sid)
        end = phi(c_lt(lo, hi), hi, lo)
        h = ast.copy_location(ast.Name('%%end%d' % self.nuid, ast.Load()), s)
        self.nuid += 1
        st.loc[('v', sid, h.id)] = end
        g2 = ast.For(g.target, g.iter, g.body, [ast.copy_location(ast.Assign([g.target], h), s)])
        ast.copy_location(g2, s)
        g2.type_comment = None
        g2._deadhead = g._deadhead
        return self.s_For(g2, st, sid)

    def s_While(self, s, st, sid):
        s = self.while_test(s)
        F = 1
        exits = []
        for n in range(400):
            v = self.ev(s.test, st, sid)
            c = self.truth(st, v)
            if c == 0:
                st.fc = F
                r, e2 = self.finish_loop(st, [x for x in exits], s.orelse, sid)
                return r, e2
            if c != 1:
                break
            st.fc = 1
            if n == 0:
                # constant-true at entry: is the loop bounded by concrete values?
                if not self.concrete_while(s, st, sid):
                    break
            r, ex = self.block(s.body, st, sid)
            for kind, es, val in ex:
                if kind == 'continue':
                    r = es if r is None else self._joinfc(es, r)
                else:
                    es.fc = mul(F, es.fc)
                    exits.append((kind, es, val))
            if r is None:
                return self.finish_loop(None, exits, [], sid)
            F = mul(F, r.fc)
            st = r
            st.fc = 1
        st.fc = 1
        c = self.counted(s) if F == 1 and not exits else None
        if c is not None:
            return self.counted_for(s, c, st, sid)
        r, ex = self.sym_while(s, st, sid)
        for kind, es, val in ex:
            es.fc = mul(F, es.fc)
            exits.append((kind, es, val))
        if r is not None:
            r.fc = mul(F, r.fc)
        return self.finish_loop(r, exits, s.orelse, sid)

    def _joinfc(self, es, r):
        f, fr = es.fc, r.fc
        m = self.merge(f, es, r)
        m.fc = add(f, fr)
        return m

    def concrete_while(self, s, st, sid):
        """True when every name in the loop test currently has a concrete number."""
        # a name looked up in a dictionary whose keys are all known
        t = s.test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
        test = t
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isinstance(t.left, ast.Name):
            c = t.comparators[0]
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'keys' and not c.args:
                c = c.func.value
            if isinstance(c, (ast.Name, ast.Attribute)) and isinstance(st.loc.get(('v', sid, t.left.id)), str):
                d = self.content(st, self.ev(c, st.copy(), sid))
                return isinstance(d, DictC) and not d.parts and all(isinstance(k, str) for k, _ in d.top)
            return False
        calls = [n for n in ast.walk(test) if isinstance(n, ast.Call)]
        pure = {'round', 'abs', 'min', 'max', 'len', 'int', 'float', 'ceil', 'floor'}
        if any(not (isinstance(c.func, ast.Name) and c.func.id in pure) for c in calls):
            return False
        fns = {id(c.func) for c in calls}
        names = [n.id for n in ast.walk(test) if isinstance(n, ast.Name) and id(n) not in fns]
        if names and not any(isinstance(n, ast.Attribute) for n in ast.walk(test)) and all(
                isnum(v) and not isinstance(v, bool) for v in (st.loc.get(('v', sid, n)) for n in names)):
            return True
        # an ordering of two numbers whose values are known up to a common symbol
        for t in test.values if isinstance(test, ast.BoolOp) else [test]:
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t = t.operand
            if not isinstance(t, ast.Compare) or any(not isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in t.ops):
                return False
            for x in [t.left] + t.comparators:
                v = self.ev(x, st.copy(), sid)
                if isinstance(v, bool) or not (isnum(v) or isinstance(v, Poly) or isinstance(v, Term) and v.ty == 'num' and v.op in ('sym', 'attr')):
                    return False
        return True

    def sym_while(self, s, st0, sid):
        self.nuid += 1
        fn = self.callstack[-1]
        W = mk('iter', fn.fn.qual if fn.fn else '?', len([w for w in self.whiles if w['fn'] == (fn.fn.qual if fn.fn else '?')]), *self.active)
        hav = {}
        rl = self.trystack[-1] if self.trystack else self.raises
        n_r = len(rl)
        nref0, nw = self.nref, len(self.whiles)
        mc = {}
        st_in = st0
        for attempt in range(12):
            rl = self.trystack[-1] if self.trystack else self.raises
            del rl[n_r:]
            del self.whiles[nw:]
            self.nref = nref0
            st0 = self.carry_in(st_in, mc)
            x = st0.copy()
            x.fc = 1
            x.loc[('log',)] = ()
            for k, subs in hav.items():
                self.apply_havoc(x, k, subs)
            start = dict(x.loc)
            head = x.copy()
            self.active.append(W)
            try:
                info = {'fn': fn.fn.qual if fn.fn else '?', 'W': W}
                self.whiles.append(info)
                c = self.truth(x, self.ev(s.test, x, sid))
                info['cond'] = c
                if c == 0:
                    r, ex = None, []
                else:
                    x.assume(c) if c != 1 else None
                    r, ex = self.block(s.body, x, sid)
                    for kind, es, v in ex:
                        if kind == 'continue':
                            r = es if r is None else self._joinfc(es, r)
                    ex = [e for e in ex if e[0] != 'continue']
            finally:
                self.active.pop()
            ends = [y for y in [r] + [es for k_, es, _ in ex if k_ == 'break'] if y is not None]
            new = self.carry_new(start, st0, ends, W, mc) or self.need_havoc(start, st0, ends, W, hav)
            if not new:
                break
        info['start'], info['end'], info['init'], info['exits'], info['hav'] = start, r, st0, ex, hav
        # state after the loop: havocked values, condition false (or a break state)
        fin = head
        body_log = r.loc.get(('log',), ()) if r is not None else ()
        out = []
        for kind, es, v in ex:
            bl = es.loc.get(('log',), ())
            l0 = st0.loc.get(('log',), ())
            es.loc[('log',)] = norm_seq(l0 + (('f', W, body_log),) + bl)
            out.append((kind, es, v))
        fin.loc[('log',)] = norm_seq(st0.loc.get(('log',), ()) + (('f', W, body_log),))
        # attributes written per iteration on loop-independent objects keep their havocked value
        if r is not None:
            for k, v in r.loc.items():
                if k not in fin.loc and k[0] != 'log':
                    fin.loc[k] = v
        try:
            c2 = self.truth(fin, self.ev(s.test, fin.copy(), sid))
        except Dead:
            c2 = 1
        if c2 == 1:
            return None, self._relax(out)
        if c2 != 0:
            fin.assume(c_not(c2))
        fin.fc = 1
        if any(k == 'break' for k, _, _ in out):
            # undetermined which exit is taken: weight by an opaque condition per exit
            w = ind('whilebreak', W)
            res = []
            for kind, es, v in out:
                es.fc = mul(w, es.fc) if kind == 'break' else es.fc
                res.append((kind, es, v))
            fin.fc = c_not(w)
            return fin, res
        return fin, out

    def _relax(self, out):
        # leaving only through break/return: the exits cover
        if len(out) == 1:
            k, es, v = out[0]
            es.fc = 1
        return out

    # ---- try
    def s_Try(self, s, st, sid):
        rec = []
        self.trystack.append(rec)
        s0 = st.copy()
        try:
            r, ex = self._safe(lambda x: self.block(s.body, x, sid), st)
        finally:
            self.trystack.pop()
        if r is not None and s.orelse:
            f = r.fc
            r, e2 = self.block(s.orelse, r, sid)
            if r is not None:
                r.fc = mul(f, r.fc)
            ex += [(k, es, v) for k, es, v in e2]
        exits = list(ex)
        for rz in rec:
            h = None
            for hd in s.handlers:
                if hd.type is None or self.exc_match(hd.type, rz.exc):
                    h = hd
                    break
            if h is None:
                (self.trystack[-1] if self.trystack else self.raises).append(rz)
                continue
            hs = rz.st
            base = len(s0.conds)
            w = 1
            for c in hs.conds[base:]:
                w = mul(w, c)
            for b in rz.binders[len(self.active):]:
                if b.op in ('elem', 'key'):
                    w = exists(b, w)
            if h.name:
                hs.loc[('v', sid, h.name)] = mk('exc', rz.exc)
            hs.fc = 1
            hr, hex_ = self._safe(lambda x: self.block(h.body, x, sid), hs)
            for k, es, v in hex_:
                es.fc = mul(w, es.fc)
                exits.append((k, es, v))
            if hr is not None:
                hf = mul(w, hr.fc)
                if r is None:
                    r = hr
                    r.fc = hf
                else:
                    rf = r.fc
                    r = self.merge(w, hr, r)
                    r.fc = add(hf, mul(c_not(w), rf))
            elif hex_ and r is not None:
                r.fc = mul(c_not(w), r.fc)
        if s.finalbody and r is not None:
            f = r.fc
            r, e2 = self.block(s.finalbody, r, sid)
            if r is not None:
                r.fc = mul(f, r.fc)
        return r, exits

    def exc_match(self, t, name):
        if isinstance(t, ast.Tuple):
            return any(self.exc_match(x, name) for x in t.elts)
        n = ast.unparse(t).split('.')[-1]
        name = name.split('.')[-1]
        if n in ('Exception', 'BaseException') or n == name:
            return True
        if name == '*':
            return True
        return n == 'LookupError' and name in ('KeyError', 'IndexError')

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, sid):
        t = type(e).__name__
        m = getattr(self, 'e_' + t, None)
        if m is None:
            return self.unknown('expr ' + t)
        return m(e, st, sid)

    def e_Constant(self, e, st, sid):
        if isinstance(e.value, float):
            return frac(e.value)
        return e.value

    def e_Name(self, e, st, sid):
        n = e.id
        v = st.loc.get(('v', sid, n), UNB)
        if v is not UNB:
            return v
        fr = self.callstack[-1]
        p = fr.closure
        while p is not None:
            v = st.loc.get(('v', p[0], n), UNB)
            if v is not UNB:
                return v
            p = p[1]
        return self.global_name(fr.mod, n)

    def global_name(self, m, n):
        if m is not None:
            if n in m.classes:
                return ClassV(n)
            if n in m.funcs:
                return FuncV(fn=m.funcs[n])
            if n in m.imports:
                return self.imported(m.imports[n])
            if n in m.consts:
                r = self.const_of(m, n)
                if r is not None:
                    return r[0]
        if n in BUILTINS:
            return ExtV(n)
        if n in EXCS:
            return ExtV('exc:' + n)
        return self.unknown('name ' + n)

    def e_Tuple(self, e, st, sid):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, sid)
                ps = self.parts_of(st, v)
                if all(p[0] == 'x' for p in ps):
                    out += [p[1] for p in ps]
                else:
                    out.append(self.unknown('star'))
            else:
                out.append(self.ev(x, st, sid))
        return tuple(out)

    def e_List(self, e, st, sid):
        seq = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                seq += list(self.parts_of(st, self.ev(x.value, st, sid)))
            else:
                seq.append(('x', self.ev(x, st, sid)))
        return self.newref(st, ListC(seq))

    def e_Set(self, e, st, sid):
        return self.newref(st, ListC(self.models.unique([('x', self.ev(x, st, sid)) for x in e.elts]), 'set'))

    def e_Dict(self, e, st, sid):
        c = DictC()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, st, sid)
                oc = self.content(st, o)
                if isinstance(oc, DictC):
                    c = DictC(c.flushed() + oc.parts, oc.top) if oc.parts else self._update(c, oc)
                else:
                    self.unknown('dict star')
                continue
            c = c.with_set(self.fz(self.ev(k, st, sid), st), self.ev(v, st, sid))
        return self.newref(st, c)

    def _update(self, c, oc):
        for k, v in oc.top:
            c = c.with_set(k, v)
        return c

    def e_JoinedStr(self, e, st, sid):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, st, sid)
                if x.format_spec is not None:
                    parts.append(mk('fmt', self.fz(v, st), ast.unparse(x.format_spec), ty='str'))
                else:
                    parts.append(self.to_str(v, st))
        return self.cat(parts)

    def to_str(self, v, st):
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, int):
            return str(v)
        if isinstance(v, Term) and v.ty == 'str':
            return v
        if isinstance(v, Phi):
            return self.lift1(lambda x: self.to_str(x, st), v)
        return mk('strof', self.fz(v, st), ty='str')

    def lift1(self, f, v):
        if isinstance(v, Phi):
            r = NIL
            for w, x in v.alts:
                y = f(x)
                r = y if r is NIL else phi(w, y, r)
            return None if r is NIL else r
        return f(v)

    def cat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Phi):
                i = parts.index(p)
                return self.lift1(lambda x: self.cat(list(parts[:i]) + [x] + list(parts[i + 1:])), p)
            if isinstance(p, Term) and p.op == 'cat':
                q = list(p.args)
            else:
                q = [p]
            for x in q:
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != '':
                    out.append(x)
        if not out:
            return ''
        if len(out) == 1:
            return out[0]
        return mk('cat', *out, ty='str')

    def e_BinOp(self, e, st, sid):
        a = self.ev(e.left, st, sid)
        b = self.ev(e.right, st, sid)
        return self.binop(type(e.op).__name__, a, b, st)

    def e_UnaryOp(self, e, st, sid):
        v = self.ev(e.operand, st, sid)
        op = type(e.op).__name__
        if op == 'Not':
            return self.boolv(c_not(self.truth(st, v)))
        if op == 'USub':
            return self.binop('Mult', -1, v, st)
        if op == 'UAdd':
            return v
        return self.unknown('unary ' + op)

    def boolv(self, c):
        c = low(poly(c))
        if c == 1:
            return True
        if c == 0:
            return False
        return c

    def e_BoolOp(self, e, st, sid):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], st, sid)
        return self._boolop(isand, v, e.values[1:], st, sid)

    def _boolop(self, isand, v, rest, st, sid):
        if not rest:
            return v
        c = self.truth(st, v)
        if c == (0 if isand else 1):
            return v
        if c == (1 if isand else 0):
            return self._boolop(isand, self.ev(rest[0], st, sid), rest[1:], st, sid)
        s2 = st.copy()
        s2.assume(c if isand else c_not(c))
        try:
            w = self._boolop(isand, self.ev(rest[0], s2, sid), rest[1:], s2, sid)
        except Dead:
            return v
        self.absorb(st, c if isand else c_not(c), s2)
        cw = None
        if self.isboolv(v) and self.isboolv(w):
            cw = self.truth(s2, w)
            return self.boolv(mul(c, cw) if isand else c_or(c, cw))
        # non-boolean operands: only their truth value matters almost everywhere
        return self.mergev(c, w, v, st, s2, st) if isand else self.mergev(c, v, w, st, st, s2)

    def isboolv(self, v):
        return isinstance(v, bool) or is_ind(v) or isinstance(v, Poly) and alg._isbool(v)

    def absorb(self, st, c, s2):
        """Fold side effects of a conditionally evaluated sub-expression into st."""
        if s2.loc == st.loc:
            return
        ch = False
        for k, v in s2.loc.items():
            if st.loc.get(k, UNB) is not v:
                ch = True
                break
        if not ch:
            return
        m = self.merge(c, s2, st)
        st.loc = m.loc

    def e_IfExp(self, e, st, sid):
        c = self.truth(st, self.ev(e.test, st, sid))
        if c == 1:
            return self.ev(e.body, st, sid)
        if c == 0:
            return self.ev(e.orelse, st, sid)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(c_not(c))
        try:
            a = self.ev(e.body, s1, sid)
        except Dead:
            a = UNB
        try:
            b = self.ev(e.orelse, s2, sid)
        except Dead:
            b = UNB
        if a is UNB and b is UNB:
            raise Dead()
        m = self.merge(c, s1 if a is not UNB else None, s2 if b is not UNB else None)
        st.loc = m.loc
        return self.mergev(c, a, b, st, s1, s2)

    def e_Compare(self, e, st, sid):
        a = self.ev(e.left, st, sid)
        r = 1
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, st, sid)
            r = mul(r, self.compare(type(op).__name__, a, b, st))
            a = b
        return self.boolv(simp(r, st.facts))

    def compare(self, op, a, b, st):
        if op in ('Eq', 'NotEq', 'Is', 'IsNot'):
            r = self.eqv(a, b, st, op in ('Is', 'IsNot'))
            return c_not(r) if op in ('NotEq', 'IsNot') else r
        if op in ('In', 'NotIn'):
            r = self.contains(st, b, a)
            return c_not(r) if op == 'NotIn' else r
        if isinstance(a, Phi) and not numeric(a) or isinstance(b, Phi) and not numeric(b):
            r = 0
            for w1, x in alts(a):
                for w2, y in alts(b):
                    w = simp(mul(w1, w2), st.facts)
                    if w == 0:
                        continue
                    r = add(r, mul(w, self.compare(op, x, y, st)))
            return r
        for x, y, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op))):
            c = self.content(st, x) if isinstance(x, Term) else None
            if o and isinstance(c, MatC) and len(c.shape) == 1 and numeric(y) and all(numeric(e) for e in c.e) and not (isinstance(y, Term) and (ismat(y) or self.content(st, y) is not None)):
                # an array of entries compared with a number, entry by entry
                return self.newref(st, MatC(c.shape, [self.compare(o, e, y, st) for e in c.e]))
        if a is None or b is None or isinstance(a, (str, tuple)) and not isinstance(b, (Term, str, tuple)):
            return ind('badcmp', op, _hz(a), _hz(b))
        if isinstance(a, str) and isinstance(b, str):
            return int({'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b}[op])
        try:
            if op == 'Lt':
                return c_lt(a, b)
            if op == 'Gt':
                return c_lt(b, a)
            if op == 'LtE':
                return c_not(c_lt(b, a))
            if op == 'GtE':
                return c_not(c_lt(a, b))
        except TypeError:
            pass
        self.unknown('compare ' + op)
        return ind('cmp', op, _hz(self.fz(a, st)), _hz(self.fz(b, st)))

    def eqv(self, a, b, st, ident=False):
        if isinstance(a, Phi) or isinstance(b, Phi):
            r = 0
            for w1, x in alts(a):
                for w2, y in alts(b):
                    w = simp(mul(w1, w2), st.facts)
                    if w == 0:
                        continue
                    r = add(r, mul(w, self.eqv(x, y, st, ident)))
            return simp(r, st.facts)
        if isinstance(a, Term) and isinstance(b, Term) and a is b:
            return 1
        for x, y in ((a, b), (b, a)):
            if y is None and self.nullable(x):
                return simp(ind('is', x, None), st.facts)
        ca, cb = self.content(st, a), self.content(st, b)
        if not ident and (ca is not None or cb is not None):
            for x, y, cx, cy in ((a, b, ca, cb), (b, a, cb, ca)):
                if isinstance(cx, DictC) and isinstance(cy, DictC) and not cy.parts and not cy.top:
                    return c_not(self.nonempty(st, x, cx))
                if isinstance(cx, ListC) and isinstance(cy, ListC) and not cy.seq:
                    return c_not(self.nonempty(st, x, cx))
                if isinstance(cx, ListC) and isinstance(cy, ListC) and cx.concrete() is not None and cy.concrete() is not None:
                    return c_eq(tuple(cx.concrete()), tuple(cy.concrete()))
                if y is None:
                    return 0
        if (a is None and cb is not None) or (b is None and ca is not None):
            return 0
        if (a is None and b is not None and isinstance(b, Term) and self.never_none(b)) or (b is None and isinstance(a, Term) and self.never_none(a)):
            return 0
        if isinstance(a, (FuncV, ClassV, ExtV)) or isinstance(b, (FuncV, ClassV, ExtV)):
            return 1 if a == b else 0
        for x, y in ((a, b), (b, a)):
            # a string never equals an object of one of the package's classes
            if isinstance(y, Term) and y.ty in self.repo.classes and (isinstance(x, str) or isinstance(x, Term) and x.ty == 'str') and self.repo.method(y.ty, '__eq__') is None:
                return 0
        r = c_eq(a, b)
        return simp(int(r) if isinstance(r, bool) else r, st.facts)

    def never_none(self, t):
        return t.ty in ('num',) and t.op not in ('hv', 'sym') and t.op in ('P', 'sum', 'idx', 'at') or t.op in ('new', 'elem', 'key')

    def none_check(self, coll, st):
        """Using an attribute that may be None as a container fails when it is None."""
        if self.nullable(coll):
            n = simp(ind('is', coll, None), st.facts)
            if n != 0:
                s2 = st.copy()
                if s2.assume(n):
                    self.do_raise(s2, 'TypeError', implicit=True)
                if n == 1:
                    raise Dead()
                st.assume(c_not(n))

    def contains(self, st, coll, x):
        if isinstance(coll, Phi):
            r = 0
            for w, y in coll.alts:
                w = simp(w, st.facts)
                if w == 0:
                    continue
                r = add(r, mul(w, self.contains(st, y, x)))
            return r
        if isinstance(x, Phi):
            r = 0
            for w, y in x.alts:
                w = simp(w, st.facts)
                if w == 0:
                    continue
                r = add(r, mul(w, self.contains(st, coll, y)))
            return r
        if coll is None:
            self.do_raise(st, 'TypeError', implicit=True)
            raise Dead()
        self.none_check(coll, st)
        if isinstance(coll, (tuple, list)):
            r = 0
            for y in coll:
                r = c_or(r, self.eqv(x, y, st))
            return simp(r, st.facts)
        if isinstance(coll, str) and isinstance(x, str):
            return 1 if x in coll else 0
        c = self.content(st, coll)
        if isinstance(c, DictC):
            v = dict_get(c, self.fz(x, st))
            return simp(self.present(v, coll, x), st.facts)
        if isinstance(c, ListC):
            return simp(self.seq_contains(c.seq, x, st), st.facts)
        return ind('in', self.fz(x, st), self.fz(coll, st))

    def nullable(self, t):
        return isinstance(t, Term) and t.op == 'attr' and isinstance(t.args[0], Term) and (t.args[0].ty, t.args[1]) in NULLABLE

    def present(self, v, coll, x):
        if v is MISSING:
            return 0
        if isinstance(v, Phi):
            r = 0
            for w, y in v.alts:
                r = add(r, mul(w, self.present(y, coll, x)))
            return r
        if isinstance(v, Term):
            if v.op == 'item':
                d, k = v.args
                if isinstance(k, Term) and k.op in ('key',) and k.args[0] is d:
                    return 1
                return ind('in', k, d)
            if v.op in ('elem', 'key'):
                return 1
            if isinstance(x, Term) and x.op == 'attr' and x.args[0] is v and v.ty in dom.NAMED:
                return 1    # the object registered under its own name
            if v.op == 'ind' and v.args[0] == 'truthy' and isinstance(v.args[1], Term) and v.args[1].op == 'item':
                return ind('in', v.args[1].args[1], v.args[1].args[0])
        return 1

    def seq_contains(self, seq, x, st):
        r = 0
        for p in seq:
            if p[0] == 'x':
                r = c_or(r, self.eqv(p[1], x, st))
            elif p[0] == 'c':
                r = c_or(r, mul(p[1], self.seq_contains(p[2], x, st)))
            elif p[0] == 'f':
                r = c_or(r, exists(p[1], self.seq_contains(p[2], x, st)))
            else:
                xf = self.fz(x, st)
                if isinstance(xf, Term) and xf.op in ('elem', 'key') and xf.args[0] is p[1]:
                    return 1
                r = c_or(r, ind('in', xf, p[1]))
        return r

    # ---- attribute / subscript
    def e_Attribute(self, e, st, sid):
        o = self.ev(e.value, st, sid)
        return self.get_attr(st, o, e.attr)

    def get_attr(self, st, o, a):
        if isinstance(o, Phi):
            r = NIL
            s_any = None
            for w, x in o.alts:
                if simp(w, st.facts) == 0:
                    continue
                if x is None or x is UNB or x is MISSING:
                    continue
                s2 = st.copy()
                s2.assume(w)
                v = self.get_attr(s2, x, a)
                if isinstance(v, FuncV):
                    return FuncV(node=('phi', o, a))
                self.absorb(st, w, s2)
                r = v if r is NIL else self.mergev(w, v, r, st, s2, st)
            return r if r is not NIL else self.unknown('attr of none')
        if isinstance(o, ModV):
            return self.imported(o.name + '.' + a) if not o.name.startswith('PyNite.') or True else None
        if isinstance(o, ClassV):
            f = self.repo.method(o.name, a)
            if f is not None:
                return FuncV(fn=f, cls=o)
            return self.class_const(st, o.name, a)
        if isinstance(o, SuperV):
            mro = self.repo.mro(o.cls)
            for c in mro[1:]:
                if a in c.methods:
                    return self.bind(c.methods[a], o.self_, st)
            return self.unknown('super.' + a)
        if isinstance(o, Term):
            if o.op == 'exc':
                return self.unknown('exc attr')
            v = st.loc.get(('a', o, a), UNB)
            if v is not UNB:
                return v
            cls = self.cls_of(o)
            if cls is not None:
                f = self.repo.method(cls, a)
                if f is not None:
                    if f.prop:
                        return self.call_func(f, o, [], {}, st)
                    return self.bind(f, o, st)
                # generic element written for the whole collection
                g = self.generic(st, o, a, cls)
                if g is not UNB:
                    return g
                v = self.attr_default(o, a)
                if v is UNB:
                    k = self.class_const(st, cls, a, none=True)
                    if k is not UNB:
                        return k
                    return self.wrap(mk_attr(o, a, self.attr_ty(cls, a)))
                return v
            c = self.content(st, o)
            if c is not None or ismat(o) or o.ty == 'str':
                return self.models.value_attr(self, st, o, a)
            return self.wrap(mk_attr(o, a))
        if isinstance(o, (str, tuple)):
            return MethV(o, a)
        if isinstance(o, (Poly, int, Fraction)):
            return MethV(o, a)
        if isinstance(o, MethV):
            return MethV(o, a)
        if isinstance(o, ExtV):
            return ExtV(o.name + '.' + a)
        return self.unknown('attr ' + a)

    def attr_ty(self, cls, a):
        for c in self.repo.mro(cls):
            ty = TY.get(c.name, {}).get(a)
            if ty:
                return ty
        return None

    def generic(self, st, o, a, cls):
        """Attribute of o when it was written for every element of the collection holding o's class."""
        if o.op in ('new', 'sym'):
            return UNB
        for k in ((('a', e, a)) for e in self._elems(o)):
            v = st.loc.get(k, UNB)
            if v is not UNB:
                return subst(v, {k[1]: o}) if isinstance(v, (Term, Poly, Phi, tuple)) else v
        return UNB

    def _elems(self, o):
        if o.op == 'elem' and isinstance(o.args[1], int) and o.args[1] > 0:
            yield mk_elem(o.args[0], 0)

    def class_const(self, st, cls, a, none=False):
        for c in self.repo.mro(cls):
            if a in c.consts:
                self.callstack.append(_Frame(None, c.mod, None))
                try:
                    return self.ev(c.consts[a], st, 0)
                finally:
                    self.callstack.pop()
        return UNB if none else self.unknown('class attr ' + a)

    def cls_of(self, o):
        if o.op == 'new':
            return o.args[0]
        if o.ty in self.repo.classes:
            return o.ty
        return None

    def bind(self, f, o, st):
        if f.static:
            return FuncV(fn=f)
        return FuncV(fn=f, self_=o)

    def set_attr(self, st, o, a, v):
        if isinstance(o, Phi):
            for w, x in o.alts:
                if isinstance(x, Term):
                    old = self.get_attr(st, x, a) if ('a', x, a) in st.loc or x.op != 'new' else UNB
                    st.loc[('a', x, a)] = v if old is UNB else phi(w, v, old)
            return
        if not isinstance(o, Term):
            self.unknown('set attr on %s' % type(o).__name__)
            return
        cls = self.cls_of(o)
        if cls is not None:
            f = self.repo.method(cls, a + '.setter')
            if f is not None:
                self.call_func(f, o, [v], {}, st)
                return
        st.loc[('a', o, a)] = v

    def e_Subscript(self, e, st, sid):
        o = self.ev(e.value, st, sid)
        k = self.ev_index(e.slice, st, sid)
        return self.get_item(st, o, k)

    def ev_index(self, s, st, sid):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, st, sid) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, st, sid) for x in s.elts)
        return self.ev(s, st, sid)

    def e_Slice(self, e, st, sid):
        return self.ev_index(e, st, sid)

    def missing_check(self, st, c, k, o):
        v = dict_get(c, k)
        p = simp(self.present(v, o, k), st.facts)
        if p == 1:
            return
        s2 = st.copy()
        if not s2.assume(c_not(p)):
            return
        self.do_raise(s2, 'KeyError', implicit=True)
        if p == 0:
            raise Dead()
        st.assume(p)

    def get_item(self, st, o, k):
        if isinstance(o, Phi):
            r = NIL
            for w, x in o.alts:
                if simp(w, st.facts) == 0:
                    continue
                v = self.get_item(st, x, k)
                r = v if r is NIL else self.mergev(w, v, r, st, st, st)
            return None if r is NIL else r
        if isinstance(o, (tuple, str)):
            if isinstance(k, SliceV):
                if all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                    return o[k.a:k.b:k.c]
            if isinstance(k, int) and -len(o) <= k < len(o):
                return o[k]
            if isinstance(k, (Poly, Term)) and isinstance(o, tuple) and o:
                r = o[-1]
                for i in range(len(o) - 1):
                    r = phi(c_eq(k, i), o[i], r)
                return r
            return self.unknown('tuple index')
        if not isinstance(o, Term):
            return self.unknown('index of %s' % type(o).__name__)
        c = self.content(st, o)
        if isinstance(c, DictC):
            if isinstance(k, SliceV):
                return self.unknown('slice of record')
            kf = self.fz(k, st)
            if (self.implicit or self.trystack) and o.ty not in REC:
                self.missing_check(st, c, kf, o)
            if o.ty in REC and isinstance(kf, int):
                kf = kf % len(REC[o.ty])
            v = dict_get(c, kf)
            if isinstance(v, Phi) and st.facts:
                left = [(w, x) for w, x in v.alts if simp(w, st.facts) != 0]
                if len(left) == 1:
                    v = left[0][1]
            if v is MISSING:
                self.do_raise(st, 'KeyError', implicit=True)
                raise Dead()
            if isinstance(v, Phi) and any(x is MISSING for _, x in v.alts):
                r = NIL
                for w, x in v.alts:
                    if x is MISSING:
                        continue
                    r = x if r is NIL else phi(w, x, r)
                v = r
            return self.wrap(v)
        if isinstance(c, ListC):
            return self.list_index(st, o, c, k)
        r = self.models.mat_index(self, st, o, k)
        if r is not None:
            return r
        if isinstance(k, SliceV):
            return mk('slice', o, _hz(k.a), _hz(k.b), _hz(k.c), ty=o.ty)
        return self.wrap(mk_item(o, self.fz(k, st)))

    def list_index(self, st, o, c, k):
        l = c.concrete()
        if isinstance(k, SliceV):
            if l is not None and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                return self.newref(st, ListC([('x', v) for v in l[k.a:k.b:k.c]], c.kind))
            return mk('slice', self.fz(o, st), _hz(k.a), _hz(k.b), _hz(k.c), ty=o.ty or 'list:?')
        if isinstance(k, Phi):
            return self.lift1(lambda x: self.list_index(st, o, c, x), k)
        if isinstance(k, int) and not isinstance(k, bool):
            if l is not None:
                if -len(l) <= k < len(l):
                    return l[k]
                self.do_raise(st, 'IndexError', implicit=True)
                raise Dead()
            # leading / trailing definite items
            seq = c.seq
            if k >= 0 and len(seq) > k and all(p[0] == 'x' for p in seq[:k + 1]):
                return seq[k][1]
            if k < 0 and len(seq) >= -k and all(p[0] == 'x' for p in seq[k:]):
                return seq[k][1]
            if k == 0 and len(seq) == 1 and seq[0][0] == 'f':
                B, s = seq[0][1], seq[0][2]
                if len(s) == 1 and s[0][0] == 'c' and len(s[0][2]) == 1 and s[0][2][0][0] == 'x':
                    return subst(s[0][2][0][1], {B: mk('first', B.args[0], B, low(poly(s[0][1])), ty=B.ty)})
            if len(seq) == 1 and seq[0][0] == 'b':
                return self.wrap(mk_item(seq[0][1], k))
            if isinstance(k, Term) and k.op == 'idx' and len(seq) == 1 and seq[0][0] == 'f' and len(seq[0][2]) == 1 and seq[0][2][0][0] == 'x' \
                    and isinstance(k.args[0], Term) and k.args[0].args[0] is seq[0][1].args[0]:
                return subst(seq[0][2][0][1], {seq[0][1]: k.args[0]})
        if l is not None and isinstance(k, (Term, Poly)) and l and numeric(k):
            if len(l) <= 64:
                r = l[-1]
                for i in range(len(l) - 1):
                    r = phi(c_eq(k, i), l[i], r)
                return r
        f = self.fz(o, st)
        et = None
        if isinstance(f, Term) and f.op == 'seq':
            et = self.seq_ty(c.seq)
        elif isinstance(f, Term):
            et = ctype(f)
        k = self.fz(k, st)
        if isinstance(f, Term) and isinstance(k, Term) and k.op == 'idx':
            return self.wrap(mk_item(f, k))
        return self.wrap(mk('item', f, k, ty=et))

    def seq_ty(self, seq):
        for p in seq:
            if p[0] == 'x':
                v = p[1]
                return 'num' if numeric(v) else getattr(v, 'ty', None)
            if p[0] == 'c':
                t = self.seq_ty(p[2])
                if t:
                    return t
            if p[0] == 'f':
                t = self.seq_ty(p[2])
                if t:
                    return t
            if p[0] == 'b':
                return ctype(p[1])
        return None

    def set_item(self, st, o, k, v):
        if isinstance(o, Phi):
            for w, x in o.alts:
                s2 = st.copy()
                self.set_item(s2, x, k, v)
                self.absorb(st, w, s2)
            return
        c = self.content(st, o)
        if isinstance(c, DictC):
            kf = self.fz(k, st)
            if o.ty in REC and isinstance(kf, int):
                kf = kf % len(REC[o.ty])
            if isinstance(kf, Phi):
                for w, x in kf.alts:
                    old = dict_get(c, x)
                    c = c.with_set(x, phi(w, v, old))
                st.loc[('r', o)] = c
                return
            st.loc[('r', o)] = c.with_set(kf, v)
            return
        if isinstance(c, ListC):
            l = c.concrete()
            if l is not None and isinstance(k, int) and -len(l) <= k < len(l):
                l[k] = v
                st.loc[('r', o)] = ListC([('x', x) for x in l], c.kind)
                return
            if l is not None and isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                new = v if isinstance(v, tuple) else None
                if new is None and isinstance(v, Term):
                    cv = self.content(st, v)
                    new = cv.concrete() if isinstance(cv, ListC) else None
                if new is not None and (k.c is None or len(range(*slice(k.a, k.b, k.c).indices(len(l)))) == len(new)):
                    l = list(l)
                    l[k.a:k.b:k.c] = list(new)
                    st.loc[('r', o)] = ListC([('x', x) for x in l], c.kind)
                    return
            if l is not None and isinstance(k, (Term, Poly)):
                st.loc[('r', o)] = ListC([('x', phi(c_eq(k, i), v, x)) for i, x in enumerate(l)], c.kind)
                return
            st.loc[('r', o)] = ListC((('b', self.unknown('list store', c.seq, _hz(k), _hz(v), ty='list:?')),), c.kind)
            return
        if self.models.external(o):
            self.log(st, ('call', '__setitem__', o, ((0, self.fz(k, st)), (1, self.fz(v, st)))))
        elif not self.models.mat_store(self, st, o, k, v):
            self.unknown('store')

    # ---- comprehension
    def comp(self, e, st, sid, emit):
        def gen(i, x):
            if i == len(e.generators):
                emit(x)
                return x, []
            g = e.generators[i]
            it = self.ev(g.iter, x, sid)

            def body(y, v):
                self.assign(g.target, v, y, sid)

                def conds(j, z):
                    if j == len(g.ifs):
                        return gen(i + 1, z)
                    c = self.truth(z, self.ev(g.ifs[j], z, sid))
                    return self.branch(c, z, lambda q: conds(j + 1, q), lambda q: (q, []))
                return conds(0, y)
            return self.run_seq(x, self.parts_of(x, it), body)
        r, ex = gen(0, st)
        if r is None:
            raise Dead()
        st.loc, st.conds, st.facts = r.loc, r.conds, r.facts

    def e_ListComp(self, e, st, sid):
        ref = self.newref(st, ListC())

        def emit(x):
            v = self.ev(e.elt, x, sid)
            c = x.loc[('r', ref)]
            x.loc[('r', ref)] = ListC(c.seq + (('x', v),))
        saved = {k: v for k, v in st.loc.items() if k[0] == 'v' and k[1] == sid}
        self.comp(e, st, sid, emit)
        self._unscope(st, sid, saved)
        return ref

    def _unscope(self, st, sid, saved):
        for k in [k for k in st.loc if k[0] == 'v' and k[1] == sid]:
            if k in saved:
                st.loc[k] = saved[k]
            else:
                del st.loc[k]

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, sid):
        r = self.e_ListComp(e, st, sid)
        c = st.loc[('r', r)]
        st.loc[('r', r)] = ListC(self.models.unique(c.seq), 'set')
        return r

    def e_DictComp(self, e, st, sid):
        ref = self.newref(st, DictC())

        def emit(x):
            k = self.fz(self.ev(e.key, x, sid), x)
            v = self.ev(e.value, x, sid)
            x.loc[('r', ref)] = x.loc[('r', ref)].with_set(k, v)
        saved = {k: v for k, v in st.loc.items() if k[0] == 'v' and k[1] == sid}
        self.comp(e, st, sid, emit)
        self._unscope(st, sid, saved)
        return ref

    def e_Lambda(self, e, st, sid):
        fr = self.callstack[-1]
        return FuncV(node=e, scope=(sid, fr.closure), mod=fr.mod, cls=fr.cls, dflt=self.local_defaults(e.args, st, sid))

    def local_defaults(self, a, st, sid):
        names = [x.arg for x in a.args]
        ds = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        ds += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        return {n: self.ev(d, st, sid) for n, d in ds}

    def e_Starred(self, e, st, sid):
        return self.ev(e.value, st, sid)

    def e_NamedExpr(self, e, st, sid):
        v = self.ev(e.value, st, sid)
        self.assign(e.target, v, st, sid)
        return v

    # ------------------------------------------------------------ iteration views
    def parts_of(self, st, v):
        """Value -> Seq parts for iteration."""
        if isinstance(v, tuple):
            return tuple(('x', x) for x in v)
        if isinstance(v, str):
            return tuple(('x', x) for x in v)
        if isinstance(v, Phi):
            out = ()
            for w, x in v.alts:
                w = simp(w, st.facts)
                if w == 0:
                    continue
                out += (('c', w, self.parts_of(st, x)),)
            return norm_seq(out)
        if isinstance(v, ListC):
            return v.seq
        if isinstance(v, Term):
            if v.op == 'range':
                n = low(poly(v.args[1])) if v.args[0] == 0 and v.args[2] == 1 else None
                if isinstance(n, Term) and n.op == 'len' and isinstance(n.args[0], Term) and (n.args[0].ty or '').startswith('list:'):
                    B = mk_elem(n.args[0], 0)
                    return (('f', B, (('x', mk('idx', B, ty='num')),)),)
            self.none_check(v, st)
            c = self.content(st, v)
            if isinstance(c, ListC):
                return c.seq
            if isinstance(c, DictC):
                if v.ty in REC:
                    return tuple(('x', self.get_item(st, v, i)) for i in range(len(REC[v.ty])))
                return self.dict_view(v, c, 'keys')
            if isinstance(c, MatC):
                if len(c.shape) == 1:
                    return tuple(('x', x) for x in c.e)
                return tuple(('x', self.newref(st, MatC((c.shape[1],), r))) for r in c.rows())
            if v.op == 'range':
                return (('b', v),)
            self.unknown('iterate')
            return (('b', mk('itercol', v, ty='list:?') if not (v.ty or '').startswith('list:') else v),)
        self.unknown('iterate %s' % type(v).__name__)
        return ()

    def dict_view(self, d, c, what):
        out = []

        def pick(k, v):
            return {'keys': k, 'values': v, 'items': (k, v)}[what]

        def walk(parts):
            res = []
            for p in parts:
                if p[0] == 'b':
                    D = p[1]
                    B = mk_elem(D, 0)
                    if B.op == 'elem':
                        k, v = mk_attr(B, 'name', 'str'), B
                    else:
                        k, v = B, self.wrap(mk('item', D, B, ty=ctype(D)))
                    g = 1
                    for kk, vv in c.top:
                        e = c_eq(kk, k)
                        g = mul(g, c_not(e))
                    res.append(('f', B, (('c', g, (('x', pick(k, v)),)),) if g != 1 else (('x', pick(k, v)),)))
                elif p[0] == 'x':
                    _, k, v = p[1]
                    if v is not MISSING:
                        res.append(('x', pick(k, v)))
                elif p[0] == 'c':
                    res.append(('c', p[1], tuple(walk(p[2]))))
                else:
                    res.append(('f', p[1], tuple(walk(p[2]))))
            return res
        out = walk(c.parts)
        for k, v in c.top:
            if v is MISSING:
                continue
            if isinstance(v, Phi) and any(x is MISSING for _, x in v.alts):
                for w, x in v.alts:
                    if x is not MISSING:
                        out.append(('c', w, (('x', pick(k, x)),)))
                continue
            out.append(('x', pick(k, v)))
        return norm_seq(tuple(out))

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, sid):
        if isinstance(e.func, ast.Name) and e.func.id == 'print' and st.loc.get(('v', sid, 'print'), UNB) is UNB:
            return None
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            fr = self.callstack[-1]
            return SuperV(fr.cls.name if fr.cls else None, st.loc.get(('v', sid, fr.selfname), UNB))
        f = self.ev(e.func, st, sid)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, sid)
                ps = self.parts_of(st, v)
                if all(p[0] == 'x' for p in ps):
                    args += [p[1] for p in ps]
                else:
                    args.append(self.unknown('star args'))
            else:
                args.append(self.ev(a, st, sid))
        for k in e.keywords:
            v = self.ev(k.value, st, sid)
            if k.arg is None:
                c = self.content(st, v)
                if isinstance(c, DictC) and not c.parts and all(isinstance(x, str) for x, _ in c.top):
                    for x, y in c.top:
                        kw[x] = y
                else:
                    self.unknown('kwargs')
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st)

    def call(self, f, args, kw, st):
        if isinstance(f, FuncV):
            if f.fn is not None:
                a = args
                self_ = f.self_
                if f.cls is not None and isinstance(f.cls, ClassV) and not f.fn.static and self_ is None:
                    # Class.method(obj, ...)
                    self_, a = args[0], args[1:]
                return self.call_func(f.fn, self_, a, kw, st)
            if isinstance(f.node, tuple) and f.node[0] == 'phi':
                r = NIL
                for w, x in f.node[1].alts:
                    w = simp(w, st.facts)
                    if w == 0 or x is None:
                        continue
                    s2 = st.copy()
                    s2.assume(w)
                    try:
                        v = self.call(self.get_attr(s2, x, f.node[2]), args, kw, s2)
                    except Dead:
                        continue
                    self.absorb(st, w, s2)
                    r = v if r is NIL else self.mergev(w, v, r, st, s2, st)
                return None if r is NIL else r
            return self.call_local(f, args, kw, st)
        if isinstance(f, ClassV):
            return self.construct(f.name, args, kw, st)
        if isinstance(f, ExtV):
            return self.models.ext_call(self, st, f.name, args, kw)
        if isinstance(f, MethV):
            return self.models.method_call(self, st, f.obj, f.name, args, kw)
        if isinstance(f, Phi):
            r = NIL
            for w, x in f.alts:
                w = simp(w, st.facts)
                if w == 0:
                    continue
                s2 = st.copy()
                s2.assume(w)
                try:
                    v = self.call(x, args, kw, s2)
                except Dead:
                    continue
                self.absorb(st, w, s2)
                r = v if r is NIL else self.mergev(w, v, r, st, s2, st)
            return None if r is NIL else r
        if isinstance(f, Term):
            return self.models.term_call(self, st, f, args, kw)
        return self.unknown('call %s' % type(f).__name__)

    def construct(self, cls, args, kw, st):
        self.nref += 1
        o = mk('new', cls, self.nref, *self.active, ty=cls)
        f = self.repo.method(cls, '__init__')
        q = self.opaque.get(cls)
        if f is not None and not q:
            self.call_func(f, o, args, kw, st)
        if q:
            b = self.bindargs(f, o, args, kw, st) if f is not None else {}
            self.log(st, ('new', cls, o, tuple((k, self.fz(v, st)) for k, v in b.items() if k != 'self')))
        return o

    def bindargs(self, f, self_, args, kw, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        vals = list(args)
        if f.cls is not None and not f.static:
            vals = [self_] + vals
        for n, v in zip(names, vals):
            b[n] = v
        extra = vals[len(names):]
        if a.vararg:
            b[a.vararg.arg] = tuple(extra)
        elif extra:
            self.unknown('too many args')
            self.do_raise(st, 'TypeError', implicit=True)
            raise Dead()
        kwextra = {}
        allnames = names + [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in allnames:
                b[k] = v
            else:
                kwextra[k] = v
        if a.kwarg:
            b[a.kwarg.arg] = self.newref(st, DictC((), tuple(kwextra.items())))
        elif kwextra:
            self.do_raise(st, 'TypeError', implicit=True)
            raise Dead()
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n in allnames:
            if n not in b:
                if n in defs:
                    b[n] = self.default_arg(f, n, defs[n], st)
                else:
                    self.do_raise(st, 'TypeError', implicit=True)
                    raise Dead()
        # in the order of the formals, however the call was written
        rest = [x.arg for x in (a.vararg, a.kwarg) if x is not None]
        return {n: b[n] for n in allnames + rest}

    def default_arg(self, f, n, node, st):
        if isinstance(node, (ast.List, ast.Dict, ast.Set)):
            # evaluated once at definition: a shared object
            t = mk('default', f.qual, n)
            if ('r', t) not in st.loc:
                tmp = State()
                self.callstack.append(_Frame(None, f.mod, None))
                try:
                    r = self.ev(node, tmp, 0)
                finally:
                    self.callstack.pop()
                st.loc[('r', t)] = tmp.loc[('r', r)]
            return t
        self.callstack.append(_Frame(None, f.mod, None))
        try:
            return self.ev(node, st, 0)
        finally:
            self.callstack.pop()

    def call_func(self, f, self_, args, kw, st):
        self.visited.add(f.qual)
        b = self.bindargs(f, self_, args, kw, st)
        quals = [f.qual]
        if f.cls is not None and isinstance(self_, Term):
            c = self.cls_of(self_)
            if c and c != f.cls.name:
                quals.insert(0, c + '.' + f.name)
        quals += ['*.' + f.name]
        for q in quals:
            if q in self.opaque:
                h = self.opaque[q]
                if callable(h):
                    r = h(self, st, self_, b, f)
                    if r is not NotImplemented:
                        return r
                    continue
                if h is None:
                    break
                return self.opaque_call(f, q, self_, b, st, h)
        if len(self.callstack) > self.maxdepth or sum(1 for x in self.callstack if x.fn is f) >= 2:
            return self.unknown('recursion ' + f.qual)
        return self.inline(f, b, st)

    def opaque_call(self, f, q, self_, b, st, ty):
        name = f.qual if f.cls is None else f.cls.name + '.' + f.name
        args = tuple(self.fz(v, st) for k, v in b.items() if not (f.cls is not None and not f.static and k == next(iter(b))))
        if isinstance(ty, tuple):      # (type, log?)
            ty, lg = ty
        else:
            lg = True
        t = mk('call', name, *((self_,) if f.cls is not None and not f.static else ()), *args, ty=ty or None)
        if lg:
            self.log(st, ('call', name, self_, tuple((k, self.fz(v, st)) for k, v in b.items())))
        return self.wrap(t)

    def inline(self, f, b, st):
        self.nscope += 1
        sid = self.nscope
        for k, v in b.items():
            st.loc[('v', sid, k)] = v
        fr = _Frame(f, f.mod, f.cls)
        fr.selfname = next(iter(b), None)
        self.callstack.append(fr)
        ln = getattr(self, 'line', 0)
        try:
            annotate(f.node)
            return self.run_body(f.node.body, st, sid)
        finally:
            self.callstack.pop()
            self.line = ln

    def call_local(self, f, args, kw, st):
        node = f.node
        self.nscope += 1
        sid = self.nscope
        a = node.args
        names = [x.arg for x in a.args]
        for n, v in zip(names, args):
            st.loc[('v', sid, n)] = v
        for k, v in kw.items():
            st.loc[('v', sid, k)] = v
        scope = f.scope if isinstance(f.scope, tuple) else (f.scope, None)
        for n, d in f.dflt.items():
            if ('v', sid, n) not in st.loc:
                st.loc[('v', sid, n)] = d
        fr = _Frame(None, f.mod, f.cls)
        fr.closure = scope
        self.callstack.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, st, sid)
                for n in names:
                    st.loc.pop(('v', sid, n), None)
                return v
            annotate(node)
            return self.run_body(node.body, st, sid)
        finally:
            self.callstack.pop()

    def run_body(self, body, st, sid):
        s = st.copy()
        r, exits = self.block(body, s, sid)
        outs = [(es.fc, es, v) for kind, es, v in exits if kind == 'return']
        if r is not None:
            outs.append((r.fc, r, None))
        outs = [o for o in outs if low(poly(o[0])) != 0]
        if not outs:
            st.loc, st.conds, st.facts = s.loc, s.conds, s.facts
            raise Dead()
        _, acc, val = outs[-1]
        for fc, es, v in reversed(outs[:-1]):
            m = self.merge(fc, es, acc)
            val = self.mergev(fc, v, val, m, es, acc)
            acc = m
        # drop the callee's local variables
        st.loc = {k: v for k, v in acc.loc.items() if not (k[0] == 'v' and k[1] == sid)} if not _escapes(val) else acc.loc
        st.conds, st.facts = acc.conds, acc.facts
        return val

    # ------------------------------------------------------------ freezing values into terms
    def fz(self, v, st):
        if isinstance(v, Term):
            c = st.loc.get(('r', v))
            if c is not None and v.op in ('ref', 'default'):
                return self.fz_content(c, st)
            return v
        if isinstance(v, tuple):
            return tuple(self.fz(x, st) for x in v)
        if isinstance(v, Phi):
            r = NIL
            for w, x in v.alts:
                y = self.fz(x, st)
                r = y if r is NIL else phi(w, y, r)
            return None if r is NIL else r
        if isinstance(v, FuncV):
            if v.fn is not None:
                return mk('func', v.fn.qual, self.fz(v.self_, st) if v.self_ is not None else None)
            return mk('lambda', ast.dump(v.node) if isinstance(v.node, ast.AST) else 'phi')
        if isinstance(v, SliceV):
            return mk('sl', _hz(v.a), _hz(v.b), _hz(v.c))
        if isinstance(v, (ClassV, ExtV, ModV)):
            return mk('name', getattr(v, 'name', '?'))
        if isinstance(v, MethV):
            return mk('meth', self.fz(v.obj, st), v.name)
        if isinstance(v, dict):
            return mk('pydict', repr(v))
        return v

    def fz_content(self, c, st):
        if isinstance(c, ListC):
            s = smap_seq(c.seq, lambda x: self.fz(x, st))
            if len(s) == 1 and s[0][0] == 'b':
                return s[0][1]
            return mk('seq', s, c.kind, ty='list:' + (self.seq_ty(s) or '?'))
        if isinstance(c, MatC):
            return mat_term(MatC(c.shape, [self.fz(x, st) for x in c.e]))
        if isinstance(c, ScatC):
            return mk('scat', c.shape, c.p, ty='mat:' + ','.join('N' if not isinstance(s, int) else str(s) for s in c.shape))
        if isinstance(c, DictC):
            if c.parts == () or True:
                return mk('dict', smap_seq(c.parts, lambda x: x if x is MISSING else self.fz(x, st)),
                          frozenset((self.fz(k, st), 'MISSING' if v is MISSING else self.fz(v, st)) for k, v in c.top))
        return mk('content', repr(c))


def splice(seq, h, init):
    """Replace the carried-in content of a list by what it held before the loop."""
    out = ()
    for p in seq:
        if p == ('b', h):
            out += tuple(init)
        elif p[0] == 'c':
            out += (('c', p[1], splice(p[2], h, init)),)
        else:
            out += (p,)
    return out


def _escapes(v):
    return isinstance(v, FuncV)


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def _hz(v):
    return v if _hashable(v) else repr(v)


class _Frame:
    __slots__ = ('fn', 'mod', 'cls', 'closure', 'selfname')

    def __init__(self, fn, mod, cls):
        self.fn, self.mod, self.cls, self.closure, self.selfname = fn, mod, cls, None, None


def _binop(self, op, a, b, st):
    return self.models.binop(self, op, a, b, st)


Interp.binop = _binop
