"""Effect analysis: which attributes and containers a function may modify, and from where the modified object comes.

A flow-sensitive may-alias analysis over the syntax tree with function summaries (all modules of the package, least
fixpoint over the call graph).  A value is a set of tokens (root, slot, type):
  root  ('p', name)  reachable from the parameter, ('d', qual, name) the default object of the parameter,
        ('g', name)  module level or class level state, ('n', site) created by the function
  slot  (class, attribute) through which the value was read, None for the root itself
  type  class name or container type where it is known (sa.types_.TY)
Numbers, strings and truth values are not tracked.  Calls of other libraries are assumed not to modify PyNite's objects.
"""
import ast
from .types_ import TY, REC
from .repo import PKG

MUTATORS = {'append', 'extend', 'insert', 'remove', 'clear', 'sort', 'reverse', 'pop', 'popitem', 'setdefault', 'update', 'add', 'discard', 'fill', 'itemset', 'put', 'resize'}
IMMUT = {'num', 'str', 'bool', 'num?', 'str!', 'str?'}
CONT = ('list', 'dict', 'set', 'items', 'mat')
COPIES = {'list', 'dict', 'tuple', 'set', 'sorted', 'frozenset', 'deepcopy', 'copy', 'array'}
PURE = {'len', 'str', 'int', 'float', 'abs', 'round', 'isinstance', 'hasattr', 'print', 'range', 'type', 'repr', 'bool', 'any', 'all', 'id', 'hash', 'format', 'callable', 'issubclass', 'super', 'complex', 'divmod', 'pow', 'ord', 'chr'}
EMPTY = frozenset()
MAXTOK = 60

ATTR_TY = {}
for _c, _d in TY.items():
    for _a, _t in _d.items():
        ATTR_TY.setdefault(_a, set()).add(_t)

EXTRA = {'Renderer': dict(model='FEModel3D')}
PARAM_TY = {'model': 'FEModel3D', 'node': 'Node3D', 'member': 'PhysMember', 'spring': 'Spring3D', 'plate': 'Plate3D', 'quad': 'Quad3D', 'nodes': 'list:Node3D',
            'i_node': 'Node3D', 'j_node': 'Node3D', 'm_node': 'Node3D', 'n_node': 'Node3D', 'combo': 'LoadCombo', 'combo_list': 'list:LoadCombo', 'segment': 'BeamSegZ',
            'mesh': 'Mesh', 'section': 'Section', 'auxNode': 'Node3D', 'node2': 'Node3D', 'other': 'Node3D'}


class Write:
    __slots__ = ('root', 'cls', 'attr', 'kind', 'where', 'val', 'direct', 'src')

    def __init__(self, root, cls, attr, kind, where, val=EMPTY, direct=True, src=None):
        self.root, self.cls, self.attr, self.kind, self.where, self.val, self.direct, self.src = root, cls, attr, kind, where, val, direct, src

    def key(self):
        return (self.root, self.cls, self.attr, self.kind, self.src)


class Summary:
    def __init__(self):
        self.writes, self.ret = {}, EMPTY
        self.shared = {}        # (class, attribute) -> where: one new container stored in several places

    def state(self):
        return (frozenset((k, w.val) for k, w in self.writes.items()), self.ret)


class Flow:
    def __init__(self, repo):
        self.repo = repo
        self.sum = {}
        self.by_name = {}
        for c in repo.classes.values():
            if c.mod.name.startswith('spec_'):
                continue
            for n, f in c.methods.items():
                self.by_name.setdefault(n, []).append(f)
        self.funcs = {}
        for m in repo.modules.values():
            if m.name.startswith('spec_') or m.name == 'MITC4':
                continue
            for f in m.funcs.values():
                self.funcs[id(f)] = f
            for c in m.classes.values():
                for f in c.methods.values():
                    self.funcs[id(f)] = f
        self.calls = {}
        self.actual = {}        # (function, parameter) -> types of the values the calls pass
        self.retype = set()
        for i in self.funcs:
            self.sum[i] = Summary()
        todo, n = list(self.funcs), 0
        users = {}
        while todo and n < 20000:
            i = todo.pop(0)
            n += 1
            a = Body(self, self.funcs[i])
            s = a.run()
            self.calls[i] = a.callees
            for u in self.retype:
                if u not in todo:
                    todo.append(u)
            self.retype = set()
            for c in a.callees:
                users.setdefault(c, set()).add(i)
            if s.state() != self.sum[i].state():
                self.sum[i] = s
                for u in users.get(i, ()):
                    if u not in todo:
                        todo.append(u)
        self.rounds = n

    def func(self, f):
        return self.sum[id(f)]

    def reachable(self, f):
        out, todo = [], [id(f)]
        while todo:
            i = todo.pop()
            if i in out:
                continue
            out.append(i)
            todo.extend(self.calls.get(i, ()))
        return out

    def attr_type(self, cls, attr):
        if cls:
            for c in self.repo.mro(cls):
                t = EXTRA.get(c.name, {}).get(attr) or TY.get(c.name, {}).get(attr)
                if t:
                    return t
        t = ATTR_TY.get(attr)
        if t and len(t) == 1:
            return next(iter(t))
        return None

    def methods(self, cls, name):
        """The methods a call may reach: the class's own and overriding ones."""
        out = []
        if cls:
            f = self.repo.method(cls, name)
            if f is not None:
                out.append(f)
            for c in self.repo.classes.values():
                if c.name != cls and self.repo.is_a(c.name, cls) and name in c.methods:
                    out.append(c.methods[name])
        return out


def elem_ty(t):
    if not t:
        return None
    if t in REC:
        return None
    if t.startswith('items:'):
        return 'pair:' + t[6:]
    if ':' in t:
        h, e = t.split(':', 1)
        if h == 'dict':
            return 'str'
        if h == 'pair':
            return e
        if h == 'mat':
            return 'num'
        return e
    return None


def cont_ty(t):
    return t is not None and t.split(':')[0] in CONT


class Body:
    def __init__(self, fl, f):
        self.fl, self.f, self.repo = fl, f, fl.repo
        self.mod = f.mod
        self.out = Summary()
        self.heap = {}
        self.callees = set()
        self.env = {}

    # ------------------------------------------------------------ driver
    def run(self):
        a = self.f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        self.params = names
        env = {}
        for i, n in enumerate(names + [x.arg for x in a.kwonlyargs]):
            if i == 0 and self.f.cls is not None and not self.f.static:
                if self.f.classm:
                    env[n] = frozenset([(('g', self.f.cls.name), None, self.f.cls.name)])
                else:
                    env[n] = frozenset([(('p', n), None, self.f.cls.name)])
                continue
            if self.f.name.startswith('_') and not self.f.name.startswith('__') and n not in PARAM_TY:
                # a private function: its parameter has the type every call passes
                ts = self.fl.actual.get((id(self.f), n), set())
                if len(ts) == 1:
                    t = next(iter(ts))
                    env[n] = EMPTY if t in IMMUT else frozenset([(('p', n), None, t)])
                    continue
            ann = next((x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg == n), None)
            t = PARAM_TY.get(n)
            if isinstance(ann, ast.Name):
                t = ann.id if ann.id in self.repo.classes else {'float': 'num', 'int': 'num', 'str': 'str', 'bool': 'bool'}.get(ann.id, t)
            elif isinstance(ann, ast.Constant) and isinstance(ann.value, str) and ann.value in self.repo.classes:
                t = ann.value
            env[n] = EMPTY if t in IMMUT else frozenset([(('p', n), None, t)])
        for v in (a.vararg, a.kwarg):
            if v is not None:
                env[v.arg] = frozenset([(('p', v.arg), None, 'list:?' if v is a.vararg else 'dict:?')])
        self.env = env
        self.loops, self.stored = [], {}
        for _ in range(2):       # a second pass sees the contents of created objects
            self.env = dict(env)
            self.block(self.f.node.body)
        for tok, slots in self.stored.items():
            if len(slots) > 1 or any(o for _, o in slots.values()):
                for (root, cls, attr), (where, o) in slots.items():
                    self.out.shared[(cls, attr)] = where
        return self.out

    def note_stored(self, b, attr, v, s):
        """Remember which containers created in this function are stored where."""
        for root, slot, ty in v:
            if root[0] == 'n' and slot is None and root[4] == '' and ty not in self.repo.classes:
                outside = any(not (l.lineno <= root[2] <= l.end_lineno) if root[1] == self.mod.name else False for l in self.loops)
                if len(root) > 5:
                    outside = any(not (l.lineno <= root[5][0] <= l.end_lineno) for l in self.loops)
                self.stored.setdefault(root, {})[(b[0], b[2], attr)] = (self.where(s), outside)

    def where(self, n):
        return '%s:%d' % (self.mod.path, getattr(n, 'lineno', 0))

    def block(self, body):
        for s in body:
            self.stmt(s)

    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, EMPTY) | v
        return out

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            m(s)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)

    def s_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(s.targets[0].elts):
            vs = [self.ev(x) for x in s.value.elts]
            for t, v in zip(s.targets[0].elts, vs):
                self.assign(t, v, s)
            return
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        v = self.ev(s.value)
        lit = isinstance(s.value, (ast.List, ast.ListComp, ast.Dict, ast.Set))
        old = self.ev(s.target)
        for t in old:
            if cont_ty(t[2]) or (lit and isinstance(s.op, ast.Add)):
                self.mutate(t, s, self.elems(v) if isinstance(s.op, (ast.Add, ast.BitOr)) else EMPTY)
        if isinstance(s.target, ast.Name):
            self.env[s.target.id] = old
        elif isinstance(s.target, ast.Attribute):
            self.assign(s.target, old, s)
        else:
            self.assign(s.target, EMPTY, s)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            if t.id in getattr(self, 'globals_', ()):
                self.write(('g', t.id), None, t.id, 'set', s, v)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            e = self.elems(v)
            for x in t.elts:
                self.assign(x.value if isinstance(x, ast.Starred) else x, e, s)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            if isinstance(t.value, ast.Name) and t.value.id not in self.env and t.value.id in self.repo.classes:
                self.write(('g', t.value.id), t.value.id, t.attr, 'set', s, v)
            for b in base:
                self.store(b, t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.ev(t.slice)
            for b in base:
                self.mutate(b, s, v)

    def store(self, b, attr, v, s):
        root, slot, ty = b
        if ty in self.repo.classes:
            st = self.fl.repo.method(ty, attr + '.setter')
            if st is not None:
                self.call_func(st, [frozenset([b]), v], {}, s)
                return
        self.note_stored(b, attr, v, s)
        if root[0] == 'n':
            k = (root, attr)
            self.heap[k] = self.heap.get(k, EMPTY) | v
        self.write(root, ty, attr, 'set', s, v)

    def mutate(self, b, s, v):
        root, slot, ty = b
        if root[0] == 'n':
            if slot is None:
                k = (root, '[]')
                self.heap[k] = self.heap.get(k, EMPTY) | v
            if slot is not None:
                self.write(root, slot[0], slot[1], 'mut', s, v)
            return
        self.write(root, slot[0] if slot else None, slot[1] if slot else None, 'mut', s, v)

    def write(self, root, cls, attr, kind, s, v=EMPTY, direct=True, where=None):
        v = frozenset(list(v)[:MAXTOK]) if len(v) > MAXTOK else v
        w = Write(root, cls, attr, kind, where or self.where(s), v, direct)
        k = w.key()
        o = self.out.writes.get(k)
        if o is None:
            self.out.writes[k] = w
        elif not (v <= o.val):
            o.val = o.val | v

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                for b in self.ev(t.value):
                    self.mutate(b, s, EMPTY)
            elif isinstance(t, ast.Attribute):
                for b in self.ev(t.value):
                    self.store(b, t.attr, EMPTY, s)

    def s_Global(self, s):
        self.globals_ = set(getattr(self, 'globals_', ())) | set(s.names)

    def s_If(self, s):
        self.ev(s.test)
        e0 = dict(self.env)
        self.block(s.body)
        e1, self.env = self.env, e0
        self.block(s.orelse)
        self.env = self.join(e1, self.env)
        none_test = s.test
        if isinstance(none_test, ast.Compare) and isinstance(none_test.left, ast.Name) and len(none_test.ops) == 1 and isinstance(none_test.ops[0], ast.Is) \
                and isinstance(none_test.comparators[0], ast.Constant) and none_test.comparators[0].value is None and not s.orelse:
            pass

    def loop(self, bind, body, orelse):
        for _ in range(3):
            e0 = dict(self.env)
            bind()
            self.block(body)
            self.env = self.join(e0, self.env)
            if self.env == e0:
                break
        self.block(orelse)

    def bind(self, target, it, s):
        """Bind the target of a loop over it; the pairs of enumerate and zip are taken apart."""
        v = self.ev(it)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('enumerate', 'zip') and isinstance(target, (ast.Tuple, ast.List)) and not it.keywords \
                and not any(isinstance(x, ast.Starred) for x in list(it.args) + target.elts):
            if it.func.id == 'enumerate' and len(target.elts) == 2 and it.args:
                self.assign(target.elts[0], EMPTY, s)
                self.bind(target.elts[1], it.args[0], s)
                return
            if it.func.id == 'zip' and len(target.elts) == len(it.args):
                for t, x in zip(target.elts, it.args):
                    self.bind(t, x, s)
                return
        self.assign(target, self.elems(v), s)

    def s_For(self, s):
        def bind():
            self.bind(s.target, s.iter, s)
        self.loops.append(s)
        self.loop(bind, s.body, s.orelse)
        self.loops.pop()

    def s_While(self, s):
        self.loops.append(s)
        self.loop(lambda: self.ev(s.test), s.body, s.orelse)
        self.loops.pop()

    def s_ImportFrom(self, s):
        for a in s.names:
            if not (s.module or '').startswith(PKG):
                self.env[a.asname or a.name] = frozenset([(('g', 'library'), None, 'library')])

    def s_Import(self, s):
        for a in s.names:
            self.env[(a.asname or a.name).split('.')[0]] = frozenset([(('g', 'library'), None, 'library')])

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, s)
        self.block(s.body)

    def s_Try(self, s):
        e0 = dict(self.env)
        self.block(s.body)
        for h in s.handlers:
            e1, self.env = self.env, self.join(e0, self.env)
            self.block(h.body)
            self.env = self.join(e1, self.env)
        self.block(s.orelse)
        self.block(s.finalbody)

    def s_Return(self, s):
        if s.value is not None:
            v = self.ev(s.value)
            if len(self.out.ret) < MAXTOK:
                self.out.ret = self.out.ret | v

    def s_FunctionDef(self, s):
        e0 = dict(self.env)
        for a in s.args.args:
            self.env[a.arg] = EMPTY
        r0 = self.out.ret
        self.block(s.body)
        self.out.ret = r0
        self.env = e0
        self.env[s.name] = EMPTY

    def s_ClassDef(self, s):
        pass

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            v = m(e)
            return frozenset(t for t in v if t[2] not in IMMUT) if v else EMPTY
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return EMPTY

    def e_Constant(self, e):
        return EMPTY

    def e_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        if e.id in self.mod.consts:
            return frozenset([(('g', self.mod.name + '.' + e.id), None, None)])
        return EMPTY

    def e_Attribute(self, e):
        if isinstance(e.value, ast.Name) and e.value.id not in self.env:
            if e.value.id in self.repo.classes and (e.value.id in self.mod.imports or e.value.id in self.mod.classes):
                return frozenset([(('g', e.value.id), (e.value.id, e.attr), self.fl.attr_type(e.value.id, e.attr))])
            if e.value.id in self.mod.imports:
                return EMPTY
        return self.load(self.ev(e.value), e.attr, e)

    def load(self, base, attr, e):
        out = set()
        for root, slot, ty in base:
            if ty == 'library':
                out.add((root, None, 'library'))
                continue
            cls = ty if ty in self.repo.classes else None
            if cls is not None:
                f = self.repo.method(cls, attr)
                if f is not None:
                    if f.prop:
                        out |= self.call_func(f, [frozenset([(root, slot, ty)])], {}, e)
                    continue
            t = self.fl.attr_type(cls, attr)
            if t in IMMUT:
                continue
            if root[0] == 'n':
                got = self.heap.get((root, attr))
                if got:
                    out |= got
                out.add((root, (cls, attr), t))
            else:
                out.add((root, (cls, attr), t))
        return frozenset(out)

    def elems(self, v):
        out = set()
        for root, slot, ty in v:
            if root[0] == 'n' and slot is None:
                out |= self.heap.get((root, '[]'), EMPTY)
                continue
            t = elem_ty(ty)
            if t in IMMUT:
                continue
            out.add((root, slot, t))
        return frozenset(out)

    def item(self, v):
        out = set()
        for root, slot, ty in v:
            if root[0] == 'n' and slot is None:
                out |= self.heap.get((root, '[]'), EMPTY)
                continue
            t = ty.split(':', 1)[1] if ty and ':' in ty and ty.split(':')[0] in ('dict', 'list', 'pair', 'set') else elem_ty(ty)
            if t in IMMUT:
                continue
            out.add((root, slot, t))
        return frozenset(out)

    def fresh(self, e, content=EMPTY, ty=None, tag=''):
        r = ('n', self.mod.name, getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0), tag)
        if content:
            k = (r, '[]')
            self.heap[k] = self.heap.get(k, EMPTY) | content
        return frozenset([(r, None, ty)])

    def e_Subscript(self, e):
        b = self.ev(e.value)
        self.ev(e.slice)
        if isinstance(e.slice, ast.Slice):
            if any(t[2] and t[2].startswith('mat') for t in b):
                return b
            return self.fresh(e, self.elems(b))
        return self.item(b)

    def _many(self, e, elts):
        c = EMPTY
        for x in elts:
            if isinstance(x, ast.Starred):
                c |= self.elems(self.ev(x.value))
            elif x is not None:
                c |= self.ev(x)
        return c

    def e_List(self, e):
        return self.fresh(e, self._many(e, e.elts))

    e_Tuple = e_Set = e_List

    def e_Dict(self, e):
        self._many(e, e.keys)
        return self.fresh(e, self._many(e, e.values))

    def comp(self, e, elts):
        env = dict(self.env)
        for g in e.generators:
            self.bind(g.target, g.iter, e)
            for c in g.ifs:
                self.ev(c)
        v = EMPTY
        for x in elts:
            v |= self.ev(x)
        self.env = env
        return self.fresh(e, v)

    def e_ListComp(self, e):
        return self.comp(e, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        return self.comp(e, [e.key, e.value])

    def e_IfExp(self, e):
        self.ev(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def e_BoolOp(self, e):
        v = EMPTY
        for x in e.values:
            v |= self.ev(x)
        return v

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.env[e.target.id] = v
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        c = self.elems(frozenset(t for t in a | b if cont_ty(t[2]) or t[0][0] == 'n'))
        return self.fresh(e, c) if c else EMPTY

    def e_Lambda(self, e):
        a = e.args
        ds = {x.arg: self.ev(d) for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults)}
        ds.update({x.arg: self.ev(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        env = dict(self.env)
        for x in a.args + a.kwonlyargs:
            self.env[x.arg] = ds.get(x.arg, EMPTY)
        self.ev(e.body)
        self.env = env
        return EMPTY

    def e_Compare(self, e):
        self.ev(e.left)
        for c in e.comparators:
            self.ev(c)
        return EMPTY

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        return EMPTY

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        args = []
        for a in e.args:
            v = self.ev(a.value if isinstance(a, ast.Starred) else a)
            args.append(self.elems(v) if isinstance(a, ast.Starred) else v)
        kw = {}
        rest = EMPTY
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                rest |= self.item(v)
            else:
                kw[k.arg] = v
        f = e.func
        if isinstance(f, ast.Name):
            return self.call_name(f.id, args, kw, e)
        if isinstance(f, ast.Attribute):
            # super().method(...)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and self.f.cls is not None:
                for b in self.f.cls.bases:
                    g = self.repo.method(b, f.attr)
                    if g is not None:
                        return self.call_func(g, [self.env.get(self.params[0], EMPTY) if self.params else EMPTY] + args, kw, e)
                return EMPTY
            if isinstance(f.value, ast.Name) and f.value.id not in self.env:
                n = f.value.id
                if n in self.mod.imports:
                    tgt = self.mod.imports[n]
                    if tgt.startswith(PKG):
                        m = self.repo.modules.get(tgt.split('.', 1)[1]) if '.' in tgt else None
                        if m is not None:
                            if f.attr in m.funcs:
                                return self.call_func(m.funcs[f.attr], args, kw, e)
                            if f.attr in m.classes:
                                return self.construct(m.classes[f.attr], args, kw, e)
                        c = self.repo.classes.get(n)
                        if c is not None:
                            g = self.repo.method(n, f.attr)
                            if g is not None:
                                return self.call_func(g, args, kw, e)
                    elif f.attr in ('copy', 'deepcopy', 'array', 'append', 'concatenate', 'sort'):
                        return self.fresh(e, EMPTY)
                    else:
                        return EMPTY
                c = self.mod.classes.get(n)
                if c is not None and f.attr in c.methods:
                    return self.call_func(c.methods[f.attr], args, kw, e)
                if n in self.mod.imports or n in self.mod.classes:
                    return EMPTY
            base = self.ev(f.value)
            return self.call_method(base, f.attr, args, kw, e)
        self.ev(f)
        return EMPTY

    def resolve_name(self, n):
        if n in self.mod.funcs:
            return self.mod.funcs[n]
        if n in self.mod.classes:
            return self.mod.classes[n]
        t = self.mod.imports.get(n)
        if t and t.startswith(PKG + '.'):
            p = t.split('.')
            m = self.repo.modules.get('.'.join(p[1:-1]))
            if m is not None:
                return m.funcs.get(p[-1]) or m.classes.get(p[-1])
        # imports inside the function body
        for s in ast.walk(self.f.node):
            if isinstance(s, ast.ImportFrom) and s.module and s.module.startswith(PKG):
                for a in s.names:
                    if (a.asname or a.name) == n:
                        m = self.repo.modules.get(s.module.split('.', 1)[1]) if '.' in s.module else None
                        if m is not None:
                            return m.funcs.get(a.name) or m.classes.get(a.name)
        return None

    def call_name(self, n, args, kw, e):
        if n in self.env and n not in self.mod.funcs:
            return EMPTY
        g = self.resolve_name(n)
        if g is not None:
            if hasattr(g, 'methods'):
                return self.construct(g, args, kw, e)
            return self.call_func(g, args, kw, e)
        if n in PURE:
            return EMPTY
        if n == 'getattr':
            name = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
            d = args[2] if len(args) > 2 else EMPTY
            if name is not None:
                return self.load(args[0], name, e) | d
            return frozenset((r, (t if t in self.repo.classes else None, '?'), None) for r, s, t in args[0]) | d
        if n == 'setattr':
            name = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else '?'
            for b in args[0]:
                self.store(b, name, args[2] if len(args) > 2 else EMPTY, e)
            return EMPTY
        if n == 'delattr':
            for b in args[0]:
                self.store(b, '?', EMPTY, e)
            return EMPTY
        if n in ('reversed', 'iter', 'filter'):
            return frozenset(t for a in args for t in a)
        if n == 'next':
            return self.elems(args[0]) if args else EMPTY
        if n in ('enumerate', 'zip', 'map'):
            c = EMPTY
            for a in args:
                c |= self.elems(a)
            inner = self.fresh(e, c, tag='inner')
            return self.fresh(e, inner | c)
        if n in ('max', 'min', 'sum'):
            c = EMPTY
            for a in args:
                c |= self.elems(a)
            return c if n != 'sum' else EMPTY
        if n == 'vars':
            return args[0] if args else EMPTY
        if n in ('deepcopy',):
            return self.fresh(e)
        if n in COPIES:
            c = EMPTY
            for a in args[:1]:
                # a copied dictionary keeps its values
                c |= self.item(a) if n in ('dict', 'copy') else self.elems(a)
            for v in kw.values():
                c |= v
            return self.fresh(e, c)
        return EMPTY

    def call_method(self, base, name, args, kw, e):
        out = EMPTY
        for t in base:
            root, slot, ty = t
            if ty == 'library':
                continue
            if ty in self.repo.classes:
                for g in self.fl.methods(ty, name):
                    out |= self.call_func(g, [frozenset([t])] + args, kw, e)
                continue
            isrec = ty in REC
            if name in MUTATORS and not (ty or '').startswith('mat'):
                v = EMPTY
                for a in args:
                    v |= self.elems(a) if name in ('extend', 'update') else a
                self.mutate(t, e, v)
                if name in ('pop', 'popitem', 'setdefault'):
                    out |= self.item(frozenset([t])) | v
                continue
            if name in ('values', 'keys', 'items'):
                if root[0] == 'n' and slot is None:
                    c = self.heap.get((root, '[]'), EMPTY)
                    if name == 'values':
                        out |= frozenset([t])
                    elif name == 'items':
                        out |= self.fresh(e, c | self.fresh(e, c, tag='pair'))
                    continue
                et = ty[5:] if ty and ty.startswith('dict:') else None
                if name == 'values':
                    out |= frozenset([(root, slot, 'list:' + et if et else None)])
                elif name == 'items':
                    out |= frozenset([(root, slot, 'items:' + et if et else None)])
                continue
            if name == 'get':
                out |= self.item(frozenset([t]))
                for a in args[1:]:
                    out |= a
                continue
            if name in ('copy', 'tolist', 'astype', 'flatten'):
                out |= self.fresh(e, self.item(frozenset([t])))
                continue
            if ty is None and not isrec and name in self.fl.by_name and not name.startswith('__'):
                # receiver of unknown class: any class of the package having this method, if the object came from the model
                if root[0] in ('p', 'g') or slot is not None:
                    for g in self.fl.by_name[name]:
                        if g.static:
                            out |= self.call_func(g, args, kw, e)
                        else:
                            out |= self.call_func(g, [frozenset([(root, slot, g.cls.name)])] + args, kw, e)
        return out

    def construct(self, c, args, kw, e):
        r = ('n', self.mod.name, getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0), c.name)
        me = frozenset([(r, None, c.name)])
        f = None
        for k in [c] + [x for x in self.repo.mro(c.name) if x is not c]:
            if '__init__' in k.methods:
                f = k.methods['__init__']
                break
        if f is not None:
            self.call_func(f, [me] + args, kw, e)
        return me

    def call_func(self, f, args, kw, e):
        """Apply the summary of f."""
        if id(f) not in self.fl.sum:
            return EMPTY
        self.callees.add(id(f))
        s = self.fl.sum[id(f)]
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        for n, v in zip(names, args):
            b[n] = v
        if len(args) > len(names) and a.vararg is not None:
            v = EMPTY
            for x in args[len(names):]:
                v |= x
            b[a.vararg.arg] = self.fresh(e, v, tag='var')
        extra = EMPTY
        for n, v in kw.items():
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                b[n] = v
            else:
                extra |= v
        if a.kwarg is not None:
            b[a.kwarg.arg] = self.fresh(e, extra, tag='kw')
        if f.name.startswith('_') and not f.name.startswith('__'):
            for n, v in b.items():
                ts = {t for _, _, t in v if t is not None}
                have = self.fl.actual.setdefault((id(f), n), set())
                if not ts <= have:
                    have |= ts
                    self.fl.retype.add(id(f))
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n, d in defs.items():
            if n not in b:
                b[n] = frozenset([(('d', f.qual, n), None, None)]) if not isinstance(d, (ast.Constant, ast.UnaryOp)) else EMPTY

        def mp(v):
            out = set()
            for root, slot, ty in v:
                if root[0] == 'p':
                    for r2, s2, t2 in b.get(root[1], EMPTY):
                        if slot is None:
                            out.add((r2, s2, ty or t2))
                        elif r2[0] == 'n' and s2 is None:
                            got = self.heap.get((r2, slot[1])) or EMPTY
                            out |= got
                            out.add((r2, slot, ty))
                        else:
                            out.add((r2, slot, ty))
                elif root[0] == 'n':
                    out.add((root[:5] + ((getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0)),), slot, ty))
                else:
                    out.add((root, slot, ty))
            return frozenset(t for t in out if t[2] not in IMMUT)
        for w in list(s.writes.values()):
            if w.root[0] == 'p':
                for r2, s2, t2 in b.get(w.root[1], EMPTY):
                    v = mp(w.val)
                    if r2[0] == 'n':
                        if w.kind == 'set':
                            # field of the object itself (objects reached through it are merged with it)
                            k = (r2, w.attr)
                            self.heap[k] = self.heap.get(k, EMPTY) | v
                        elif w.attr is None:
                            k = (r2, s2[1] if s2 else '[]')
                            self.heap[k] = self.heap.get(k, EMPTY) | v
                        else:
                            # a container reached through the fresh object: also whatever was stored there
                            for r3, s3, t3 in self.heap.get((r2, w.attr), EMPTY):
                                if r3[0] != 'n':
                                    self.write(r3, s3[0] if s3 else None, s3[1] if s3 else None, 'mut', e, v, False, w.where)
                        self.write(r2, w.cls, w.attr, w.kind, e, v, False, w.where) if w.attr is not None else None
                        continue
                    if w.attr is None:
                        self.write(r2, s2[0] if s2 else None, s2[1] if s2 else None, w.kind, e, v, False, w.where)
                    else:
                        cls = w.cls
                        if cls is None and s2 is None and t2 in self.repo.classes:
                            cls = t2
                        self.write(r2, cls, w.attr, w.kind, e, v, False, w.where)
            elif w.root[0] in ('g', 'd'):
                self.write(w.root, w.cls, w.attr, w.kind, e, mp(w.val), False, w.where)
        return mp(s.ret)
