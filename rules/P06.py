"""Independent objects never share mutable state: effect and alias analysis of the whole package."""
from rules.ctx import *
from rules.R04 import helpers
from sa.flow import Flow, cont_ty
import ast

RULES = ('over the whole package (may-alias effect analysis with function summaries): no function modifies a container passed to it or a default argument; '
         'no attribute that holds a caller\'s container or a default argument is modified in place; no class-level or module-level container is modified; '
         'no newly created container is stored in two places of which one is modified in place')
FLOOR = 150
VIS = ('Rendering', 'Visualization', 'Reporting')
SELF_OK = ('_not_ready_yet_',)


def check(ctx):
    repo = ctx.repo
    fl = Flow(repo)
    ctx.functions |= {f.qual for f in fl.funcs.values()}
    muts = {}
    unfinished = set()
    helpers(fl, unfinished, lambda f: f.name.startswith(SELF_OK))
    for i, f in fl.funcs.items():
        if f.name.startswith(SELF_OK) or i in unfinished:
            continue
        for w in fl.sum[i].writes.values():
            if w.kind == 'mut' and w.attr is not None and w.direct and w.attr != '?':
                muts.setdefault(w.attr, []).append((w.cls, f, w.where))
            elif w.kind == 'mut' and w.attr is not None and not w.direct:
                muts.setdefault(w.attr, []).append((w.cls, f, w.src or w.where))

    def changed_in_place(cls, attr):
        """Functions that modify the container in attribute attr of objects of class cls."""
        out = []
        for c, f, where in muts.get(attr, ()):
            if c is None or cls is None or c == cls or repo.is_a(c, cls) or repo.is_a(cls, c):
                out.append((f.qual, where))
        return out
    for i, f in fl.funcs.items():
        if f.mod.name in VIS or f.name.startswith(SELF_OK) or i in unfinished:
            continue
        s = fl.sum[i]
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        own = names[:1] if f.cls is not None and not f.static else []
        va = [v.arg for v in (a.vararg, a.kwarg) if v is not None]
        public = not f.name.startswith('_') or f.name == '__init__'
        # 1. arguments and defaults
        bad = []
        dflt = {n for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) if not isinstance(d, (ast.Constant, ast.UnaryOp))}
        for w in s.writes.values():
            if w.kind != 'mut' or w.attr is not None:
                continue
            if w.root[0] == 'd':
                bad.append('the default object of %s of %s is modified at %s' % (w.root[2], w.root[1], w.where))
            elif w.root[0] == 'p' and w.root[1] not in own and w.root[1] not in va and (public or w.root[1] in dflt):
                bad.append('argument %s is modified at %s' % (w.root[1], w.where))
        ctx.ob('arguments and defaults are not modified', f.qual, not bad, '; '.join(sorted(set(bad)))[:400], f.where)
        # 2. stored arguments
        for w in s.writes.values():
            if w.kind != 'set' or w.attr in (None, '?'):
                continue
            for root, slot, ty in w.val:
                if slot is not None or not (ty is None or cont_ty(ty)):
                    continue
                if root[0] == 'd' or root[0] == 'g' and root[1] != 'library' or root[0] == 'p' and root[1] not in own and root[1] not in va and (public or root[1] in dflt):
                    hit = changed_in_place(w.cls, w.attr)
                    name = root[2] if root[0] == 'd' else root[1]        # argument, default argument or shared state
                    ctx.ob('a stored argument is not modified later', '%s: %s.%s = %s' % (f.qual, w.cls, w.attr, name), not hit,
                           'the container passed as %s (or its default) is stored in %s.%s and modified by %s' % (name, w.cls, w.attr, ', '.join('%s (%s)' % h for h in hit[:3])), f.where)
        # 3. class and module level state
        lib = []
        for w in s.writes.values():
            if w.root[0] == 'g' and w.root[1] != 'library':
                if w.kind == 'set' and w.val and all(t[2] == 'library' for t in w.val):
                    continue
                lib.append('%s%s is %s at %s' % (w.root[1], '.' + w.attr if w.attr else '', 'modified' if w.kind == 'mut' else 'assigned', w.where))
        ctx.ob('no class or module level state is modified', f.qual, not lib, '; '.join(sorted(set(lib)))[:400], f.where)
        # 4. one new container in several places
        for (cls, attr), where in s.shared.items():
            hit = changed_in_place(cls, attr)
            ctx.ob('a new container belongs to one object', '%s: %s.%s' % (f.qual, cls, attr), not hit,
                   'one container is stored in several places (%s) and modified by %s' % (where, ', '.join('%s (%s)' % h for h in hit[:3])), f.where)
    # 5. class-level containers modified through instances
    for c in repo.classes.values():
        if c.mod.name in VIS or c.mod.name.startswith('spec_') or c.mod.name == 'MITC4':
            continue
        for n, v in c.consts.items():
            if isinstance(v, (ast.Constant, ast.UnaryOp)):
                continue
            init = repo.method(c.name, '__init__')
            inst = init is not None and any(w.kind == 'set' and w.attr == n and w.root[0] == 'p' for w in fl.func(init).writes.values())
            hit = changed_in_place(c.name, n)
            ctx.ob('a class-level container is not modified through its objects', '%s.%s' % (c.name, n), inst or not hit,
                   'modified by %s' % ', '.join('%s (%s)' % h for h in hit[:3]), '%s:%d' % (c.mod.path, c.node.lineno))
