"""Effects of the model-building interface on the model."""
from rules.ctx import *
from rules.common import *
from sa.alg import atoms_of
from sa.interp import State


def fresh(t):
    """Objects and containers created during the run."""
    return isinstance(t, Term) and t.op in ('new', 'ref')


def initial(r, t):
    return r.I.content(State(), t)


def default_state(I, t):
    """The state before the first call: a default argument holds the value written in the definition."""
    st = State()
    if isinstance(t, Term) and t.op == 'default':
        f = I.repo.need(t.args[0])
        a = f.node.args
        names = [x.arg for x in a.args]
        d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
        if t.args[1] in d:
            I.default_arg(f, t.args[1], d[t.args[1]], st)
    return st


def effects(st, I):
    """{(object, attribute) or (container,): (value/content)} of everything that existed before the call and was changed."""
    out = {}
    for k, v in st.loc.items():
        if k[0] == 'a' and not fresh(k[1]):
            ty = None
            old = mk_attr(k[1], k[2], v.ty if isinstance(v, Term) else None)
            if isinstance(v, Term) and v.op == 'attr' and v.args[0] is k[1] and v.args[1] == k[2]:
                continue
            if same(v, old):
                continue
            out[(k[1], k[2])] = v
        elif k[0] == 'r' and not fresh(k[1]):
            c = I.content(st, k[1])
            c0 = I.content(default_state(I, k[1]), k[1])
            if c is c0 or type(c) is type(c0) and c.key() == c0.key():
                continue
            out[(k[1],)] = c
    return out


def label(k):
    return show(k[0]) + ('.%s' % (k[1] if isinstance(k[1], str) else show(k[1])) if len(k) > 1 else '')
