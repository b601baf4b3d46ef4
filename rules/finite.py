"""Load lists of a definite length: two load cases in the combination, a third one outside it.

The general form of a consumer of loads is a sum over all loads.  Where a loop cannot be summed (a value that is overwritten in
every round, say) the general form stays open; the same code over a definite list of loads with symbolic magnitudes and positions
is always decided, and is compared as well."""
from rules.ctx import *
from rules.common import *
from sa.dom import DictC, ListC

A, B, OUT = 'case a', 'case b', 'case outside the combination'
FACTOR = {A: num('factor a'), B: num('factor b')}
LC = sym('load combination', 'LoadCombo')
ALL = ('Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')


def heap(owner, lists, model=MODEL):
    """A pre-state: the combination CN with its two factors and the load lists {attribute: [load]} of owner."""
    def pre(I, st):
        put = lambda o, a, v: st.loc.__setitem__(('a', o, a), v)
        st.loc[('r', mk_attr(model, 'load_combos', 'dict:LoadCombo'))] = DictC((), ((CN, LC),))
        put(LC, 'name', CN)
        put(LC, 'factors', I.newref(st, DictC((), tuple(FACTOR.items()))))
        if owner is not model:
            put(owner, 'model', model)
        for a, loads in lists.items():
            put(owner, a, I.newref(st, ListC(tuple(('x', ld) for ld in loads))))
    return pre


def case(i):
    return (A, B)[i % 2]


def point_loads():
    out = [(d, num('P%d' % i), num('x%d' % i), case(i + i//12)) for i, d in enumerate(ALL*2)]
    return out + [('Fz', num('Pout'), num('xout'), OUT)]


def dist_loads():
    n = lambda a, i: num('%s_%s' % (a, i))
    out = [(d, n('w1', i), n('w2', i), n('x1', i), n('x2', i), case(i)) for i, d in enumerate(('Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ'))]
    return out + [('Fy', n('w1', 'out'), n('w2', 'out'), n('x1', 'out'), n('x2', 'out'), OUT)]


def pressures():
    return [(num('p0'), A), (num('p1'), B), (num('p2'), OUT), (num('p3'), A)]


def node_loads():
    return [(d, num('N%d' % i), case(i)) for i, d in enumerate(('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ', 'FX', 'MZ'))] + [('FY', num('Nout'), OUT), ('FX', num('N9'), B), ('MZ', num('N10'), B)]
