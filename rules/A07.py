"""The statics check table."""
from rules.ctx import *
from rules.common import *

RULES = 'each of the twelve sums in the printed row of a load combination equals the reference sum over all nodes of applied loads (nodal forces minus fixed end reactions) respectively reactions'
FLOOR = 8
COLS = ('Sum FX', 'Sum RX', 'Sum FY', 'Sum RY', 'Sum FZ', 'Sum RZ', 'Sum MX', 'Sum RMX', 'Sum MY', 'Sum RMY', 'Sum MZ', 'Sum RMZ')


def check(ctx):
    q = 'Analysis._check_statics'
    op = elem_opaque()
    with ctx.group('statics check', q):
        r = ctx.run(q, [MODEL], opaque=op)
        rows = [(a, loops, conds) for a, _, _, loops, conds in calls(r, 'add_row')]
        head = None
        for k, v in r.st.loc.items():
            if k[0] == 'a' and k[2] == 'field_names':
                head = [x for x, _, _ in seq_items(r.fz(v)) or []]
        if len(rows) != 1:
            ctx.ob('one row per combination', 'table', False if not rows and not r.I.unk and r.dead else None, 'rows added: %d' % len(rows), q)
            return
        a, loops, conds = rows[0]
        ctx.ob('one row per combination', 'table', True if loops == (COMBO,) and not conds else None, 'row added in loops over %s if %s' % (show(loops), show(conds)), q)
        items = [x for x, _, _ in seq_items(a[0]) or []]
        w = vec(ctx.spec('analysis', 'statics', [MODEL, COMBO], opaque=op))
        if head is None or len(head) != len(items):
            head = ['Load Combination'] + list(COLS)
        if len(items) != len(head):
            ctx.ob('columns', 'table', None, 'columns not recognised', q)
            return
        for name, want in zip(COLS, w):
            if name not in head:
                ctx.ob('column present', name, None, 'no such column', q)
                continue
            ctx.eq('statics sum', name, number(items[head.index(name)]), want, q)


def number(v):
    """The number shown in a formatted cell."""
    while isinstance(v, Term) and v.op in ('fmt', 'fstr', 'str', 'cat', 'format', 'ext'):
        n = [x for x in v.args if isinstance(x, (Poly, Phi)) or isinstance(x, Term) and x.op != 'sl']
        if len(n) != 1:
            return v
        v = n[0]
    return v
