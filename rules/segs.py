"""Values left on the segments of a member by the segmentation, in terms of symbols of one generic segment."""
from rules.ctx import *
from rules.common import *

MEMBER = sym('member', 'Member3D')
LISTS = ('SegmentsZ', 'SegmentsY', 'SegmentsX')
X, XE, IDX = num('x'), num('x_end'), num('index')
FIRST_ONLY = ('theta1', 'delta1', 'delta_x1')


def seg_of(t):
    """(list name, index) of a segment object reached through a member's segment list."""
    if isinstance(t, Term) and t.op in ('item', 'elem') and t.args and isinstance(t.args[0], Term) and t.args[0].op == 'attr' \
            and t.args[0].args[0] is MEMBER and t.args[0].args[1] in LISTS:
        return t.args[0].args[1], (t.args[1] if t.op == 'item' else t)
    return None


def is_index(t):
    return isinstance(t, Term) and t.op == 'elem' and isinstance(t.args[0], Term) and t.args[0].op == 'range'


class Segments:
    """vals[list][attr]: final value on the generic segment; created[list][attr]: value given at creation."""

    def __init__(self, ctx, opaque):
        self.r = r = ctx.run('Member3D._segment_member', [CN], self_=MEMBER, opaque=opaque)
        self.vals, self.created, self.first = {n: {} for n in LISTS}, {n: {} for n in LISTS}, {n: {} for n in LISTS}
        self.objs = {}
        owner = {}
        for n in LISTS:
            c = store(r, MEMBER, n, 'list:BeamSegZ')
            items = []
            if isinstance(c, ListC):
                def walk(ps, loops):
                    for p in ps:
                        if p[0] == 'f':
                            walk(p[2], loops + (p[1],))
                        elif p[0] == 'x':
                            items.append((p[1], loops))
                        elif p[0] != 'b':
                            items.append((None, loops))
                walk(c.seq, ())
            self.objs[n] = items
            for o, _ in items:
                if isinstance(o, Term):
                    owner[o] = n
        for k, v in r.st.loc.items():
            if k[0] != 'a':
                continue
            if k[1] in owner:
                self.created[owner[k[1]]][k[2]] = v
                continue
            s = seg_of(k[1])
            if s is None:
                continue
            if s[1] == 0:
                self.first[s[0]][k[2]] = v
            else:
                self.vals[s[0]][k[2]] = (v, s[1], k[1])
        # values set directly on the new objects (no second pass over the lists)
        for n in LISTS:
            for a, v in self.created[n].items():
                if a not in self.vals[n] and a not in ('x1', 'x2', 'EI', 'EA') and v is not None:
                    self.vals[n][a] = (v, None, None)

    def value(self, lst, attr, i=None):
        """Normalised value; None when nothing is stored there."""
        t = self.vals[lst].get(attr)
        if t is None:
            return None
        return self.norm(t[0], t[1], i)

    def norm(self, v, idx, i=None):
        """Segment ends become X, XE; other segments of the member keep list and offset; the loop index becomes i."""
        m = {}
        for n in LISTS:
            for a, s in (('x1', X), ('x2', XE)):
                cv = self.created[n].get(a)
                if isinstance(cv, Term) and a not in m:
                    m[cv] = s
        for t in atoms_of(v):
            if t.op == 'attr' and seg_of(t.args[0]) is not None:
                n, k = seg_of(t.args[0])
                if same(k, idx) if idx is not None else is_index(k):
                    m[t] = {'x1': X, 'x2': XE}.get(t.args[1], mk('sym', '%s.%s' % (n, t.args[1]), ty='num'))
                else:
                    off = alg.sub(k, idx) if idx is not None else None
                    if isnum(off) and off == -1:
                        m[t] = mk('sym', 'previous %s.%s' % (n, t.args[1]), ty='num')
        v = subst(v, m)
        if idx is not None and isinstance(idx, Term):
            v = subst(v, {idx: IDX if i is None else i})
        return v
