"""Small helpers to run the interpreter on one function with symbolic arguments."""
from .interp import Interp, State, Dead, simp
from .dom import *
from .repo import Repo, AnalysisBroken


def sym(name, ty=None):
    t = mk('sym', name, ty=ty)
    return t if t.ty == ty else mk('sym', '%s:%s' % (name, ty), ty=ty)


def num(name):
    return mk('sym', name, ty='num')


MODEL = sym('model', 'FEModel3D')


def run(repo, qual, args=(), kw=None, self_=None, opaque=None, pre=None, single=True, implicit=False, st=None, I=None):
    f = repo.need(qual)
    if I is None:
        I = Interp(repo, opaque or {}, {'FEModel3D': MODEL} if single else {}, implicit=implicit)
    st = st or State()
    from .interp import _Frame
    I.callstack.append(_Frame(None, f.mod, None))
    if pre:
        pre(I, st)
    try:
        v = I.call_func(f, self_, list(args), dict(kw or {}), st)
        dead = False
    except Dead:
        v, dead = None, True
    I.callstack.pop()
    return Result(I, st, v, dead)


class Result:
    def __init__(self, I, st, v, dead):
        self.I, self.st, self.v, self.dead = I, st, v, dead

    @property
    def log(self):
        return self.st.loc.get(('log',), ())

    def fz(self, v=None):
        return self.I.fz(self.v if v is None else v, self.st)

    def content(self, t):
        return self.I.content(self.st, t)

    def mat(self, v=None):
        from .models import as_mat
        return as_mat(self.I, self.st, self.v if v is None else v)

M12, V12, M24, V24, MNN, VN1 = 'mat:12,12', 'mat:12,1', 'mat:24,24', 'mat:24,1', 'mat:N,N', 'mat:N,1'


def elem_opaque(**extra):
    """Element-level matrices kept opaque (their own properties are decided by separate queries)."""
    d = {}
    for c in ('Member3D', 'PhysMember', 'Spring3D'):
        for m in ('T', 'k', 'kg', 'km', 'K', 'Kg', 'Km', '_k_unc', 'G'):
            d['%s.%s' % (c, m)] = (M12, False)
        for m in ('F', 'f', 'd', 'D', 'fer', 'FER', '_fer_unc'):
            d['%s.%s' % (c, m)] = (V12, False)
        d[c + '.L'] = ('num', False)
    for c in ('Plate3D', 'Quad3D'):
        for m in ('T', 'k', 'k_b', 'k_m', 'K'):
            d['%s.%s' % (c, m)] = (M24, False)
        for m in ('F', 'f', 'd', 'D', 'fer', 'FER'):
            d['%s.%s' % (c, m)] = (V24, False)
    for m in ('K', 'Kg', 'Km'):
        d['FEModel3D.' + m] = (MNN, False)
    for m in ('P', 'FER', 'D'):
        d['FEModel3D.' + m] = (VN1, False)
    for k, v in extra.items():
        d[k.replace('__', '.')] = v
    return d
