"""Reference definitions: what element quantities in the global system are in terms of the local ones."""
from numpy import zeros
from numpy.linalg import inv

DOFS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')


def K(e):
    return inv(e.T()) @ e.k() @ e.T()


def Kg(e, P):
    return inv(e.T()) @ e.kg(P) @ e.T()


def Km(e, combo_name, push_combo, step_num):
    return inv(e.T()) @ e.km(combo_name, push_combo, step_num) @ e.T()


def d(e, combo_name):
    return e.T() @ e.D(combo_name)


def f_spring(e, combo_name):
    return e.k() @ d(e, combo_name)


def f(e, combo_name):
    return e.k() @ d(e, combo_name) + e.fer(combo_name)


def f_member(e, combo_name):
    u = d(e, combo_name)
    r = e.k() @ u + e.fer(combo_name)
    if e.model.solution == 'P-Delta':
        r = r + e.kg((u[6, 0] - u[0, 0])*e.A*e.E/e.L()) @ u
    return r


def glob(e, v):
    return inv(e.T()) @ v


def F_spring(e, combo_name):
    return glob(e, f_spring(e, combo_name))


def F(e, combo_name):
    return glob(e, f(e, combo_name))


def F_member(e, combo_name):
    return glob(e, f_member(e, combo_name))


def FER(e, combo_name):
    return glob(e, e.fer(combo_name))


def D2(e, combo_name):
    v = zeros((12, 1))
    for n, node in enumerate((e.i_node, e.j_node)):
        for k, a in enumerate(DOFS):
            v[6*n + k, 0] = getattr(node, a)[combo_name]
    return v


def D4(e, combo_name):
    v = zeros((24, 1))
    for n, node in enumerate((e.i_node, e.j_node, e.m_node, e.n_node)):
        for k, a in enumerate(DOFS):
            v[6*n + k, 0] = getattr(node, a)[combo_name]
    return v
