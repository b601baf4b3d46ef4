"""Reference definitions of the global arrays of the direct stiffness method, one global equation
per nodal degree of freedom (node number * 6 + local direction)."""
from numpy import zeros

DOFS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
FORCES = ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')


def scatter(A, nodes, k):
    for p in range(len(nodes)):
        for q in range(len(nodes)):
            for a in range(6):
                for b in range(6):
                    A[nodes[p].ID*6 + a, nodes[q].ID*6 + b] += k[p*6 + a, q*6 + b]


def scatter1(V, nodes, f):
    for p in range(len(nodes)):
        for a in range(6):
            V[nodes[p].ID*6 + a, 0] += f[p*6 + a, 0]


def K(model, combo_name):
    n = 6*len(model.nodes)
    A = zeros((n, n))
    for plate in model.plates.values():
        scatter(A, [plate.i_node, plate.j_node, plate.m_node, plate.n_node], plate.K())
    for quad in model.quads.values():
        scatter(A, [quad.i_node, quad.j_node, quad.m_node, quad.n_node], quad.K())
    for pm in model.members.values():
        if pm.active[combo_name]:
            for m in pm.sub_members.values():
                scatter(A, [m.i_node, m.j_node], m.K())
    for s in model.springs.values():
        if s.active[combo_name]:
            scatter(A, [s.i_node, s.j_node], s.K())
    for node in model.nodes.values():
        for i in range(6):
            sp = getattr(node, 'spring_' + DOFS[i])
            if sp[2] and sp[0] is not None:
                A[node.ID*6 + i, node.ID*6 + i] += sp[0]
    return A


def Kg(model, combo_name, first):
    n = 6*len(model.nodes)
    A = zeros((n, n))
    for pm in model.members.values():
        if pm.active[combo_name]:
            for m in pm.sub_members.values():
                if first:
                    P = 0
                else:
                    d = m.d(combo_name)
                    P = (d[6, 0] - d[0, 0])*m.E*m.A/m.L()
                scatter(A, [m.i_node, m.j_node], m.Kg(P))
    return A


def FER(model, combo_name):
    A = zeros((6*len(model.nodes), 1))
    for pm in model.members.values():
        for m in pm.sub_members.values():
            scatter1(A, [m.i_node, m.j_node], m.FER(combo_name))
    for e in model.quads.values():
        scatter1(A, [e.i_node, e.j_node, e.m_node, e.n_node], e.FER(combo_name))
    for e in model.plates.values():
        scatter1(A, [e.i_node, e.j_node, e.m_node, e.n_node], e.FER(combo_name))
    return A


def P(model, combo_name):
    A = zeros((6*len(model.nodes), 1))
    combo = model.load_combos[combo_name]
    for node in model.nodes.values():
        for direction, value, case in node.NodeLoads:
            if case in combo.factors:
                for i in range(6):
                    if direction == FORCES[i]:
                        A[node.ID*6 + i, 0] += value*combo.factors[case]
    return A
