"""Reference: the displacements of the free degrees of freedom."""
from numpy.linalg import solve


def D1_linear(model, combo_name, I1, I2, D2):
    if len(I1) == 0:
        return []
    K = model.K(combo_name)
    P1 = model.P(combo_name)[I1, :]
    F1 = model.FER(combo_name)[I1, :]
    return solve(K[I1, :][:, I1], P1 - F1 - K[I1, :][:, I2] @ D2)


def D1_second(model, combo_name, I1, I2, D2):
    if len(I1) == 0:
        return []
    K = model.K(combo_name)
    G = model.Kg(combo_name)
    P1 = model.P(combo_name)[I1, :]
    F1 = model.FER(combo_name)[I1, :]
    K11 = K[I1, :][:, I1] + G[I1, :][:, I1]
    K12 = K[I1, :][:, I2] + G[I1, :][:, I2]
    return solve(K11, P1 - F1 - K12 @ D2)


DOFS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
FORCES = ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')


def reaction(model, node, combo, i):
    """Reaction at direction i: element end forces minus applied loads where supported, plus the support spring's force."""
    name = combo.name
    R = 0
    if getattr(node, 'support_' + DOFS[i]):
        for s in model.springs.values():
            if s.active[name]:
                if s.i_node is node:
                    R += s.F(name)[i, 0]
                elif s.j_node is node:
                    R += s.F(name)[6 + i, 0]
        for pm in model.members.values():
            if pm.active[name]:
                for m in pm.sub_members.values():
                    if m.i_node is node:
                        R += m.F(name)[i, 0]
                    elif m.j_node is node:
                        R += m.F(name)[6 + i, 0]
        for coll in (model.plates, model.quads):
            for p in coll.values():
                if p.i_node is node:
                    R += p.F(name)[i, 0]
                elif p.j_node is node:
                    R += p.F(name)[6 + i, 0]
                elif p.m_node is node:
                    R += p.F(name)[12 + i, 0]
                elif p.n_node is node:
                    R += p.F(name)[18 + i, 0]
        for direction, value, case in node.NodeLoads:
            if direction == FORCES[i] and case in combo.factors:
                R -= value*combo.factors[case]
    spring = getattr(node, 'spring_' + DOFS[i])
    if spring[0] is not None and spring[2]:
        R -= spring[0]*getattr(node, DOFS[i])[name]
    return R


def displacement(node, i, D1, D2, I1, I2):
    g = node.ID*6 + i
    if g in I2:
        return D2[I2.index(g), 0]
    return D1[I1.index(g), 0]


def statics(model, combo):
    """Sums of the applied loads and of the reactions: FX, RX, FY, RY, FZ, RZ, MX, RMX, MY, RMY, MZ, RMZ (moments about the origin)."""
    n = combo.name
    P = model.P(n)
    F = model.FER(n)
    s = [0]*12
    for node in model.nodes.values():
        f = [P[node.ID*6 + i, 0] - F[node.ID*6 + i, 0] for i in range(6)]
        r = [node.RxnFX[n], node.RxnFY[n], node.RxnFZ[n], node.RxnMX[n], node.RxnMY[n], node.RxnMZ[n]]
        s[0] += f[0]
        s[1] += r[0]
        s[2] += f[1]
        s[3] += r[1]
        s[4] += f[2]
        s[5] += r[2]
        s[6] += f[3] + node.Y*f[2] - node.Z*f[1]
        s[7] += r[3] + node.Y*r[2] - node.Z*r[1]
        s[8] += f[4] + node.Z*f[0] - node.X*f[2]
        s[9] += r[4] + node.Z*r[0] - node.X*r[2]
        s[10] += f[5] + node.X*f[1] - node.Y*f[0]
        s[11] += r[5] + node.X*r[1] - node.Y*r[0]
    return s


def requested(model, tags):
    out = []
    for combo in model.load_combos.values():
        if combo.combo_tags is not None and any(tag in combo.combo_tags for tag in tags):
            out.append(combo)
    return out


def tc_node_spring(spring, displacement, tol):
    """A support spring with a direction is active exactly when it is displaced in that direction."""
    if spring[1] is None:
        return spring[2]
    return (spring[1] == '-' and displacement <= -tol) or (spring[1] == '+' and displacement >= tol)


def tc_element(tension_only, comp_only, active, axial_max, axial_min, tol):
    """Whether an element is to be deactivated (axial force: compression positive)."""
    return active and ((tension_only and axial_max > tol) or (comp_only and axial_min < -tol))
