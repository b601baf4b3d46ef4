"""Which loads act, and with which factor, in a load combination. The effect of one unit of load is taken from the
code's own formulas, so only participation and scaling are specified here."""
from numpy import zeros
from PyNite.FixedEndReactions import FER_PtLoad, FER_Moment, FER_LinLoad, FER_AxialPtLoad, FER_AxialLinLoad, FER_Torque

AXES = (('x', 0, False), ('y', 1, False), ('z', 2, False), ('X', 0, True), ('Y', 1, True), ('Z', 2, True))


def local_axis(member, i, glob):
    if glob:
        T = member.T()
        return [T[0, i], T[1, i], T[2, i]]
    v = [0, 0, 0]
    v[i] = 1
    return v


def point(member, kind, c, P, x):
    L = member.L()
    if kind == 'F':
        return FER_AxialPtLoad(P*c[0], x, L) + FER_PtLoad(P*c[1], x, L, 'Fy') + FER_PtLoad(P*c[2], x, L, 'Fz')
    return FER_Torque(P*c[0], x, L) + FER_Moment(P*c[1], x, L, 'My') + FER_Moment(P*c[2], x, L, 'Mz')


def dist(member, c, w1, w2, x1, x2):
    L = member.L()
    return (FER_AxialLinLoad(w1*c[0], w2*c[0], x1, x2, L) + FER_LinLoad(w1*c[1], w2*c[1], x1, x2, L, 'Fy')
            + FER_LinLoad(w1*c[2], w2*c[2], x1, x2, L, 'Fz'))


def fer_unc(member, combo_name):
    f = zeros((12, 1))
    combo = member.model.load_combos[combo_name]
    for case, factor in combo.factors.items():
        for load in member.PtLoads:
            if load[3] == case:
                for kind in ('F', 'M'):
                    for axis, i, glob in AXES:
                        if load[0] == kind + axis:
                            f = f + point(member, kind, local_axis(member, i, glob), factor*load[1], load[2])
        for load in member.DistLoads:
            if load[5] == case:
                for axis, i, glob in AXES:
                    if load[0] == 'F' + axis:
                        f = f + dist(member, local_axis(member, i, glob), factor*load[1], factor*load[2], load[3], load[4])
    return f


def pressure(element, combo_name):
    p = 0
    for case, factor in element.model.load_combos[combo_name].factors.items():
        for load in element.pressures:
            if load[1] == case:
                p += factor*load[0]
    return p


def nodal(model, combo_name, node, direction):
    """The applied load of a combination on one node in one direction."""
    v = 0
    for case, factor in model.load_combos[combo_name].factors.items():
        for load in node.NodeLoads:
            if load[0] == direction and load[2] == case:
                v += factor*load[1]
    return v
