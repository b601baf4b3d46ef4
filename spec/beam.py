"""Reference definitions for beam members: clamped-beam (work-equivalent) fixed end reactions from the
exact shape functions of an Euler-Bernoulli beam, and the assembled member vectors."""
from numpy import zeros

# shape functions as polynomials in s = x/L: translation i, rotation i (times L), translation j, rotation j (times L)
H = ([1, 0, -3, 2], [0, 1, -2, 1], [0, 0, 3, -2], [0, 0, -1, 1])
# linear functions for axial displacement and twist
LIN = ([1, -1], [0, 1])


def value(p, s):
    v = 0
    for k in range(len(p)):
        v += p[k]*s**k
    return v


def slope(p, s):
    v = 0
    for k in range(1, len(p)):
        v += k*p[k]*s**(k - 1)
    return v


def moment_integral(p, a, b, L, m):
    """Integral over t in [0, 1] of t**m * p((a + t*(b - a))/L)."""
    v = 0
    binom = ([1], [1, 1], [1, 2, 1], [1, 3, 3, 1])
    for k in range(len(p)):
        for j in range(k + 1):
            v += p[k]*binom[k][j]*a**(k - j)*(b - a)**j/L**k/(j + 1 + m)
    return v


def linload(p, w1, w2, a, b, L):
    """Integral over [a, b] of the linearly varying load times the shape function p."""
    return (b - a)*(w1*moment_integral(p, a, b, L, 0) + (w2 - w1)*moment_integral(p, a, b, L, 1))


def FER_PtLoad(P, x, L, Direction):
    f = zeros((12, 1))
    h = [value(p, x/L) for p in H]
    if Direction == 'Fy':
        f[1, 0], f[5, 0], f[7, 0], f[11, 0] = -P*h[0], -P*h[1]*L, -P*h[2], -P*h[3]*L
    elif Direction == 'Fz':
        f[2, 0], f[4, 0], f[8, 0], f[10, 0] = -P*h[0], P*h[1]*L, -P*h[2], P*h[3]*L
    return f


def FER_Moment(M, x, L, Direction):
    f = zeros((12, 1))
    h = [slope(p, x/L)/L for p in H]
    if Direction == 'Mz':
        f[1, 0], f[5, 0], f[7, 0], f[11, 0] = -M*h[0], -M*h[1]*L, -M*h[2], -M*h[3]*L
    elif Direction == 'My':
        f[2, 0], f[4, 0], f[8, 0], f[10, 0] = M*h[0], -M*h[1]*L, M*h[2], -M*h[3]*L
    return f


def FER_LinLoad(w1, w2, x1, x2, L, Direction):
    f = zeros((12, 1))
    h = [linload(p, w1, w2, x1, x2, L) for p in H]
    if Direction == 'Fy':
        f[1, 0], f[5, 0], f[7, 0], f[11, 0] = -h[0], -h[1]*L, -h[2], -h[3]*L
    elif Direction == 'Fz':
        f[2, 0], f[4, 0], f[8, 0], f[10, 0] = -h[0], h[1]*L, -h[2], h[3]*L
    return f


def FER_AxialPtLoad(P, x, L):
    f = zeros((12, 1))
    f[0, 0], f[6, 0] = -P*value(LIN[0], x/L), -P*value(LIN[1], x/L)
    return f


def FER_AxialLinLoad(p1, p2, x1, x2, L):
    f = zeros((12, 1))
    f[0, 0], f[6, 0] = -linload(LIN[0], p1, p2, x1, x2, L), -linload(LIN[1], p1, p2, x1, x2, L)
    return f


def FER_Torque(T, x, L):
    f = zeros((12, 1))
    f[3, 0], f[9, 0] = -T*value(LIN[0], x/L), -T*value(LIN[1], x/L)
    return f


AXES = (('x', 0, False), ('y', 1, False), ('z', 2, False), ('X', 0, True), ('Y', 1, True), ('Z', 2, True))


def local_axis(member, i, glob):
    """Local components of a unit vector: a local axis, or a global one turned by the direction cosines."""
    if glob:
        T = member.T()
        return [T[0, i], T[1, i], T[2, i]]
    v = [0, 0, 0]
    v[i] = 1
    return v


def point(member, kind, i, glob, P, x):
    L = member.L()
    c = local_axis(member, i, glob)
    f = zeros((12, 1))
    if kind == 'F':
        f = f + FER_AxialPtLoad(P*c[0], x, L) + FER_PtLoad(P*c[1], x, L, 'Fy') + FER_PtLoad(P*c[2], x, L, 'Fz')
    else:
        f = f + FER_Torque(P*c[0], x, L) + FER_Moment(P*c[1], x, L, 'My') + FER_Moment(P*c[2], x, L, 'Mz')
    return f


def dist(member, i, glob, w1, w2, x1, x2):
    L = member.L()
    c = local_axis(member, i, glob)
    return (FER_AxialLinLoad(w1*c[0], w2*c[0], x1, x2, L) + FER_LinLoad(w1*c[1], w2*c[1], x1, x2, L, 'Fy')
            + FER_LinLoad(w1*c[2], w2*c[2], x1, x2, L, 'Fz'))


def fer_unc(member, combo_name):
    """Fixed end reactions of all loads of the combination, each scaled by the factor of its own case."""
    f = zeros((12, 1))
    combo = member.model.load_combos[combo_name]
    for case, factor in combo.factors.items():
        for load in member.PtLoads:
            if load[3] == case:
                for kind in ('F', 'M'):
                    for axis, i, glob in AXES:
                        if load[0] == kind + axis:
                            f = f + point(member, kind, i, glob, factor*load[1], load[2])
        for load in member.DistLoads:
            if load[5] == case:
                for axis, i, glob in AXES:
                    if load[0] == 'F' + axis:
                        f = f + dist(member, i, glob, factor*load[1], factor*load[2], load[3], load[4])
    return f
