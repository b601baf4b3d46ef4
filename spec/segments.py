"""Reference definition of the internal force diagram of a member: for the segment that starts at x and ends at xe
(member coordinates), the load intensities on it and the internal forces just after its start."""

AXES = (('x', 0, False), ('y', 1, False), ('z', 2, False), ('X', 0, True), ('Y', 1, True), ('Z', 2, True))


def local_axis(member, i, glob):
    if glob:
        T = member.T()
        return [T[0, i], T[1, i], T[2, i]]
    v = [0, 0, 0]
    v[i] = 1
    return v


def breaks(member):
    b = [0, member.L()]
    for load in member.PtLoads:
        b.append(load[2])
    for load in member.DistLoads:
        b.append(load[3])
        b.append(load[4])
    return sorted(set(b))


def segment(member, combo_name, x, xe):
    f = member.f(combo_name)
    P, Vy, Vz, Tq, My, Mz = f[0, 0], f[1, 0], f[2, 0], f[3, 0], f[4, 0], f[5, 0]
    # moments of the start shears about the segment start
    Mz -= Vy*x
    My += Vz*x
    q1 = [0, 0, 0]
    q2 = [0, 0, 0]
    for case, factor in member.model.load_combos[combo_name].factors.items():
        for load in member.PtLoads:
            if load[3] == case and load[2] <= x:
                for axis, i, glob in AXES:
                    c = local_axis(member, i, glob)
                    if load[0] == 'F' + axis:
                        F = factor*load[1]
                        P += F*c[0]
                        Vy += F*c[1]
                        Vz += F*c[2]
                        Mz -= F*c[1]*(x - load[2])
                        My += F*c[2]*(x - load[2])
                    if load[0] == 'M' + axis:
                        F = factor*load[1]
                        Tq += F*c[0]
                        My += F*c[1]
                        Mz += F*c[2]
        for load in member.DistLoads:
            if load[5] == case and load[3] <= x:
                for axis, i, glob in AXES:
                    if load[0] == 'F' + axis:
                        c = local_axis(member, i, glob)
                        w1, w2, a, b = factor*load[1], factor*load[2], load[3], load[4]
                        k = (w2 - w1)/(b - a)
                        e, we = b, w2
                        if b > x:
                            # the load continues on this segment
                            for j in range(3):
                                q1[j] += c[j]*(w1 + k*(x - a))
                                q2[j] += c[j]*(w1 + k*(xe - a))
                            e, we = x, w1 + k*(x - a)
                        # resultant of the part before x and its moment about x
                        R = (w1 + we)/2*(e - a)
                        M = R*(x - e) + (2*w1 + we)/6*(e - a)**2
                        P += c[0]*R
                        Vy += c[1]*R
                        Vz += c[2]*R
                        Mz -= c[1]*M
                        My += c[2]*M
    return [P, Vy, Vz, Tq, My, Mz, q1[0], q1[1], q1[2], q2[0], q2[1], q2[2]]


def start_slopes(member, combo_name):
    """End rotations at the start from the slope-deflection equations."""
    f, fer, d, L = member.f(combo_name), member._fer_unc(combo_name), member.d(combo_name), member.L()
    EIz, EIy = member.E*member.Iz, member.E*member.Iy
    tz = (2*(f[5, 0] - fer[5, 0]) - (f[11, 0] - fer[11, 0]))*L/(6*EIz) + (d[7, 0] - d[1, 0])/L
    ty = (2*(f[4, 0] - fer[4, 0]) - (f[10, 0] - fer[10, 0]))*L/(6*EIy) - (d[8, 0] - d[2, 0])/L
    return [tz, ty, d[0, 0], d[1, 0], d[2, 0]]
