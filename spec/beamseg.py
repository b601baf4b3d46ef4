"""Reference extremes of a beam segment: the end values and the values at the stationary points inside the segment."""



def clip(x, L):
    if x < 0 or x > L:
        return 0
    return x


def shear_points(seg):
    L = seg.x2 - seg.x1
    if seg.w1 == seg.w2:
        x = 0
    else:
        x = clip(seg.w1*L/(seg.w1 - seg.w2), L)
    return [x, 0, L]


def axial_points(seg):
    L = seg.x2 - seg.x1
    if seg.p1 == seg.p2:
        x = 0
    else:
        x = clip(seg.p1*L/(seg.p1 - seg.p2), L)
    return [x, 0, L]


def moment_points(seg):
    # zero shear: V1 + w1*x + (w2 - w1)*x**2/(2*L) = 0
    L = seg.x2 - seg.x1
    a = (seg.w2 - seg.w1)/(2*L)
    b = seg.w1
    c = seg.V1
    if seg.w1 == seg.w2:
        y = 0
        if b == 0:
            x = 0
        else:
            x = -c/b
    else:
        D = b**2 - 4*a*c
        if D < 0:
            x = 0
            y = 0
        else:
            x = (-b + D**0.5)/(2*a)
            y = (-b - D**0.5)/(2*a)
    return [clip(x, L), clip(y, L), 0, L]


def extremes(seg, P_delta):
    s = shear_points(seg)
    m = moment_points(seg)
    p = axial_points(seg)
    V = [seg.Shear(x) for x in s]
    M = [seg.moment(x, P_delta) for x in m]
    P = [seg.axial(x) for x in p]
    return [max(V), min(V), max(M), min(M), max(P), min(P)]
