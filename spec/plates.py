"""Reference definitions: isotropic plates (12-term polynomial) and quadrilaterals (DKMQ bending, bilinear membrane)."""
from numpy import zeros, array
from numpy.linalg import inv, det

GP = 1/3**0.5
GAUSS = ((-GP, -GP), (GP, -GP), (GP, GP), (-GP, GP))
CORNER = ((-1, -1), (1, -1), (1, 1), (-1, 1))
SIDES = ((0, 1), (1, 2), (2, 3), (3, 0))


def pressure(e, combo_name):
    p = 0
    for load in e.pressures:
        if load[1] in e.model.load_combos[combo_name].factors:
            p = p + e.model.load_combos[combo_name].factors[load[1]]*load[0]
    return p


# ---------------------------------------------------------------- constitutive laws
def membrane_law(e):
    D = zeros((3, 3))
    nu = e.nu
    D[0, 0] = e.E*e.kx_mod/(1 - nu**2)
    D[0, 1] = nu*e.E*e.kx_mod/(1 - nu**2)
    D[1, 0] = nu*e.E*e.ky_mod/(1 - nu**2)
    D[1, 1] = e.E*e.ky_mod/(1 - nu**2)
    D[2, 2] = e.E/(2*(1 + nu))
    return D


def bending_law(e):
    D = zeros((3, 3))
    nu = e.nu
    R = e.E*e.t**3/(12*(1 - nu**2))
    D[0, 0] = R
    D[0, 1] = nu*R
    D[1, 0] = nu*R
    D[1, 1] = R
    D[2, 2] = R*(1 - nu)/2
    return D


def shear_law(e):
    D = zeros((2, 2))
    G = e.E/(2*(1 + e.nu))
    D[0, 0] = 5/6*G*e.t
    D[1, 1] = 5/6*G*e.t
    return D


# ---------------------------------------------------------------- quadrilateral
def coords(q):
    return ((q.x1, q.y1), (q.x2, q.y2), (q.x3, q.y3), (q.x4, q.y4))


def jacobian(q, xi, eta):
    J = zeros((2, 2))
    xy = coords(q)
    for i in range(4):
        a, b = CORNER[i]
        for c in range(2):
            J[0, c] = J[0, c] + a*(1 + b*eta)/4*xy[i][c]
            J[1, c] = J[1, c] + b*(1 + a*xi)/4*xy[i][c]
    return J


def gradient(Ji, fxi, feta):
    return (Ji[0, 0]*fxi + Ji[0, 1]*feta, Ji[1, 0]*fxi + Ji[1, 1]*feta)


def membrane_B(q, xi, eta):
    B = zeros((3, 8))
    Ji = inv(q.J(xi, eta))
    for i in range(4):
        a, b = CORNER[i]
        nx, ny = gradient(Ji, a*(1 + b*eta)/4, b*(1 + a*xi)/4)
        B[0, 2*i] = nx
        B[1, 2*i + 1] = ny
        B[2, 2*i] = ny
        B[2, 2*i + 1] = nx
    return B


def side(q, k):
    i, j = SIDES[k]
    xy = coords(q)
    dx, dy = xy[j][0] - xy[i][0], xy[j][1] - xy[i][1]
    L = q.L_k(k + 5)
    return i, j, L, dx/L, dy/L


def length(q, k):
    i, j = SIDES[k - 5]
    xy = coords(q)
    return ((xy[j][0] - xy[i][0])**2 + (xy[j][1] - xy[i][1])**2)**0.5


def side_strain(q, k):
    """(w_j - w_i)/L + mean rotation along the side, as a row over (w, beta_x, beta_y) of the four nodes."""
    i, j, L, C, S = side(q, k)
    r = zeros((1, 12))
    r[0, 3*i] = -1/L
    r[0, 3*j] = 1/L
    for n in (i, j):
        r[0, 3*n + 1] = C/2
        r[0, 3*n + 2] = S/2
    return r


def side_phi(q, k):
    i, j, L, C, S = side(q, k)
    # ratio of bending to shear flexibility of the side: 12 D/(kappa G t L^2)
    return 2/(5/6*(1 - q.nu))*(q.t/L)**2


def bending_B(q, xi, eta):
    B = zeros((3, 12))
    Ji = inv(q.J(xi, eta))
    for i in range(4):
        a, b = CORNER[i]
        nx, ny = gradient(Ji, a*(1 + b*eta)/4, b*(1 + a*xi)/4)
        B[0, 3*i + 1] = nx
        B[1, 3*i + 2] = ny
        B[2, 3*i + 1] = ny
        B[2, 3*i + 2] = nx
    bubbles = ((-xi*(1 - eta), -(1 - xi**2)/2), ((1 - eta**2)/2, -eta*(1 + xi)), (-xi*(1 + eta), (1 - xi**2)/2), (-(1 - eta**2)/2, -eta*(1 - xi)))
    for k in range(4):
        i, j, L, C, S = side(q, k)
        px, py = gradient(Ji, bubbles[k][0], bubbles[k][1])
        g = side_strain(q, k)
        f = -3/(2*(1 + side_phi(q, k)))
        for n in range(12):
            B[0, n] = B[0, n] + px*C*f*g[0, n]
            B[1, n] = B[1, n] + py*S*f*g[0, n]
            B[2, n] = B[2, n] + (py*C + px*S)*f*g[0, n]
    return B


def shear_B(q, xi, eta):
    B = zeros((2, 12))
    Ji = inv(q.J(xi, eta))
    # natural strains: interpolated from the sides running along each natural direction
    for k, along, sign, weight in ((0, 0, 1, (1 - eta)/2), (1, 1, 1, (1 + xi)/2), (2, 0, -1, (1 + eta)/2), (3, 1, -1, (1 - xi)/2)):
        i, j, L, C, S = side(q, k)
        g = side_strain(q, k)
        f = side_phi(q, k)/(1 + side_phi(q, k))*sign*weight*L/2
        for n in range(12):
            B[0, n] = B[0, n] + Ji[0, along]*f*g[0, n]
            B[1, n] = B[1, n] + Ji[1, along]*f*g[0, n]
    return B


def bending_dofs():
    """(w, beta_x, beta_y) of the nodes from the 24 degrees of freedom: beta_x = theta_y, beta_y = -theta_x."""
    S = zeros((12, 24))
    for n in range(4):
        S[3*n, 6*n + 2] = 1
        S[3*n + 1, 6*n + 4] = 1
        S[3*n + 2, 6*n + 3] = -1
    return S


def membrane_dofs():
    S = zeros((8, 24))
    for n in range(4):
        S[2*n, 6*n] = 1
        S[2*n + 1, 6*n + 1] = 1
    return S


def quad_k12(q):
    k = zeros((12, 12))
    for xi, eta in GAUSS:
        Bb, Bs = q.B_b(xi, eta), q.B_s(xi, eta)
        k = k + Bb.T @ q.Hb() @ Bb*det(q.J(xi, eta)) + Bs.T @ q.Hs() @ Bs*det(q.J(xi, eta))
    return k


def drilling(k12):
    """A small stiffness about the normal: a thousandth of the smallest rotational one."""
    return min(abs(k12[1, 1]), abs(k12[2, 2]), abs(k12[4, 4]), abs(k12[5, 5]), abs(k12[7, 7]), abs(k12[8, 8]), abs(k12[10, 10]), abs(k12[11, 11]))/1000


def quad_bending(q):
    k12 = quad_k12(q)
    k = zeros((24, 24))
    w = (2, 4, 3)
    s = (1, 1, -1)
    for n in range(4):
        for a in range(3):
            for m in range(4):
                for b in range(3):
                    k[6*n + w[a], 6*m + w[b]] = s[a]*s[b]*k12[3*n + a, 3*m + b]
    for n in range(4):
        k[6*n + 5, 6*n + 5] = drilling(k12)
    return k


def quad_membrane(q):
    k8 = zeros((8, 8))
    for xi, eta in GAUSS:
        B = q.B_m(xi, eta)
        k8 = k8 + B.T @ q.Cm() @ B*q.t*det(q.J(xi, eta))
    k = zeros((24, 24))
    for n in range(4):
        for a in range(2):
            for m in range(4):
                for b in range(2):
                    k[6*n + a, 6*m + b] = k8[2*n + a, 2*m + b]
    return k


def quad_fer(q, combo_name):
    f = zeros((24, 1))
    p = pressure(q, combo_name)
    for n in range(4):
        a, b = CORNER[n]
        r = 0
        for xi, eta in GAUSS:
            r = r + (1 + a*xi)*(1 + b*eta)/4*det(jacobian(q, xi, eta))
        f[6*n + 2, 0] = -p*r
    return f


def spread(xi, eta, values):
    """The bilinear field with the given values at the four Gauss points."""
    r = 0
    for g in range(4):
        a, b = CORNER[g]
        r = r + (1 + a*xi/GP)*(1 + b*eta/GP)/4*values[g]
    return r


def quad_shear(q, xi, eta, combo_name):
    d = bending_dofs() @ q.d(combo_name)
    return spread(xi, eta, [q.Hs() @ q.B_s(a, b) @ d for a, b in GAUSS])


def quad_moment(q, xi, eta, combo_name):
    d = bending_dofs() @ q.d(combo_name)
    return spread(xi, eta, [q.Hb() @ q.B_b(a, b) @ d for a, b in GAUSS])


def quad_stress(q, xi, eta, combo_name):
    d = membrane_dofs() @ q.d(combo_name)
    return spread(xi, eta, [q.Cm() @ q.B_m(a, b) @ d for a, b in GAUSS])


# ---------------------------------------------------------------- rectangular plate
def rect_B(p, x, y):
    """Strains at (x, y) of the bilinear displacements of a rectangle."""
    W, H = p.width(), p.height()
    B = zeros((3, 8))
    for i in range(4):
        a, b = CORNER[i]
        nx = a*(1 + b*(2*y/H - 1))/4*2/W
        ny = b*(1 + a*(2*x/W - 1))/4*2/H
        B[0, 2*i] = nx
        B[1, 2*i + 1] = ny
        B[2, 2*i] = ny
        B[2, 2*i + 1] = nx
    return B


def rect_membrane(p):
    W, H = p.width(), p.height()
    k8 = zeros((8, 8))
    for xi, eta in GAUSS:
        B = rect_B(p, (1 + xi)*W/2, (1 + eta)*H/2)
        k8 = k8 + B.T @ membrane_law(p) @ B*p.t*W*H/4
    k = zeros((24, 24))
    for n in range(4):
        for a in range(2):
            for m in range(4):
                for b in range(2):
                    k[6*n + a, 6*m + b] = k8[2*n + a, 2*m + b]
    return k


def rect_stress(p, x, y, combo_name):
    return membrane_law(p) @ rect_B(p, x, y) @ membrane_dofs() @ p.d(combo_name)


def powers(x, y):
    """w, its first, second and third derivatives for the twelve terms of the displacement of a rectangle."""
    terms = ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (3, 0), (2, 1), (1, 2), (0, 3), (3, 1), (1, 3))
    return terms


def falling(n, k):
    r = 1
    for i in range(k):
        r = r*(n - i)
    return r


def term(x, y, p, q, dx, dy):
    """The derivative of x^p y^q."""
    if p < dx or q < dy:
        return 0
    return falling(p, dx)*falling(q, dy)*x**(p - dx)*y**(q - dy)


def rect_C(p):
    """w, theta_x = dw/dy and theta_y = -dw/dx at the four corners in terms of the twelve coefficients."""
    W, H = p.width(), p.height()
    C = zeros((12, 12))
    n = 0
    for x, y in ((0, 0), (W, 0), (W, H), (0, H)):
        c = 0
        for a, b in powers(x, y):
            C[3*n, c] = term(x, y, a, b, 0, 0)
            C[3*n + 1, c] = term(x, y, a, b, 0, 1)
            C[3*n + 2, c] = -term(x, y, a, b, 1, 0)
            c = c + 1
        n = n + 1
    return C


def rect_a(p, combo_name):
    d = p.d(combo_name)
    u = zeros((12, 1))
    for n in range(4):
        for a in range(3):
            u[3*n + a, 0] = d[6*n + 2 + a, 0]
    return inv(rect_C(p)) @ u


def curvature(x, y):
    Q = zeros((3, 12))
    c = 0
    for a, b in powers(x, y):
        Q[0, c] = -term(x, y, a, b, 2, 0)
        Q[1, c] = -term(x, y, a, b, 0, 2)
        Q[2, c] = -2*term(x, y, a, b, 1, 1)
        c = c + 1
    return Q


def rect_moment(p, x, y, combo_name):
    return -(bending_law(p) @ curvature(x, y)) @ rect_a(p, combo_name)


def rect_shear(p, x, y, combo_name):
    """Equilibrium: Qx = dMx/dx + dMxy/dy and Qy = dMy/dy + dMxy/dx (moments positive as in the constitutive law)."""
    D = p.E*p.t**3/(12*(1 - p.nu**2))
    Q = zeros((2, 12))
    c = 0
    for a, b in powers(x, y):
        Q[0, c] = -D*(term(x, y, a, b, 3, 0) + term(x, y, a, b, 1, 2))
        Q[1, c] = -D*(term(x, y, a, b, 2, 1) + term(x, y, a, b, 0, 3))
        c = c + 1
    return Q @ rect_a(p, combo_name)
