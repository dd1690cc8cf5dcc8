"""Reference forms for effective-medium models, written from the theory (tensor / invariant form)."""
import numpy as np


def lame(K, G):
    return K - 2*G/3


def poisson(K, G):
    return (3*K - 2*G)/(2*(3*K + G))


def iso6(K, G):
    l = lame(K, G)
    C = np.zeros((6, 6))
    for i in range(3):
        for j in range(3):
            C[i, j] = l
        C[i, i] = l + 2*G
        C[i+3, i+3] = G
    return C


def voigt(M, f):
    s = 0
    for m, x in zip(M, f):
        s = s + x*m
    return s


def reuss(M, f):
    s = 0
    for m, x in zip(M, f):
        s = s + x/m
    return 1/s


def zeta(K, G):
    return G/6*(9*K + 8*G)/(K + 2*G)


def hs(f, K1, K2, G1, G2, K, G):
    """Hashin-Shtrikman with the reference medium (K, G), generalised-mean form"""
    a = 4*G/3
    z = zeta(K, G)
    Kb = 1/(f/(K1 + a) + (1 - f)/(K2 + a)) - a
    Gb = 1/(f/(G1 + z) + (1 - f)/(G2 + z)) - z
    return Kb, Gb


def crack_u(K, G, Ki, Gi, alpha):
    l = lame(K, G)
    k = (Ki + 4*Gi/3)/(np.pi*alpha*G)*(l + 2*G)/(l + G)
    m = 4*Gi/(np.pi*alpha*G)*(l + G)/(3*l + 4*G)
    U1 = 16/3*(l + 2*G)/(3*l + 4*G)/(1 + m)
    U3 = 4/3*(l + 2*G)/(l + G)/(1 + k)
    return U1, U3


VI = ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))


def crack_dC(K, G, U1, U3, crd, n):
    """first-order Hudson correction of cracks with unit normal n, 6x6"""
    l = lame(K, G)
    d = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
    C = np.zeros((6, 6))
    for p in range(6):
        for q in range(6):
            i, j = VI[p]
            k, m = VI[q]
            b1 = l*d[i][j] + 2*G*n[i]*n[j]
            b2 = l*d[k][m] + 2*G*n[k]*n[m]
            s = n[i]*n[k]*d[j][m] + n[i]*n[m]*d[j][k] + n[j]*n[k]*d[i][m] + n[j]*n[m]*d[i][k] - 4*n[i]*n[j]*n[k]*n[m]
            C[p, q] = -crd/G*(U3*b1*b2 + U1*G**2*s)
    return C


def hudson_axis(K, G, Ki, Gi, alpha, crd, axis):
    U1, U3 = crack_u(K, G, Ki, Gi, alpha)
    n = [0, 0, 0]
    n[axis-1] = 1
    return iso6(K, G) + crack_dC(K, G, U1, U3, crd, n)


def perm(C, axis):
    """move the symmetry axis of a VTI matrix from 3 to axis"""
    if axis == 3:
        return C
    p = (2, 1, 0, 5, 4, 3)
    D = np.zeros((6, 6))
    for i in range(6):
        for j in range(6):
            D[i, j] = C[p[i], p[j]]
    return D


def hudson2(K, G, Ki, Gi, alpha, crd, axis):
    """second-order corrections added, symmetry axis 3 then rotated"""
    U1, U3 = crack_u(K, G, Ki, Gi, alpha)
    l = lame(K, G)
    q = 15*(l/G)**2 + 28*(l/G) + 28
    e = (crd*U3)**2
    C = hudson_axis(K, G, Ki, Gi, alpha, crd, 3)
    c11 = q/15*l**2/(l + 2*G)*e
    c13 = q/15*l*e
    c33 = q/15*(l + 2*G)*e
    c44 = 2/15*G*(3*l + 8*G)/(l + 2*G)*(crd*U1)**2
    A = np.zeros((6, 6))
    # C66 is uncorrected, hence C12 = C11 - 2 C66 carries the C11 correction
    for i in range(2):
        for j in range(2):
            A[i, j] = c11
        A[i, 2] = c13
        A[2, i] = c13
        A[i+3, i+3] = c44
    A[2, 2] = c33
    return perm(C + A, axis)


def hudson_cone(K, G, Ki, Gi, alpha, crd, theta):
    """average over azimuth of cracks whose normals make the angle theta (deg) with axis 3"""
    U1, U3 = crack_u(K, G, Ki, Gi, alpha)
    t = theta*np.pi/180
    s, c = np.sin(t), np.cos(t)
    C = iso6(K, G)
    r = np.sqrt(0.5)
    for ca, sa in ((1, 0), (r, r), (0, 1), (-r, r), (-1, 0), (-r, -r), (0, -1), (r, -r)):
        C = C + crack_dC(K, G, U1, U3, crd/8, (s*ca, s*sa, c))
    return C


def hudson_rand(K, G, Ki, Gi, alpha, crd):
    """isotropic average through the tensor invariants"""
    U1, U3 = crack_u(K, G, Ki, Gi, alpha)
    l = lame(K, G)
    iijj = -crd/G*U3*(3*l + 2*G)**2
    ijij = -crd/G*(U3*(3*l**2 + 4*l*G + 4*G**2) + U1*G**2*4)
    return K + iijj/9, G + (3*ijij - iijj)/30


def theta_f(alpha, side):
    """Berryman's theta and f; side 'oblate' / 'prolate'"""
    if side == 'oblate':
        th = alpha/(1 - alpha**2)**1.5*(np.arccos(alpha) - alpha*np.sqrt(1 - alpha**2))
    elif side == 'prolate':
        th = alpha/(alpha**2 - 1)**1.5*(alpha*np.sqrt(alpha**2 - 1) - np.arccosh(alpha))
    else:
        th = alpha/(alpha**2 - 1)**1.5*(alpha*np.sqrt(alpha**2 - 1) - 1/np.cosh(alpha))
    return th, alpha**2/(1 - alpha**2)*(3*th - 2)


def pq(Km, Gm, Ki, Gi, alpha, side):
    if side == 'sphere':
        z = zeta(Km, Gm)
        return (Km + 4*Gm/3)/(Ki + 4*Gm/3), (Gm + z)/(Gi + z)
    t, f = theta_f(alpha, side)
    A = Gi/Gm - 1
    B = (Ki/Km - Gi/Gm)/3
    R = 3*Gm/(3*Km + 4*Gm)
    h = 3 - 4*R
    F1 = 1 + A*(3/2*(f + t) - R*(3/2*f + 5/2*t - 4/3))
    F2 = 1 + A*(1 + 3/2*(f + t) - R/2*(3*f + 5*t)) + B*h + A/2*(A + 3*B)*h*(f + t - R*(f - t + 2*t*t))
    F3 = 1 + A*(1 - (f + 3/2*t) + R*(f + t))
    F4 = 1 + A/4*(f + 3*t - R*(f - t))
    F5 = A*(-f + R*(f + t - 4/3)) + B*t*h
    F6 = 1 + A*(1 + f - R*(f + t)) + B*(1 - t)*h
    F7 = 2 + A/4*(3*f + 9*t - R*(3*f + 5*t)) + B*t*h
    F8 = A*(1 - 2*R + f/2*(R - 1) + t/2*(5*R - 3)) + B*(1 - t)*h
    F9 = A*((R - 1)*f - R*t) + B*t*h
    P = F1/F2
    Q = (2/F3 + 1/F4 + (F4*F5 + F6*F7 - F8*F9)/(F2*F4))/5
    return P, Q


def eshelby_cheng(K, G, phi, a, Kf, lit=True):
    l = lame(K, G)
    s = poisson(K, G)
    R = (1 - 2*s)/(8*np.pi*(1 - s))
    Q = 3/(8*np.pi*(1 - s))
    w = 1 - a*a
    Ia = 2*np.pi*a*(np.arccos(a) - a*np.sqrt(w))/w**1.5
    Ic = 4*np.pi - 2*Ia
    Iac = (Ic - Ia)/(3*w)
    Iaa = np.pi - 3/4*Iac
    Iab = Iaa/3
    S11 = Q*Iaa + R*Ia
    S33 = Q*(4*np.pi/3 - 2*Iac*a*a) + R*Ic
    S12 = Q*Iab - R*Ia
    S13 = Q*Iac*a*a - R*Ia
    S31 = Q*Iac - R*Ic
    S66 = Q*Iab + R*Ia
    S44 = Q*(1 + a*a)*Iac/2 + R*(Ia + Ic)/2
    C = Kf/(3*(K - Kf))
    D = S33*S11 + S33*S12 - 2*S31*S13 - (S11 + S12 + S33 - 1 - 3*C) - C*(S11 + S12 + 2*(S33 - S13 - S31))
    E = S33*S11 - S31*S13 - (S33 + S11 - 2*C - 1) + C*(S31 + S13 - S11 - S33)
    if lit:
        c11 = l*(S31 - S33 + 1)/D + 2*G*E/(D*(S12 - S11 + 1))
    else:
        c11 = l*(S31 - S33 + 1) + 2*G*E/(D*(S12 - S11 + 1))
    c33 = ((l + 2*G)*(1 - S12 - S11) + 2*l*S13 + 4*G*C)/D
    c13 = ((l + 2*G)*(S13 + S31) - 4*G*C + l*(S13 - S12 - S11 - S33 + 2))/(2*D)
    c44 = G/(1 - 2*S44)
    c66 = G/(1 - 2*S66)
    return l + 2*G - phi*c11, l + 2*G - phi*c33, l - phi*c13, G - phi*c44, G - phi*c66


def ti6(C11, C33, C13, C44, C66):
    C = np.zeros((6, 6))
    C[0, 0] = C11
    C[1, 1] = C11
    C[2, 2] = C33
    C[0, 1] = C11 - 2*C66
    C[1, 0] = C11 - 2*C66
    for i in range(2):
        C[i, 2] = C13
        C[2, i] = C13
        C[3+i, 3+i] = C44
    C[5, 5] = C66
    return C


def ortho6(C11, C22, C33, C12, C13, C23, C44, C55, C66):
    C = np.zeros((6, 6))
    C[0, 0], C[1, 1], C[2, 2], C[3, 3], C[4, 4], C[5, 5] = C11, C22, C33, C44, C55, C66
    C[0, 1] = C12
    C[1, 0] = C12
    C[0, 2] = C13
    C[2, 0] = C13
    C[1, 2] = C23
    C[2, 1] = C23
    return C


def sphere_s(K, G):
    """Eshelby invariants of a sphere in the medium (K, G)"""
    return 3*K/(3*K + 4*G), 6*(K + 2*G)/(5*(3*K + 4*G))


def mt(f, Km, Gm, K1, G1, K2, G2):
    a, b = sphere_s(Km, Gm)
    w1, w2 = f/(Km - (Km - K1)*a), (1 - f)/(Km - (Km - K2)*a)
    g1, g2 = f/(Gm - (Gm - G1)*b), (1 - f)/(Gm - (Gm - G2)*b)
    return (w1*K1 + w2*K2)/(w1 + w2), (g1*G1 + g2*G2)/(g1 + g2)


def swiss(K, G, phi):
    Kd = 1/(1/K + phi*(1/K + 3/(4*G)))
    Gd = G/(1 + phi*(15*K + 20*G)/(9*K + 8*G))
    return Kd, Gd


def sc(phi, K, G, n):
    k, g = K, G
    for i in range(n):
        k = 1/(1/K + phi*(1/k + 3/(4*g)))
        g = 1/(1/G + phi*(15*k + 20*g)/(g*(9*k + 8*g)))
    return k, g


def dilute_crack(K, G, cd):
    v = poisson(K, G)
    return K/(1 + 16*(1 - v*v)*cd/(9*(1 - 2*v))), G/(1 + 32*(1 - v)*(5 - v)*cd/(45*(2 - v)))


def ocb(K, G, cd):
    v = poisson(K, G)*(1 - 16*cd/9)
    return K*(1 - 16*(1 - v*v)/(9*(1 - 2*v))*cd), G*(1 - 32*(1 - v)*(5 - v)/(45*(2 - v))*cd)


def sc_dilute(K, G, Ki, Gi, f, mode):
    """ratio of effective to matrix moduli, dilute spheres"""
    s1, s2 = sphere_s(K, G)
    dk = f*(K - Ki)/(K - s1*(K - Ki))
    dg = f*(G - Gi)/(G - s2*(G - Gi))
    if mode == 'strain':
        return 1 - dk, 1 - dg
    return 1/(1 + dk), 1/(1 + dg)


def sc_flex(f, n, K, Ki, G, Gi):
    k, g = K, G
    for i in range(n):
        s1, s2 = sphere_s(k, g)
        k, g = K - f*(K - Ki)*k/(k - s1*(k - Ki)), G - f*(G - Gi)*g/(g - s2*(g - Gi))
    return k, g


def ocr(v, D, crd, v0, w):
    e1 = 45/16*(v0 - v)*(2 - v)/((1 - v*v)*(D*(1 + 3*v0)*(2 - v) - 2*(1 - 2*v0))) - crd
    h = 9/16*(1 - 2*v)/(1 - v0*v0)
    e2 = crd*D*D - (crd + h + 3*w/(4*np.pi))*D + h
    return e1, e2
