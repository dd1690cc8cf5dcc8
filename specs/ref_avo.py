"""Reference forms: reflectivity, anisotropy parameters, coordinate transforms."""
import numpy as np


def rad(deg):
    return deg*np.pi/180


def hti(D1, D2, C1, C2, th, az):
    """Rueger (1998): PP reflection between HTI half-spaces (symmetry axis along x1)"""
    th = rad(th)
    ca = np.cos(rad(az))**2
    sa = 1 - ca
    s = np.sin(th)**2
    t = s/(1 - s)
    def par(C, D):
        a = np.sqrt(C[2, 2]/D)
        return (D*a, a, np.sqrt(C[3, 3]/D), C[3, 3], (C[0, 0]/C[2, 2] - 1)/2,
                ((C[0, 2] + C[4, 4])**2 - (C[2, 2] - C[4, 4])**2)/(2*C[2, 2]*(C[2, 2] - C[4, 4])), (C[3, 3]/C[5, 5] - 1)/2)
    Z1, a1, b1, m1, e1, d1, g1 = par(C1, D1)
    Z2, a2, b2, m2, e2, d2, g2 = par(C2, D2)
    k = (2*(b1 + b2)/(a1 + a2))**2
    da = 2*(a2 - a1)/(a1 + a2)
    R0 = (Z2 - Z1)/(Z2 + Z1)
    G = da - k*2*(m2 - m1)/(m1 + m2) + (d2 - d1 + 2*k*(g2 - g1))*ca
    H = da + (e2 - e1)*ca*ca + (d2 - d1)*sa*ca
    return R0 + G*s/2 + H*s*t/2


def aki(th, p1, p2, s1, s2, r1, r2):
    """Aki-Richards linearised PP and PS reflectivity"""
    th = rad(th)
    rp, rs, rr = 2*(p2 - p1)/(p1 + p2), 2*(s2 - s1)/(s1 + s2), 2*(r2 - r1)/(r1 + r2)
    a, b = (p1 + p2)/2, (s1 + s2)/2
    g = b/a
    s = np.sin(th)
    R0 = (rp + rr)/2
    M = -2*g*g*(2*rs + rr)
    N = rp/2
    pp = R0 + M*s*s + N*np.tan(th)**2
    p = s/p1
    cs = np.sqrt(1 - (p*s1)**2)
    c = np.cos(th)
    ps = -p*a/(2*cs)*((1 - 2*b*b*p*p + 2*b*b*c/a*cs/b)*rr - (4*p*p*b*b - 4*b*b*c/a*cs/b)*rs)
    return pp, ps, R0, M + N


def zoep(p1, s1, r1, p2, s2, r2, th, as_degrees=True, shear_leg=1):
    """Aki and Richards' closed form of the Zoeppritz equations, incident P"""
    c1 = np.cos(rad(th))
    p = np.sin(rad(th) if as_degrees else th)/p1
    c2 = np.sqrt(1 - (p*p2)**2)
    k1 = np.sqrt(1 - (p*s1)**2)
    k2 = np.sqrt(1 - (p*s2)**2)
    a = r2*(1 - 2*(p*s2)**2) - r1*(1 - 2*(p*s1)**2)
    b = r2*(1 - 2*(p*s2)**2) + 2*r1*(p*s1)**2
    c = r1*(1 - 2*(p*s1)**2) + 2*r2*(p*s2)**2
    d = 2*(r2*s2*s2 - r1*s1*s1)
    kk = k1/s1 if shear_leg == 1 else k2/s2
    E = b*c1/p1 + c*c2/p2
    F = b*k1/s1 + c*k2/s2
    G = a - d*c1/p1*k2/s2
    H = a - d*c2/p2*kk
    D = E*F + G*H*p*p
    Rpp = ((b*c1/p1 - c*c2/p2)*F - (a + d*c1/p1*k2/s2)*H*p*p)/D
    Rps = -2*c1/p1*(a*b + c*d*c2/p2*k2/s2)*p*p1/(s1*D)
    return Rpp, Rps


def abe(p1, s1, r1, p2, s2, r2):
    rp, rs, rr = 2*(p2 - p1)/(p1 + p2), 2*(s2 - s1)/(s1 + s2), 2*(r2 - r1)/(r1 + r2)
    g = (s1 + s2)/(p1 + p2)
    R0 = (rp + rr)/2
    pr = lambda p, s: (p*p - 2*s*s)/(2*(p*p - s*s))
    n1, n2 = pr(p1, s1), pr(p2, s2)
    n = (n1 + n2)/2
    B = rp/(rp + rr)
    A = B - 2*(1 + B)*(1 - 2*n)/(1 - n)
    return (R0, A*R0 + (n2 - n1)/(1 - n)**2, rp/2 - 2*g*g*rr - 4*g*g*rs,
            -rr/2 - g*(rr + 2*rs) + g**3*(rr/2 + rs),
            -2*(s1/p1)*(rr*(0.5 + 0.25/g) + rs))


def ei(p, s, r, th, K, np_, ns, nr):
    """elastic impedances; np_, ns, nr are the normalising averages (1 when not normalised)"""
    th = rad(th)
    x = np.sin(th)
    xs = x*s/p
    ip, is_ = np_*nr, ns*nr
    P, S, R = p/np_, s/ns, r/nr
    c = np.cos(th)
    cs = np.sqrt(1 - xs*xs)
    q = np.sqrt(1 - K*K*x*x)
    w = np.sqrt(1 - xs*xs/(K*K))
    pp = ip*P**(1 + np.tan(th)**2)*S**(-8*K*K*x*x)*R**(1 - 4*K*K*x*x)
    psv = ip*S**(x/q*(4*x*x*K*K - 4*K*c*q))*R**(-x/q*(1 - 2*x*x*K*K + 2*K*c*q))
    svp = is_*S**(xs/w*(4*xs*xs - 4*K*cs*w))*R**(-xs/w*(1 - 2*xs*xs + 2*K*cs*w))
    svsv = is_*S**(8*xs*xs - 1/(1 - xs*xs))*R**(4*xs*xs - 1)
    shsh = is_*S**(xs*xs/(1 - xs*xs) - 1)/R
    return pp, psv, svp, svsv, shsh


def ortho(a1, b1, e11, d11, e12, d12, g1, r1, a2, b2, e21, d21, e22, d22, g2, r2, th):
    """Rueger (1998): PP reflection in the two vertical symmetry planes of orthorhombic media"""
    th = rad(th)
    s = np.sin(th)**2
    t = s/(1 - s)
    da = 2*(a2 - a1)/(a1 + a2)
    k = 4*((b1 + b2)/(a1 + a2))**2
    m1, m2 = r1*b1**2, r2*b2**2
    dm = 2*(m2 - m1)/(m1 + m2)
    R0 = (r2*a2 - r1*a1)/(r2*a2 + r1*a1)
    xz = R0 + (da - k*(dm - 2*(g2 - g1)) + (d22 - d12))*s/2 + (da + (e22 - e12))*s*t/2
    yz = R0 + (da - k*dm + (d21 - d11))*s/2 + (da + (e21 - e11))*s*t/2
    return xz, yz


def thomsen(C11, C33, C13, C44, C66, den, th):
    s2 = np.sin(rad(th))**2
    c2 = 1 - s2
    a2, b2 = C33/den, C44/den
    e = (C11/C33 - 1)/2
    g = (C66/C44 - 1)/2
    d = ((C13 + C44)**2 - (C33 - C44)**2)/(2*C33*(C33 - C44))
    a, b = 1000*np.sqrt(a2), 1000*np.sqrt(b2)
    return (a*(1 + d*s2*c2 + e*s2*s2), b*(1 + C33/C44*(e - d)*s2*c2), b*(1 + g*s2), e, g, d)


def delta(Ca, Cb, Cc):
    """((C_ab + C_cc)^2 - (C_bb - C_cc)^2) / (2 C_bb (C_bb - C_cc))"""
    return ((Ca + Cc)**2 - (Cb - Cc)**2)/(2*Cb*(Cb - Cc))


def backus(v, lam, G):
    n = len(lam)
    tot = sum(v)
    av = lambda f: sum([v[i]*f(lam[i], G[i]) for i in range(n)])/tot
    i33 = av(lambda l, g: 1/(l + 2*g))
    r = av(lambda l, g: l/(l + 2*g))
    C66 = av(lambda l, g: g)
    return (av(lambda l, g: 4*g*(l + g)/(l + 2*g)) + r*r/i33, 1/i33, r/i33, 1/av(lambda l, g: 1/g), C66)


def azi(Ca, Cb, Cab, Cs, Csh_hi, Csh_lo, den, az):
    """phase velocities in a symmetry plane: Ca along azimuth 0, Cb along azimuth 90; returns (P, pure shear mode, coupled shear mode)"""
    s2 = np.sin(rad(az))**2
    c2 = 1 - s2
    R = np.sqrt(((Cb - Cs)*s2 - (Ca - Cs)*c2)**2 + 4*(Cab + Cs)**2*s2*c2)
    A = (Cb + Cs)*s2 + (Ca + Cs)*c2
    return np.sqrt((A + R)/(2*den)), np.sqrt((Csh_lo*c2 + Csh_hi*s2)/den), np.sqrt((A - R)/(2*den))


def bond(C, th, axis, k):
    """stiffness in rotated axes; k = 2 is the tensor transformation law"""
    c, s = np.cos(rad(th)), np.sin(rad(th))
    if axis == 3:
        b = [[c, s, 0], [-s, c, 0], [0, 0, 1]]
    else:
        b = [[1, 0, 0], [0, c, -s], [0, s, c]]
    pairs = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    rows = []
    for (i, j) in pairs:
        row = []
        for (m, n) in pairs:
            if m == n:
                row.append(b[i][m]*b[j][m])
            elif i == j:
                row.append(k*b[i][m]*b[j][n])
            else:
                row.append(b[i][m]*b[j][n] + b[i][n]*b[j][m])
        rows.append(row)
    M = np.array(rows)
    return M @ C @ M.T
