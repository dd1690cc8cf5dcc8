"""Reference forms for fluid substitution and dispersion models."""
import numpy as np
import scipy.special as sp
from specs.ref_em import iso6


def gassmann(K, K0, Kf, phi):
    """(Ksat)/(K0-Ksat) = K/(K0-K) + Kf/(phi (K0-Kf)) solved for Ksat"""
    r = K/(K0 - K) + Kf/(phi*(K0 - Kf))
    return K0*r/(1 + r)


def gassmann_biot(K, K0, Kf, phi):
    b = 1 - K/K0
    return K + b*b/(phi/Kf + (b - phi)/K0)


def dry_of(Ks, K0, Kf, phi):
    r = Ks/(K0 - Ks) - Kf/(phi*(K0 - Kf))
    return K0*r/(1 + r)


def sub(phi, K0, Ks, f1, f2):
    r = Ks/(K0 - Ks) - f1/(phi*(K0 - f1)) + f2/(phi*(K0 - f2))
    return K0*r/(1 + r)


def vel(K, G, rho):
    """m/s from GPa and g/cc"""
    return 1000*np.sqrt((K + 4*G/3)/rho), 1000*np.sqrt(G/rho)


def biot_operator(w, a, rhofl, eta, regime):
    z = np.sqrt(w*rhofl/eta)*a
    if regime == 'low':
        return 1
    if regime == 'high':
        T = (1 + 1j)/np.sqrt(2)
    else:
        x = z*np.exp(-1j*np.pi/4)
        T = np.exp(1j*3*np.pi/4)*sp.jv(1, x)/sp.jv(0, x)
    return z*T/(1 + 2*1j*T/z)/4


def biot(Kd, Gd, K0, Kf, r0, rf, eta, phi, kap, a, alpha, f, regime):
    rho = (1 - phi)*r0 + phi*rf
    b = 1 - Kd/K0
    M = 1/(phi/Kf + (b - phi)/K0)
    C = b*M
    H = Kd + 4*Gd/3 + b*b*M
    w = 2*np.pi*f
    q = alpha*rf/phi - 1j*eta*biot_operator(w, a, rf, eta, regime)/(kap*w)
    A = C*C - M*H
    B = H*q + M*rho - 2*C*rf
    D = rf*rf - rho*q
    r = np.sqrt(B*B - 4*A*D)
    s1 = (r - B)/(2*A)
    s2 = -(r + B)/(2*A)
    s3 = (rho*q - rf*rf)/(Gd*q)
    v = [1/np.sqrt(s).real for s in (s1, s2, s3)]
    Q = [(1/s).imag/(1/s).real for s in (s1, s2, s3)]
    return v[0], v[1], v[2], Q[0], Q[1], Q[2]


def biot_hf(Kd, Gd, K0, Kf, r0, rf, phi, al):
    r12 = (1 - al)*phi*rf
    r22 = al*phi*rf
    r11 = (1 - phi)*r0 - r12
    d = 1 - phi - Kd/K0 + phi*K0/Kf
    P = ((1 - phi)*(1 - phi - Kd/K0)*K0 + phi*K0/Kf*Kd)/d + 4*Gd/3
    Q = (1 - phi - Kd/K0)*phi*K0/d
    R = phi*phi*K0/d
    D = P*r22 + R*r11 - 2*Q*r12
    m = r11*r22 - r12*r12
    s = np.sqrt(D*D - 4*m*(P*R - Q*Q))
    rho = (1 - phi)*r0 + phi*rf
    return np.sqrt((D + s)/(2*m)), np.sqrt((D - s)/(2*m)), np.sqrt(Gd/(rho - phi*rf/al))


def gs_hf(Kd, Gd, K0, Kf, r0, rf, phi, al):
    rho = (1 - phi)*r0 + phi*rf
    rb = r0*(1 - phi) + phi*rf*(1 - 1/al)
    b = 1 - Kd/K0
    H = Kd + 4*Gd/3
    t = (phi*rho/(rf*al) + b*(b - 2*phi/al))/((b - phi)/K0 + phi/Kf)
    return np.sqrt((H + t)/rb), np.sqrt(Gd/rb)


def gs_lf(V0, Vi, f, phi, rf, kap, eta):
    fc = phi*eta/(2*np.pi*rf*kap)
    x = fc*fc/(f*f)
    return np.sqrt((Vi**4 + V0**4*x)/(Vi**2 + V0**2*x))


def mavko_jizba(Vph, Vsh, Vp, Vs, K0, rd, rf, Kf, phi):
    Kd = rd*(Vp**2 - 4/3*Vs**2)/1000000
    Gd = rd*Vs**2/1000000
    Kh = rd*(Vph**2 - 4/3*Vsh**2)/1000000
    Ks = gassmann_biot(Kh, K0, Kf, phi)
    Gs = 1/(1/Gd - 4/15*(1/Kd - 1/Kh))
    vp, vs = vel(Ks, Gs, rd + phi*rf)
    return Ks, Gs, vp, vs


def bk_dry2sat(S, K0, G0, Kf, phi):
    """Brown-Korringa with an isotropic mineral: S0_iikk = delta_kk/(3 K0)"""
    m = [1/(3*K0), 1/(3*K0), 1/(3*K0), 0, 0, 0]
    d = [S[0, j] + S[1, j] + S[2, j] - m[j] for j in range(6)]
    bd = 0
    for i in range(3):
        for j in range(3):
            bd = bd + S[i, j]
    den = (bd - 1/K0) + phi*(1/Kf - 1/K0)
    return np.array([[S[i, j] - d[i]*d[j]/den for j in range(6)] for i in range(6)])


def bk_sat2dry(S, K0, G0, Kf, phi):
    m = [1/(3*K0), 1/(3*K0), 1/(3*K0), 0, 0, 0]
    d = [S[0, j] + S[1, j] + S[2, j] - m[j] for j in range(6)]
    bd = 0
    for i in range(3):
        for j in range(3):
            bd = bd + S[i, j]
    den = phi*(1/Kf - 1/K0) - (bd - 1/K0)
    return np.array([[S[i, j] + d[i]*d[j]/den for j in range(6)] for i in range(6)])


def squirt(S, H):
    D = [S[k] - H[k] for k in range(5)]
    t = 2*D[0] + 2*D[1] + 4*D[2] + D[3]
    e = [x/t for x in D]
    al = (2*e[0] + e[3] + 4*e[4] + 4*(e[0] - e[1]) - 1)/4
    T = 1 - 4*al
    g11 = e[0] - 4*al*(e[1] + e[2])/T
    g33 = e[3] - 8*al*e[2]/T
    g = [g11, e[1]/T, e[2]/T, g33, (4*e[4] - e[0] - e[2])/(4*T) + (g11 + g33)/4]
    return [S[k] - t*g[k] for k in range(5)]


def white(Kd, Gd, K0, phi, r0, rf1, rf2, f1, f2, e1, e2, kap, a, sg, f):
    w = 2*np.pi*f
    b = a/sg**(1/3)
    K1 = gassmann_biot(Kd, K0, f1, phi)
    K2 = gassmann_biot(Kd, K0, f2, phi)
    G = Gd
    q = 1 - Kd/K0
    den = K2*(3*K1 + 4*G) + 4*G*(K1 - K2)*sg
    R1 = (K1 - Kd)/q*(3*K2 + 4*G)/den
    R2 = (K2 - Kd)/q*(3*K1 + 4*G)/den
    A1 = 1/(phi/f1 + (q - phi)/K0)
    A2 = 1/(phi/f2 + (q - phi)/K0)
    E1 = A1*(1 - f1*(1 - K1/K0)*q/(phi*K1*(1 - f1/K0)))
    E2 = A2*(1 - f2*(1 - K2/K0)*q/(phi*K2*(1 - f2/K0)))
    x = np.sqrt(1j*w*e1/(kap*E1))
    y = np.sqrt(1j*w*e2/(kap*E2))
    Z1 = e1*a/kap*(1 - np.exp(-2*x*a))/((x*a - 1) + (x*a + 1)*np.exp(-2*x*a))
    h = np.exp(2*y*(b - a))
    Z2 = -e2*a/kap*((y*b + 1) + (y*b - 1)*h)/((y*b + 1)*(y*a - 1) - (y*b - 1)*(y*a + 1)*h)
    Q1 = q*A1/K1
    Q2 = q*A2/K2
    W = 3*a*a*(R1 - R2)*(Q2 - Q1)/(b**3*1j*w*(Z1 + Z2))
    Ki = den/((3*K1 + 4*G) - 3*(K1 - K2)*sg)
    Ks = Ki/(1 - Ki*W)
    M = Ks + 4*G/3
    rho = (1 - phi)*r0 + phi*(sg*rf1 + (1 - sg)*rf2)
    th = np.arctan(M.imag/M.real)
    V = np.sqrt(np.abs(M)/rho)/np.cos(th/2)
    return V, w*np.tan(th/2)/V, Ks
