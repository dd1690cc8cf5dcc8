"""Reference forms for granular-medium models, from the published equations."""
import numpy as np
from specs.ref_em import poisson, lame, zeta, hs, ti6


def mhs(x, K1, G1, K2, G2, K, G):
    """modified Hashin-Shtrikman: fraction x of (K1, G1), 1-x of (K2, G2), reference medium (K, G)"""
    return hs(x, K1, K2, G1, G2, K, G)


def contact_radius(phi, phic, Cn, scheme):
    if scheme == 1:
        return 2*((phic - phi)/(3*Cn*(1 - phic)))**0.25
    return np.sqrt(2*(phic - phi)/(3*(1 - phic)))


def contactcement(K0, G0, Kc, Gc, phi, phic, Cn, scheme):
    v = poisson(K0, G0)
    vc = poisson(Kc, Gc)
    a = contact_radius(phi, phic, Cn, scheme)
    L = 2*Gc/(np.pi*G0)*(1 - v)*(1 - vc)/(1 - 2*vc)
    Sn = -0.024153*L**(-1.3646)*a*a + 0.20405*L**(-0.89008)*a + 0.00024649*L**(-1.9864)
    T = Gc/(np.pi*G0)
    At = -0.01*(2.26*v*v + 2.07*v + 2.3)*T**(0.079*v*v + 0.1754*v - 1.342)
    Bt = (0.0573*v*v + 0.0937*v + 0.202)*T**(0.0274*v*v + 0.0529*v - 0.8765)
    Ct = 0.0001*(9.654*v*v + 4.945*v + 3.1)*T**(0.01867*v*v + 0.4011*v - 1.8186)
    St = At*a*a + Bt*a + Ct
    Mc = Kc + 4*Gc/3
    K = Cn*(1 - phic)*Mc*Sn/6
    return K, 0.6*K + 0.15*Cn*(1 - phic)*Gc*St


def hm(K0, G0, phic, Cn, sigma, f):
    """Hertz-Mindlin, stress in MPa, moduli in GPa"""
    P = sigma/1000
    v = poisson(K0, G0)
    c = Cn*(1 - phic)*G0/(np.pi*(1 - v))
    K = (c*c*P/18)**(1/3)
    G = (2 + 3*f - (1 + 3*f)*v)/(5*(2 - v))*(3*c*c*P/2)**(1/3)
    return K, G


def walton(K0, G0, phic, Cn, sigma, f):
    P = sigma/1000
    l = lame(K0, G0)
    B = (1/G0 + 1/(G0 + l))/(4*np.pi)
    K = (3*(1 - phic)**2*Cn**2*P/(np.pi**4*B**2))**(1/3)/6
    v = poisson(K0, G0)
    smooth = 0.6*K
    rough = 0.6*K*(5 - 4*v)/(2 - v)
    return K, (1 - f)*smooth + f*rough


def softsand(K0, G0, phi, phic, Cn, sigma, f):
    k, g = hm(K0, G0, phic, Cn, sigma, f)
    return mhs(phi/phic, k, g, K0, G0, k, g)


def stiffsand(K0, G0, phi, phic, Cn, sigma, f):
    k, g = hm(K0, G0, phic, Cn, sigma, f)
    return mhs(phi/phic, k, g, K0, G0, K0, G0)


def constantcement(phib, K0, G0, Kc, Gc, phi, phic, Cn, scheme):
    k, g = contactcement(K0, G0, Kc, Gc, phib, phic, Cn, scheme)
    return mhs(phi/phib, k, g, K0, G0, k, g)


def muhs(K0, G0, Kc, Gc, phi, phib, phic, Cn, scheme):
    k, g = contactcement(K0, G0, Kc, Gc, phib, phic, Cn, scheme)
    return mhs(phi/phib, k, g, K0, G0, K0, G0)


def cemented(K0, G0, Kc, Gc, phic, vcem, vci, Cn, scheme, above):
    """cemented end member: contact cement up to the threshold, increasing cement above"""
    if above:
        return muhs(K0, G0, Kc, Gc, phic - vcem, phic - vci, phic, Cn, scheme)
    return contactcement(K0, G0, Kc, Gc, phic - vcem, phic, Cn, scheme)


def patchy(f, kc, gc, ku, gu, mode):
    """fraction f of cemented sand; stiff: the cemented phase is the reference medium"""
    if mode == 'stiff':
        return hs(f, kc, ku, gc, gu, kc, gc)
    return hs(f, kc, ku, gc, gu, ku, gu)


def pcm(f, sigma, K0, G0, phi, phic, vcem, vci, Kc, Gc, Cn, mode, scheme, f_, above):
    ku, gu = hm(K0, G0, phic, Cn, sigma, f_)
    kc, gc = cemented(K0, G0, Kc, Gc, phic, vcem, vci, Cn, scheme, above)
    kp, gp = patchy(f, kc, gc, ku, gu, mode)
    return mhs(phi/phic, kp, gp, K0, G0, kp, gp)


def vpcm(alpha, f, sigma, K0, G0, phi, phic, vcem, vci, Kc, Gc, Cn, scheme, f_, above):
    ku, gu = hm(K0, G0, phic, Cn, sigma, f_)
    kc, gc = cemented(K0, G0, Kc, Gc, phic, vcem, vci, Cn, scheme, above)
    ks, gs = patchy(f, kc, gc, ku, gu, 'stiff')
    ko, go = patchy(f, kc, gc, ku, gu, 'soft')
    kp, gp = ks + alpha*(ko - ks), gs + alpha*(go - gs)
    return mhs(phi/phic, kp, gp, K0, G0, kp, gp)


def silty(C, Kq, Gq, Ksh, Gsh):
    return hs(C, Ksh, Kq, Gsh, Gq, Ksh, Gsh)


def shaly(phis, C, Kss, Gss, Kcc, Gcc):
    return hs(C/phis, Kcc, Kss, Gcc, Gss, Kss, Gss)


def johnson(K0, G0, n, phi, e, ea, path, lit_log, lit_c11):
    """Norris-Johnson strained sphere pack; lit_* select the published forms of I0 and C11"""
    v = poisson(K0, G0)
    Cn = 4*G0/(1 - v)
    Ct = 8*G0/(2 - v)
    B = 2/(np.pi*Cn)
    C = 4/np.pi*(1/Ct - 1/Cn)
    a2 = e/ea
    a = np.sqrt(a2)
    g = 3*Cn*Ct*n*(1 - phi)*np.sqrt(-e)/(32*a)
    s = np.sqrt(1 + a2)
    if lit_log:
        I0 = (s + a2*np.log((1 + s)/a))/2
    else:
        I0 = (s + a2*np.log(1 + s/a))/2
    I2 = (s**3 - a2*I0)/4
    I4 = (s**3 - 3*a2*I2)/6
    if lit_c11:
        c11 = g*(2*B*(I0 - I2) + 3/4*C*(I0 - 2*I2 + I4))
    else:
        c11 = g*(4*B/3 + 2*C/5 + a2*(2*B/15 + C/35))
    c33 = g*(4*B*I2 + 2*C*I4)
    c13 = g*C*(I2 - I4)
    c44 = g*(B/2*(I0 + I2) + C*(I2 - I4))
    c66 = g*(B*(I0 - I2) + C/4*(I0 - 2*I2 + I4))
    w = (a2*I0 + (1 - a2)*I2 - I4)
    if path == 'together':
        t = I2 - I4
    elif path == 'uni_iso':
        t = 1/12
    else:
        t = w - 2/3*a**3
    pre = -(np.sqrt(-e))**3*(1 - phi)*n/(4*np.pi*a**3)
    return ti6(c11, c33, c13, c44, c66), 2*pre*(Ct*t + Cn*(a2*I2 + I4)), pre*(Cn*w - Ct*t)
