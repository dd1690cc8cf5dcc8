"""Reflectivity vanishes without contrast, reverses with the layers and reduces to the impedance contrast."""
import numpy as np
from spec import eq, differs
from rockphypy import AVO
from specs import ref_avo as R
from specs import ref_em as E
from specs.lib import hti6, each


def ob_aki(th: '-60..60', tv: '-60..60[3]', p: '2500..4000', s: '900..2000', r: '1900..2500', p2: '2800..5000', s2: '900..2400', r2: '2000..2800', pv: '2500..4000[2]', sv: '900..2000[2]', rv: '1900..2500[2]', qv: '2500..4000[2]', wv: '900..2000[2]', uv: '1900..2500[2]'):
    "Aki-Richards"
    eq(AVO.Aki_Richards(th, p, p, s, s, r, r), (0, 0, 0, 0), 'no contrast, no reflection')
    eq(AVO.Aki_Richards(tv, p, p, s, s, r, r), ([0, 0, 0], [0, 0, 0], 0, 0), 'no contrast, angles')
    eq(AVO.Aki_Richards(tv, pv, pv, sv, sv, rv, rv), ([[0]*3]*2, [[0]*3]*2, [[0]]*2, [[0]]*2), 'no contrast, layers')
    a = AVO.Aki_Richards(th, p, p2, s, s2, r, r2)
    b = AVO.Aki_Richards(th, p2, p, s2, s, r2, r)
    eq((a[0], a[2], a[3]), (-b[0], -b[2], -b[3]), 'reversed by swapping the layers')
    a = AVO.Aki_Richards(tv, pv, qv, sv, wv, rv, uv)
    b = AVO.Aki_Richards(tv, qv, pv, wv, sv, uv, rv)
    eq((a[0], a[2], a[3]), (-b[0], -b[2], -b[3]), 'reversed by swapping the layers, arrays')
    a = AVO.Aki_Richards(0, p, p2, s, s2, r, r2)
    eq(a[0], (p2 - p)/(p2 + p) + (r2 - r)/(r2 + r), 'normal incidence: contrast of the acoustic impedance')
    eq(a[1], 0, 'normal incidence: no conversion')
    eq(AVO.Aki_Richards(0, p, p2, s, s2, r, r2)[0], AVO.Aki_Richards(0, p, p2, s2, s, r, r2)[0], 'normal incidence: shear velocity does not matter')


def ob_zoeppritz(p1: '3000..5000', s1: '1500..3200', r1: '2000..2700', p2: '1800..2900', s2: '700..1700', r2: '1900..2800', th: '5..60'):
    "Zoeppritz"
    f = lambda t: AVO.zoeppritz(p1, s1, r1, p1, s1, r1, t)
    k = lambda t: R.zoep(p1, s1, r1, p1, s1, r1, t, False, 2)
    eq(f(th), (0, 0), 'no contrast, no reflection', dev=k(th), finding='F06')
    eq(f(0), (0, 0), 'no contrast, normal incidence')
    z1, z2 = r1*p1, r2*p2
    a = AVO.zoeppritz(p1, s1, r1, p2, s2, r2, 0)
    eq(a, ((z2 - z1)/(z2 + z1), 0), 'normal incidence: contrast of the acoustic impedance')
    b = AVO.zoeppritz(p2, s2, r2, p1, s1, r1, 0)
    eq(a[0], -b[0], 'reversed by swapping the layers')


def ob_abe(p: '1500..4000', s: '600..900', r: '1.9..2.5', p2: '1800..5000', s2: '700..1000', r2: '2..2.8', pv: '1500..4000[3]', sv: '600..900[3]', rv: '1.9..2.5[3]'):
    "intercept, gradient and converted-wave slopes"
    eq(AVO.AVO_abe(p, s, r, p, s, r), (0, 0, 0, 0, 0), 'no contrast, no reflection')
    eq(AVO.AVO_abe(pv, sv, rv, pv, sv, rv), ([0]*3, [0]*3, [0]*3, [0]*3, [0]*3), 'no contrast, arrays')
    a, b = AVO.AVO_abe(p, s, r, p2, s2, r2), AVO.AVO_abe(p2, s2, r2, p, s, r)
    eq(a[:4], tuple([-x for x in b[:4]]), 'reversed by swapping the layers')
    eq(a[0], (p2 - p)/(p2 + p) + (r2 - r)/(r2 + r), 'intercept is the contrast of the acoustic impedance')
    k = AVO.Aki_Richards(20, p, p2, s, s2, r, r2)
    eq((a[0], a[2]), (k[2], k[3]), 'intercept and gradient agree with Aki-Richards')


def ob_hti(D1: '2..2.6', D2: '2..2.8', a11: '25..40', a33: '30..45', a13: '5..12', a44: '8..14', a66: '6..10', b11: '35..60', b33: '40..60', b13: '8..16', b44: '12..20', b66: '8..14', th: '-60..60[3]', az: '-180..360[2]', K1: '10..30', G1: '5..20', K2: '10..40', G2: '5..30'):
    "azimuthal reflectivity of HTI media"
    C1 = hti6(a11, a33, a13, a44, a66)
    C2 = hti6(b11, b33, b13, b44, b66)
    eq(AVO.AVO_HTI(D1, D1, C1, C1, th, az), [[0]*3]*2, 'no contrast, no reflection')
    eq(AVO.AVO_HTI(D1, D2, C1, C2, th, az), -AVO.AVO_HTI(D2, D1, C2, C1, th, az), 'reversed by swapping the layers')
    z1, z2 = np.sqrt(D1*a33), np.sqrt(D2*b33)
    eq(AVO.AVO_HTI(D1, D2, C1, C2, np.array([0.0]), az), [[(z2 - z1)/(z2 + z1)]]*2, 'normal incidence: contrast of the acoustic impedance')
    I1, I2 = E.iso6(K1, G1), E.iso6(K2, G2)
    f = AVO.AVO_HTI(D1, D2, I1, I2, th, az)
    eq(f[0], f[1], 'isotropic layers: no azimuthal variation')
    v = lambda K, G, D: (np.sqrt((K + 4*G/3)/D), np.sqrt(G/D))
    p1, s1 = v(K1, G1, D1)
    p2, s2 = v(K2, G2, D2)
    x, y = AVO.AVO_ortho(p1, s1, 0, 0, 0, 0, 0, D1, p2, s2, 0, 0, 0, 0, 0, D2, th)
    eq(f[0], x, 'isotropic layers: same as the orthorhombic form')
    eq(x, y, 'isotropic layers: both planes alike')


def ob_ortho(a1: '2..4', b1: '1..2', e11: '-0.1..0.2', d11: '-0.1..0.2', e12: '-0.1..0.2', d12: '-0.1..0.2', g1: '-0.1..0.2', r1: '2..2.6', a2: '2..5', b2: '1..2.5', e21: '-0.1..0.2', d21: '-0.1..0.2', e22: '-0.1..0.2', d22: '-0.1..0.2', g2: '-0.1..0.2', r2: '2..2.8', th: '-60..60', tv: '-60..60[3]'):
    "reflectivity in the symmetry planes of orthorhombic media"
    eq(AVO.AVO_ortho(a1, b1, e11, d11, e12, d12, g1, r1, a1, b1, e11, d11, e12, d12, g1, r1, th), (0, 0), 'no contrast, no reflection')
    eq(AVO.AVO_ortho(a1, b1, e11, d11, e12, d12, g1, r1, a1, b1, e11, d11, e12, d12, g1, r1, tv), ([0]*3, [0]*3), 'no contrast, angles')
    x = AVO.AVO_ortho(a1, b1, e11, d11, e12, d12, g1, r1, a2, b2, e21, d21, e22, d22, g2, r2, tv)
    y = AVO.AVO_ortho(a2, b2, e21, d21, e22, d22, g2, r2, a1, b1, e11, d11, e12, d12, g1, r1, tv)
    eq(x, (-y[0], -y[1]), 'reversed by swapping the layers')
    z = (r2*a2 - r1*a1)/(r2*a2 + r1*a1)
    eq(AVO.AVO_ortho(a1, b1, e11, d11, e12, d12, g1, r1, a2, b2, e21, d21, e22, d22, g2, r2, 0), (z, z), 'normal incidence: contrast of the acoustic impedance')
    x = AVO.AVO_ortho(a1, b1, e11, d11, e12, d12, g1, r1, a2, b2, e11, d11, e12, d12, g1, r2, th)
    eq(x[0], x[1], 'planes differ only through contrasts of anisotropy')
    k = AVO.AVO_ortho(a1, b1, e11, d11, e12, d12, g1, r1, a2, b2, e21, d21, e22, d22, g1, r2, th)
    m = AVO.AVO_ortho(a1, b1, e12, d12, e11, d11, g1, r1, a2, b2, e22, d22, e21, d21, g1, r2, th)
    eq(k, (m[1], m[0]), 'exchanging the planes exchanges the results')


def ob_ei(p: '2000..4000', s: '1000..1900', r: '2..2.6', tv: '-40..40[3]', K: '0.45..0.55', u: '1.01..1.04', pv: '2500..3000[2]', sv: '1000..1300[2]', rv: '2..2.6[2]'):
    "elastic impedance is the acoustic impedance at normal incidence and follows the linear reflectivity"
    z = np.array([0.0])
    for norm in (True, False):
        eq(AVO.EI_ref(p, s, r, z, K, norm)[0], [p*r], 'acoustic impedance')
        e = AVO.EI_ref(pv, sv, rv, z, K, norm)
        eq(e[0], [[pv[0]*rv[0]], [pv[1]*rv[1]]], 'acoustic impedance, layers')
    f = lambda a, b, c: AVO.EI_ref(a, b, c, tv, K, False)[0]
    t = np.sin(R.rad(tv))**2
    eq(f(p*u, s, r), f(p, s, r)*u**(1 + np.tan(R.rad(tv))**2), 'P velocity contrast')
    eq(f(p, s*u, r), f(p, s, r)*u**(-8*K*K*t), 'S velocity contrast')
    eq(f(p, s, r*u), f(p, s, r)*u**(1 - 4*K*K*t), 'density contrast')
    eq(AVO.EI_ref(p, s, r, tv, K, True)[0], [p*r]*3, 'normalised impedance of a uniform log is the acoustic impedance')
