"""Angles are degrees, converted exactly once."""
import numpy as np
from spec import eq, differs
from rockphypy import AVO, Anisotropy, EM
from specs import ref_avo as R
from specs.lib import each, vti6, hti6


def ob_cone(K: '10..80', G: '5..60', Ki: '0.01..4', Gi: '0.01..3', a: '0.001..0.5', crd: '0.001..0.1', th: '-80..80'):
    "cone of crack normals"
    f = lambda t: EM.hudson_cone(K, G, Ki, Gi, a, crd, t)
    eq(f(th + 360), f(th), 'full turn')
    eq(f(th + 180), f(th), 'half turn')
    eq(f(-th), f(th), 'reflection')
    eq(f(180 - th), f(th), 'opposite cone')
    differs(f(60), f(30), 'cone angle matters')
    differs(f(90), f(0), 'vertical and horizontal cracks')


def ob_hti(D1: '2..2.6', D2: '2..2.8', a11: '25..40', a33: '30..45', a13: '5..12', a44: '8..14', a66: '6..10', b11: '35..60', b33: '40..60', b13: '8..16', b44: '12..20', b66: '8..14', th: '-60..60[3]', az: '-180..360[2]', c11: '25..40', c13: '5..12', c66: '6..10'):
    "incidence and azimuth of the HTI reflectivity"
    C1 = hti6(a11, a33, a13, a44, a66)
    C2 = hti6(b11, b33, b13, b44, b66)
    f = lambda t, z: AVO.AVO_HTI(D1, D2, C1, C2, t, z)
    eq(f(th + 360, az), f(th, az), 'incidence, full turn')
    eq(f(th + 180, az), f(th, az), 'incidence, half turn')
    eq(f(-th, az), f(th, az), 'incidence, reflection')
    eq(f(th, az + 360), f(th, az), 'azimuth, full turn')
    eq(f(th, az + 180), f(th, az), 'azimuth, half turn')
    eq(f(th, -az), f(th, az), 'azimuth, reflection')
    e1 = np.array([0.0, 90.0])
    e2 = np.array([180.0, 270.0])
    eq(f(th, e1), f(th, e2), 'principal azimuths')
    Z1, Z2 = D1*np.sqrt(a33/D1), D2*np.sqrt(b33/D2)
    r0 = (Z2 - Z1)/(Z2 + Z1)
    eq(f(np.array([0.0, 180.0]), az), [[r0, r0], [r0, r0]], 'normal incidence')
    D = hti6(c11, a33, c13, a44, c66)
    iso = np.array([90.0, -90.0])
    eq(AVO.AVO_HTI(D1, D2, D, C2, th, iso), f(th, iso), 'along the fractures only C33 and C44 count')
    one = np.array([30.0])
    differs(f(one, np.array([60.0])), f(one, np.array([0.0])), 'azimuth matters')
    differs(f(np.array([20.0]), one), f(np.array([40.0]), one), 'incidence matters')


def ob_aki(th: '-60..60', tv: '-60..60[3]', p1: '2500..4000', p2: '2800..5000', s1: '900..2000', s2: '900..2400', r1: '1900..2500', r2: '2000..2800'):
    "Aki-Richards"
    f = lambda t: AVO.Aki_Richards(t, p1, p2, s1, s2, r1, r2)
    eq(f(th + 360), f(th), 'full turn')
    eq(f(tv + 360), f(tv), 'full turn, array')
    m, p = f(-th), f(th)
    eq((m[0], m[1]), (p[0], -p[1]), 'PP even, PS odd')
    z = f(0)
    eq((z[0], z[1]), (p[2], 0), 'normal incidence is the intercept')
    differs(f(60)[0], f(30)[0], 'incidence matters')
    # at 45 degrees sin^2 = 1/2 and tan^2 = 1: R0 + M/2 + N, with M + N the gradient; at 30: R0 + M/4 + N/3
    q, h = f(45), f(30)
    eq(12*(h[0] - h[2]) - 2*q[3] - 2*(q[0] - q[2]) , 0, '30 and 45 degrees')


def ob_zoeppritz(p1: '3000..5000', s1: '1500..3200', r1: '2000..2700', p2: '1800..2900', s2: '700..1700', r2: '1900..2800', th: '-60..60', tv: '-60..60[3]'):
    "Zoeppritz"
    f = lambda t: AVO.zoeppritz(p1, s1, r1, p2, s2, r2, t)
    k = lambda t: R.zoep(p1, s1, r1, p2, s2, r2, t, False, 2)
    eq(f(th + 360), f(th), 'full turn', dev=k(th + 360), finding='F06')
    eq(f(tv + 360), f(tv), 'full turn, array', dev=each(k, 3, tv + 360), finding='F06')
    a, b = f(-th), f(th)
    eq((a[0], a[1]), (b[0], -b[1]), 'PP even, PS odd')
    eq(f(0)[1], 0, 'no conversion at normal incidence')


def ob_ei(p: '2000..4000', s: '1000..1900', r: '2..2.6', tv: '-25..25[3]', K: '0.45..0.55', pv: '2500..3000[2]', sv: '1000..1300[2]', rv: '2..2.6[2]'):
    "elastic impedance"
    for norm in (True, False):
        f = lambda t: AVO.EI_ref(p, s, r, t, K, norm)
        eq(f(tv + 360), f(tv), 'full turn')
        g = lambda t: AVO.EI_ref(pv, sv, rv, t, K, norm)
        eq(g(tv + 360), g(tv), 'full turn, layers')
        a, b = f(-tv), f(tv)
        eq((a[0], a[3], a[4]), (b[0], b[3], b[4]), 'PP, SVSV and SHSH even')
        o = f(np.array([0.0, 0.0, 0.0]))
        eq((a[1]*b[1], a[2]*b[2]), (o[1]*o[1], o[2]*o[2]), 'conversion exponents odd')
        z = np.array([0.0])
        eq(f(z)[0], [p*r], 'normal incidence is the acoustic impedance')
    differs(f(np.array([60.0]))[0], f(np.array([30.0]))[0], 'incidence matters')


def ob_ortho(a1: '2..4', b1: '1..2', e11: '-0.1..0.2', d11: '-0.1..0.2', e12: '-0.1..0.2', d12: '-0.1..0.2', g1: '-0.1..0.2', r1: '2..2.6', a2: '2..5', b2: '1..2.5', e21: '-0.1..0.2', d21: '-0.1..0.2', e22: '-0.1..0.2', d22: '-0.1..0.2', g2: '-0.1..0.2', r2: '2..2.8', th: '-60..60', tv: '-60..60[3]'):
    "reflectivity in orthorhombic symmetry planes"
    f = lambda t: AVO.AVO_ortho(a1, b1, e11, d11, e12, d12, g1, r1, a2, b2, e21, d21, e22, d22, g2, r2, t)
    eq(f(th + 360), f(th), 'full turn')
    eq(f(tv + 360), f(tv), 'full turn, array')
    eq(f(th + 180), f(th), 'half turn')
    eq(f(-th), f(th), 'reflection')
    r0 = (r2*a2 - r1*a1)/(r2*a2 + r1*a1)
    eq(f(0), (r0, r0), 'normal incidence')
    differs(f(60), f(30), 'incidence matters')


def ob_thomsen(C11: '30..60', C33: '25..50', C13: '3..15', C44: '5..18', C66: '5..25', den: '2..3', th: '-180..360', tv: '-180..360[3]'):
    "weak-anisotropy phase velocities"
    f = lambda t: Anisotropy.Thomsen(C11, C33, C13, C44, C66, den, t)
    eq(f(th + 360), f(th), 'full turn')
    eq(f(th + 180), f(th), 'half turn')
    eq(f(-th), f(th), 'reflection')
    eq(f(tv + 360), f(tv), 'full turn, array')
    a, b, q = f(0), f(90), f(45)
    eq((a[0]**2*den, a[1]**2*den, a[2]**2*den), (C33*1e6, C44*1e6, C44*1e6), 'along the axis')
    eq((b[0], b[1], b[2]), (a[0]*(1 + a[3]), a[1], a[1]*(1 + a[4])), 'across the axis')
    eq(q[0], a[0]*(1 + a[5]/4 + a[3]/4), '45 degrees')
    differs(f(60), f(30), 'angle matters')


def ob_vti(C11: '25..60', C33: '25..60', C13: '5..12', C44: '5..12', C66: '5..12', D: '2..3', th: '-180..360', tv: '-180..360[3]'):
    "phase velocities in VTI media"
    C = vti6(C11, C33, C13, C44, C66)
    f = lambda t: Anisotropy.vel_azi_VTI(C, D, t)
    eq(f(th + 360), f(th), 'full turn')
    eq(f(th + 180), f(th), 'half turn')
    eq(f(-th), f(th), 'reflection')
    eq(f(tv + 360), f(tv), 'full turn, array')
    a, b = f(0), f(90)
    eq((a[0]**2, a[1]**2, a[2]**2), (C33/D, C44/D, C44/D), 'along the axis')
    eq((b[0]**2, b[1]**2, b[2]**2), (C11/D, C66/D, C44/D), 'across the axis')
    q = f(45)
    eq(q[1]**2, (C44 + C66)/2/D, 'SH at 45 degrees')
    differs(f(60), f(30), 'angle matters')


def ob_vhti(C11: '25..60', C33: '25..60', C13: '5..12', C44: '5..12', C55: '5..12', D: '2..3', th: '-180..360', tv: '-180..360[3]'):
    "phase velocities in HTI media"
    C = hti6(C11, C33, C13, C44, C55)
    f = lambda t: Anisotropy.vel_azi_HTI(C, D, t)
    eq(f(th + 360), f(th), 'full turn')
    eq(f(th + 180), f(th), 'half turn')
    eq(f(-th), f(th), 'reflection')
    eq(f(tv + 360), f(tv), 'full turn, array')
    a, b = f(0), f(90)
    eq((a[0]**2, a[1]**2, a[2]**2), (C11/D, C55/D, C55/D), 'along the axis')
    eq((b[0]**2, b[1]**2, b[2]**2), (C33/D, C55/D, C44/D), 'along the fractures')
    differs(f(60), f(30), 'azimuth matters')


def ob_bond(C11: '25..60', C22: '25..60', C33: '25..60', C12: '5..14', C13: '5..14', C23: '5..14', C44: '5..12', C55: '5..12', C66: '5..12', th: '-180..360'):
    "coordinate rotation"
    C = np.array([[C11, C12, C13, 0, 0, 0], [C12, C22, C23, 0, 0, 0], [C13, C23, C33, 0, 0, 0],
                  [0, 0, 0, C44, 0, 0], [0, 0, 0, 0, C55, 0], [0, 0, 0, 0, 0, C66]])
    for ax in (3, 1):
        f = lambda t: Anisotropy.Bond_trans(C, t, axis=ax)
        eq(f(th + 360), f(th), 'full turn')
        eq(f(th + 180), f(th), 'half turn')
        eq(f(0), C, 'no turn')
        eq(f(360), C, 'one turn')
        p = (1, 0, 2, 4, 3, 5) if ax == 3 else (0, 2, 1, 3, 5, 4)
        w = [[C[p[i], p[j]] for j in range(6)] for i in range(6)]
        eq(f(90), w, 'a quarter turn swaps the axes')
        eq(f(-90), w, 'a quarter turn back swaps the axes')
        differs(f(60), f(30), 'angle matters')
        back = Anisotropy.Bond_trans(f(th), -th, axis=ax)
        eq(back, C, 'turning back restores the stiffness', dev=R.bond(R.bond(C, th, ax, 1), -th, ax, 1), finding='F07')


def s2(t):
    return np.sin(t*np.pi/180)**2


def t2(t):
    return np.tan(t*np.pi/180)**2


def third(x0, x30, x60, A, B, u):
    """value of x0 + p A + q B at the angle where A, B are u, from the values at 30 and 60 degrees"""
    (a, c), (b, d) = A, B
    n = a*d - b*c
    return x0 + ((x30 - x0)*d - (x60 - x0)*b)/n*u[0] + ((x60 - x0)*a - (x30 - x0)*c)/n*u[1]


def ob_form_aki(th: '-70..70', tv: '-70..70[2]', p1: '2500..4000', p2: '2800..5000', s1: '900..2000', s2_: '900..2400', r1: '1900..2500', r2: '2000..2800'):
    "PP reflectivity at any angle is fixed by three angles: A + B sin2 + C tan2"
    f = lambda t: AVO.Aki_Richards(t, p1, p2, s1, s2_, r1, r2)[0]
    w = lambda t: third(f(0), f(30), f(60), (1/4, 3/4), (1/3, 3), (s2(t), t2(t)))
    eq(f(th), w(th), 'any angle')
    eq(f(tv), w(tv), 'array')


def ob_form_ortho(a1: '2..4', b1: '1..2', e11: '-0.1..0.2', d11: '-0.1..0.2', e12: '-0.1..0.2', d12: '-0.1..0.2', g1: '-0.1..0.2', r1: '2..2.6', a2: '2..5', b2: '1..2.5', e21: '-0.1..0.2', d21: '-0.1..0.2', e22: '-0.1..0.2', d22: '-0.1..0.2', g2: '-0.1..0.2', r2: '2..2.8', th: '-70..70', tv: '-70..70[2]'):
    "A + B sin2 + C sin2 tan2"
    f = lambda t: AVO.AVO_ortho(a1, b1, e11, d11, e12, d12, g1, r1, a2, b2, e21, d21, e22, d22, g2, r2, t)
    for k in (0, 1):
        w = lambda t: third(f(0)[k], f(30)[k], f(60)[k], (1/4, 3/4), (1/12, 9/4), (s2(t), s2(t)*t2(t)))
        eq(f(th)[k], w(th), 'any angle')
        eq(f(tv)[k], w(tv), 'array')


def ob_form_hti(D1: '2..2.6', D2: '2..2.8', a11: '25..40', a33: '30..45', a13: '5..12', a44: '8..14', a66: '6..10', b11: '35..60', b33: '40..60', b13: '8..16', b44: '12..20', b66: '8..14', th: '-60..60', az: '-180..360'):
    "A + B sin2 + C sin2 tan2 in incidence, even powers of the cosine in azimuth"
    C1 = hti6(a11, a33, a13, a44, a66)
    C2 = hti6(b11, b33, b13, b44, b66)
    f = lambda t, z: AVO.AVO_HTI(D1, D2, C1, C2, np.array([t]), np.array([z]))[0, 0]
    w = lambda t, z: third(f(0, z), f(30, z), f(60, z), (1/4, 3/4), (1/12, 9/4), (s2(t), s2(t)*t2(t)))
    eq(f(th, az), w(th, az), 'any incidence')
    c = 1 - s2(az)
    # quartic in the cosine: three azimuths fix it
    p, q, r = f(th, 90), f(th, 60), f(th, 0)
    # p + B c2 + C c4 with c2 = 1/4 at 60 degrees
    B = (16*(q - p) - (r - p))/3
    C = (r - p) - B
    eq(f(th, az), p + B*c + C*c*c, 'any azimuth')


def ob_form_thomsen(C11: '30..60', C33: '25..50', C13: '3..15', C44: '5..18', C66: '5..25', den: '2..3', th: '-180..360', tv: '-180..360[2]'):
    "phase velocities at any angle from those at special angles"
    f = lambda t: Anisotropy.Thomsen(C11, C33, C13, C44, C66, den, t)
    a, q, b = f(0), f(45), f(90)
    for t in (th, tv):
        s, r = s2(t), f(t)
        eq(r[0], a[0] + (4*q[0] - 3*a[0] - b[0])*s*(1 - s) + (b[0] - a[0])*s*s, 'P')
        eq(r[1], a[1] + 4*(q[1] - a[1])*s*(1 - s), 'SV')
        eq(r[2], a[2] + (b[2] - a[2])*s, 'SH')


def ob_form_ti(C11: '25..60', C33: '25..60', C13: '5..12', C44: '5..12', C66: '5..12', C55: '5..12', D: '2..3', th: '-180..360', tv: '-180..360[2]'):
    "squared velocities at any angle from those at special angles"
    V = vti6(C11, C33, C13, C44, C66)
    H = hti6(C11, C33, C13, C44, C55)
    g = lambda x: (x[0]**2 + x[1]**2 + x[2]**2, x[2]**2)
    h = lambda x: (x[0]**2 + x[1]**2 + x[2]**2, x[1]**2)
    sh = lambda t: h(Anisotropy.vel_azi_VTI(V, D, t))
    sv = lambda t: g(Anisotropy.vel_azi_HTI(H, D, t))
    for t in (th, tv):
        s = s2(t)
        for f in (sh, sv):
            (a, b), (c, d) = f(0), f(90)
            x, y = f(t)
            eq(y, b + (d - b)*s, 'transverse shear wave')
            eq(x, a + (c - a)*s, 'sum of squares')


def ob_form_cone(K: '10..80', G: '5..60', Ki: '0.01..4', Gi: '0.01..3', a: '0.001..0.5', crd: '0.001..0.1', th: '-180..180'):
    "the stiffness at any cone angle is fixed by those at 0, 45 and 90 degrees"
    f = lambda t: EM.hudson_cone(K, G, Ki, Gi, a, crd, t)
    A, B, C = f(0), f(45), f(90)
    s = s2(th)
    # A + x s + y s^2
    x = 4*B - 3*A - C
    y = 2*(C + A - 2*B)
    eq(f(th), A + x*s + y*s*s, 'any cone angle')
