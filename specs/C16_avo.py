"""Reflectivity, anisotropy and elementary relations against the published equations."""
import numpy as np
from spec import eq
from rockphypy import AVO, Anisotropy, utils
from specs import ref_avo as R
from specs.lib import each


def mat(C11, C12, C13, C22, C23, C33, C44, C55, C66):
    return np.array([[C11, C12, C13, 0, 0, 0], [C12, C22, C23, 0, 0, 0], [C13, C23, C33, 0, 0, 0],
                     [0, 0, 0, C44, 0, 0], [0, 0, 0, 0, C55, 0], [0, 0, 0, 0, 0, C66]])


def ob_hti(D1: '0.5..5', D2: '0.5..5', a11: '25..40', a33: '30..45', a13: '5..12', a44: '8..14', a66: '6..10', b11: '35..60', b33: '40..60', b13: '8..16', b44: '12..20', b66: '8..14', th: '-80..80[3]', az: '-180..360[2]'):
    "azimuthal PP reflectivity of HTI media (Rueger)"
    C1 = mat(a11, a13, a13, a33, a33 - 2*a44, a33, a44, a66, a66)
    C2 = mat(b11, b13, b13, b33, b33 - 2*b44, b33, b44, b66, b66)
    ref = [[R.hti(D1, D2, C1, C2, th[j], az[i]) for j in range(3)] for i in range(2)]
    eq(AVO.AVO_HTI(D1, D2, C1, C2, th, az), ref, 'incidence by azimuth')


def ob_aki(th: '-80..80', tv: '-80..80[3]', p1: '300..8000', p2: '300..8000', s1: '100..4000', s2: '100..4000', r1: '500..5000', r2: '500..5000'):
    "Aki-Richards PP and PS"
    eq(AVO.Aki_Richards(th, p1, p2, s1, s2, r1, r2), R.aki(th, p1, p2, s1, s2, r1, r2), 'scalar')
    pp, ps, R0, g = AVO.Aki_Richards(tv, p1, p2, s1, s2, r1, r2)
    a, b = each(lambda t: R.aki(t, p1, p2, s1, s2, r1, r2)[:2], 3, tv)
    eq((pp, ps), (a, b), 'angle array')
    eq((R0, g), R.aki(th, p1, p2, s1, s2, r1, r2)[2:], 'intercept and gradient')


def ob_aki_layers(tv: '-80..80[3]', p1: '300..8000[2]', p2: '300..8000[2]', s1: '100..4000[2]', s2: '100..4000[2]', r1: '500..5000[2]', r2: '500..5000[2]'):
    "Aki-Richards, layers by angles"
    pp, ps, R0, g = AVO.Aki_Richards(tv, p1, p2, s1, s2, r1, r2)
    ref = [[R.aki(tv[j], p1[i], p2[i], s1[i], s2[i], r1[i], r2[i]) for j in range(3)] for i in range(2)]
    eq(pp, [[ref[i][j][0] for j in range(3)] for i in range(2)], 'PP')
    eq(ps, [[ref[i][j][1] for j in range(3)] for i in range(2)], 'PS')
    eq(R0, [[ref[i][0][2]] for i in range(2)], 'intercept')
    eq(g, [[ref[i][0][3]] for i in range(2)], 'gradient')


def ob_zoeppritz(p1: '3000..5000', s1: '1500..3200', r1: '2000..2700', p2: '1800..2900', s2: '700..1700', r2: '1900..2800', th: '-80..80', tv: '-80..80[3]'):
    "Zoeppritz PP and PS"
    r = lambda t: R.zoep(p1, s1, r1, p2, s2, r2, t)
    k = lambda t: R.zoep(p1, s1, r1, p2, s2, r2, t, False, 2)
    eq(AVO.zoeppritz(p1, s1, r1, p2, s2, r2, th), r(th), 'scalar angle', dev=k(th), finding='F06')
    eq(AVO.zoeppritz(p1, s1, r1, p2, s2, r2, tv), each(r, 3, tv), 'angle array', dev=each(k, 3, tv), finding='F06')
    eq(AVO.zoeppritz(p1, s1, r1, p2, s2, r2, 0), r(0), 'normal incidence')


def ob_abe(p1: '300..8000', s1: '100..4000', r1: '0.5..5', p2: '300..8000', s2: '100..4000', r2: '0.5..5', pv: '300..8000[3]', sv: '100..4000[3]', rv: '0.5..5[3]'):
    "intercept, gradients and converted-wave slopes"
    eq(AVO.AVO_abe(p1, s1, r1, p2, s2, r2), R.abe(p1, s1, r1, p2, s2, r2), 'scalar')
    eq(AVO.AVO_abe(pv, sv, rv, p2, s2, r2), each(lambda a, b, c: R.abe(a, b, c, p2, s2, r2), 3, pv, sv, rv), 'array')


def ob_ei(p: '2000..8000', s: '100..1990', r: '0.5..5', tv: '-80..80[3]', K: '0.05..0.9', pv: '2500..3000[2]', sv: '1000..1300[2]', rv: '0.5..5[2]'):
    "elastic impedances, plain and normalised"
    eq(AVO.EI_ref(p, s, r, tv, K, norm=False), each(lambda t: R.ei(p, s, r, t, K, 1, 1, 1), 3, tv), 'one layer, plain')
    eq(AVO.EI_ref(p, s, r, tv, K), each(lambda t: R.ei(p, s, r, t, K, p, s, r), 3, tv), 'one layer, normalised')
    for norm in (False, True):
        n = ((pv[0] + pv[1])/2, (sv[0] + sv[1])/2, (rv[0] + rv[1])/2) if norm else (1, 1, 1)
        ref = [[R.ei(pv[i], sv[i], rv[i], tv[j], K, n[0], n[1], n[2]) for j in range(3)] for i in range(2)]
        ref = tuple([[[ref[i][j][q] for j in range(3)] for i in range(2)] for q in range(5)])
        eq(AVO.EI_ref(pv, sv, rv, tv, K, norm), ref, 'layers by angles')
    eq(AVO.EI_ref(pv, sv, rv, tv, K), ref, 'default')


def ob_ei_means(pv: '2500..3000[5]', sv: '1000..1300[5]', rv: '0.5..5[5]', tv: '-80..80[2]', K: '0.05..0.9'):
    "elastic impedances normalised by the means of the logs, whatever their length"
    for n in (1, 3, 4, 5):
        p, s, r = pv[:n], sv[:n], rv[:n]
        a, b, c = sum([x for x in p])/n, sum([x for x in s])/n, sum([x for x in r])/n
        ref = [[R.ei(p[i], s[i], r[i], t, K, a, b, c) for t in tv] for i in range(n)]
        eq(AVO.EI_ref(p, s, r, tv, K, True), tuple([[[x[q] for x in row] for row in ref] for q in range(5)]), '%d samples' % n)


def ob_ortho(a1: '2..4', b1: '1..2', e11: '-0.4..0.6', d11: '-0.4..0.6', e12: '-0.4..0.6', d12: '-0.4..0.6', g1: '-0.4..0.6', r1: '0.5..5', a2: '2..5', b2: '1..2.5', e21: '-0.4..0.6', d21: '-0.4..0.6', e22: '-0.4..0.6', d22: '-0.4..0.6', g2: '-0.4..0.6', r2: '0.5..5', th: '-80..80', tv: '-80..80[3]'):
    "PP reflectivity in the symmetry planes of orthorhombic media"
    f = lambda t: R.ortho(a1, b1, e11, d11, e12, d12, g1, r1, a2, b2, e21, d21, e22, d22, g2, r2, t)
    eq(AVO.AVO_ortho(a1, b1, e11, d11, e12, d12, g1, r1, a2, b2, e21, d21, e22, d22, g2, r2, th), f(th), 'scalar')
    eq(AVO.AVO_ortho(a1, b1, e11, d11, e12, d12, g1, r1, a2, b2, e21, d21, e22, d22, g2, r2, tv), each(f, 3, tv), 'array')


def ob_thomsen(C11: '20..60', C33: '20..50', C13: '3..15', C44: '5..18', C66: '5..25', den: '0.5..8', th: '-180..360', tv: '-180..360[3]'):
    "Thomsen parameters and weak-anisotropy velocities"
    eq(Anisotropy.Thomsen(C11, C33, C13, C44, C66, den, th), R.thomsen(C11, C33, C13, C44, C66, den, th), 'scalar')
    eq(Anisotropy.Thomsen(C11, C33, C13, C44, C66, den, tv)[:3], each(lambda t: R.thomsen(C11, C33, C13, C44, C66, den, t)[:3], 3, tv), 'angle array')


def ob_thomsen_neg(C11: '20..60', C33: '20..50', C13: '-25..-1', C44: '5..18', C66: '5..25', den: '0.5..8', th: '-180..360', tv: '-180..360[3]'):
    "negative C13: Thomsen parameters and weak-anisotropy velocities"
    eq(Anisotropy.Thomsen(C11, C33, C13, C44, C66, den, th), R.thomsen(C11, C33, C13, C44, C66, den, th), 'scalar')
    eq(Anisotropy.Thomsen(C11, C33, C13, C44, C66, den, tv)[:3], each(lambda t: R.thomsen(C11, C33, C13, C44, C66, den, t)[:3], 3, tv), 'angle array')


def ob_tsvankin(C11: '30..60', C22: '30..60', C33: '30..50', C12: '5..15', C13: '3..15', C23: '3..15', C44: '5..18', C55: '5..18', C66: '5..25'):
    "Tsvankin parameters"
    eq(Anisotropy.Thomsen_Tsvankin(C11, C22, C33, C12, C13, C23, C44, C55, C66),
       ((C22/C33 - 1)/2, R.delta(C23, C33, C44), (C66/C55 - 1)/2, (C11/C33 - 1)/2, R.delta(C13, C33, C55), (C66/C44 - 1)/2, R.delta(C12, C11, C66)), 'seven parameters')


def ob_tsvankin_neg(C11: '30..60', C22: '30..60', C33: '30..50', C12: '-25..-1', C13: '-25..-1', C23: '-25..-1', C44: '5..18', C55: '5..18', C66: '5..25'):
    "Tsvankin parameters, negative off-diagonal stiffnesses"
    eq(Anisotropy.Thomsen_Tsvankin(C11, C22, C33, C12, C13, C23, C44, C55, C66),
       ((C22/C33 - 1)/2, R.delta(C23, C33, C44), (C66/C55 - 1)/2, (C11/C33 - 1)/2, R.delta(C13, C33, C55), (C66/C44 - 1)/2, R.delta(C12, C11, C66)), 'seven parameters')


def ob_backus(v: '0.001..10[3]', l: '0.1..150[3]', G: '0.1..150[3]', vl: '0.001..10[2]list', ll: '0.1..150[2]list', gl: '0.1..150[2]list'):
    "Backus average"
    eq(Anisotropy.Backus(v, l, G), R.backus(v, l, G), 'arrays')
    eq(Anisotropy.Backus(vl, ll, gl), R.backus(vl, ll, gl), 'lists')
    for s in (1, 1.004, 0.995, 1.03, 100):
        w = np.array([v[0]/40, 0.5*s, 0.5*s - v[0]/40])
        eq(Anisotropy.Backus(w, l, G), R.backus(w, l, G), 'fractions adding up to %g' % s)


def ob_backus_log(Vp: '2.5..5[3]', Vs: '1..1.5[3]', d: '0.5..5[3]', z0: '1000..1500', h: '1..50[3]'):
    "Backus average of a log"
    Z = [z0, z0 + h[0], z0 + h[0] + h[1], z0 + h[0] + h[1] + h[2]]
    G = [d[i]*Vs[i]**2 for i in range(3)]
    lam = [d[i]*(Vp[i]**2 - 2*Vs[i]**2) for i in range(3)]
    den = (h[0]*d[0] + h[1]*d[1] + h[2]*d[2])/(h[0] + h[1] + h[2])
    eq(Anisotropy.Backus_log(Vp, Vs, d, np.array(Z)), R.backus(h, lam, G) + (den,), 'three layers')
    eq(Anisotropy.Backus_log(Vp, Vs, d, np.array([z0 + h[0] + h[1] + h[2], z0 + h[1] + h[2], z0 + h[2], z0])), R.backus(h, lam, G) + (den,), 'measured upwards')
    eq(Anisotropy.Backus_log([Vp[0], Vp[1], Vp[2]], [Vs[0], Vs[1], Vs[2]], [d[0], d[1], d[2]], Z), R.backus(h, lam, G) + (den,), 'lists')


def ob_azi(C11: '25..60', C33: '30..60', C13: '5..14', C44: '5..12', C66: '5..12', C12: '5..14', C22: '30..60', C23: '5..12', C55: '5..12', den: '0.5..8', az: '-180..360', av: '-180..360[3]'):
    "azimuthal phase velocities in HTI and VTI media"
    C = mat(C11, C12, C13, C22, C23, C33, C44, C55, C66)
    def h(a):
        p, q, c = R.azi(C11, C33, C12, C55, C44, C55, den, a)
        return p, c, q
    v = lambda a: R.azi(C33, C11, C13, C44, C66, C44, den, a)
    eq(Anisotropy.vel_azi_HTI(C, den, az), h(az), 'HTI scalar')
    eq(Anisotropy.vel_azi_HTI(C, den, av), each(h, 3, av), 'HTI array')
    eq(Anisotropy.vel_azi_VTI(C, den, az), v(az), 'VTI scalar')
    eq(Anisotropy.vel_azi_VTI(C, den, av), each(v, 3, av), 'VTI array')


def ob_azi_neg(C11: '25..60', C33: '30..60', C13: '-25..-1', C44: '5..12', C66: '5..12', C12: '-25..-1', C22: '30..60', C23: '5..12', C55: '5..12', den: '0.5..8', az: '-180..360', av: '-180..360[3]'):
    "negative off-diagonal stiffnesses: azimuthal phase velocities in HTI and VTI media"
    C = mat(C11, C12, C13, C22, C23, C33, C44, C55, C66)
    def h(a):
        p, q, c = R.azi(C11, C33, C12, C55, C44, C55, den, a)
        return p, c, q
    v = lambda a: R.azi(C33, C11, C13, C44, C66, C44, den, a)
    eq(Anisotropy.vel_azi_HTI(C, den, az), h(az), 'HTI scalar')
    eq(Anisotropy.vel_azi_HTI(C, den, av), each(h, 3, av), 'HTI array')
    eq(Anisotropy.vel_azi_VTI(C, den, az), v(az), 'VTI scalar')
    eq(Anisotropy.vel_azi_VTI(C, den, av), each(v, 3, av), 'VTI array')


def ob_bond(C11: '25..60', C33: '30..60', C13: '5..14', C44: '5..12', C66: '5..12', C12: '5..14', C22: '30..60', C23: '5..12', C55: '5..12', x: '-9..9', y: '-9..9', th: '-180..360'):
    "Bond transformation of the stiffness tensor"
    C = np.array([[C11, C12, C13, x, 0, y], [C12, C22, C23, 0, y, 0], [C13, C23, C33, 0, x, 0], [x, 0, 0, C44, 0, y], [0, y, x, 0, C55, 0], [y, 0, 0, y, 0, C66]])
    eq(Anisotropy.Bond_trans(C, th), R.bond(C, th, 3, 2), 'about x3 by default', dev=R.bond(C, th, 3, 1), finding='F07')
    eq(Anisotropy.Bond_trans(C, th, axis=3), R.bond(C, th, 3, 2), 'about x3', dev=R.bond(C, th, 3, 1), finding='F07')
    eq(Anisotropy.Bond_trans(C, th, axis=1), R.bond(C, th, 1, 2), 'about x1', dev=R.bond(C, th, 1, 1), finding='F07')


def ob_velocity(K: '0.1..300', G: '0.1..250', r: '0.3..8', Kv: '0.1..300[3]', Gv: '0.1..250[3]', rv: '0.3..8[3]'):
    "velocities from moduli and back"
    f = lambda k, g, d: (1000*np.sqrt((k + 4*g/3)/d), 1000*np.sqrt(g/d))
    eq(utils.V(K, G, r), f(K, G, r), 'scalar')
    eq(utils.V(Kv, Gv, rv), each(f, 3, Kv, Gv, rv), 'array')
    eq(utils.poi(K, G), (3*K - 2*G)/(2*(3*K + G)), 'Poisson ratio')
    eq(utils.poi(Kv, Gv), each(lambda k, g: (3*k - 2*g)/(2*(3*k + g)), 3, Kv, Gv), 'Poisson ratio, array')
    eq(utils.lame(K, G), K - 2*G/3, 'Lame')
    eq(utils.lame(Kv, Gv), each(lambda k, g: k - 2*g/3, 3, Kv, Gv), 'Lame, array')


def ob_mfromv(d: '0.3..8', p: '300..9000', s: '50..5000', dv: '0.3..8[3]', pv: '300..9000[3]', sv: '50..5000[3]', di: 'int 2..3', pi: 'int 2000..6000', si: 'int 500..1900'):
    "moduli from velocities"
    f = lambda d, p, s: (d*(p*p - 4*s*s/3)/1000000, d*s*s/1000000)
    eq(utils.M_from_V(d, p, s), f(d, p, s), 'scalar')
    eq(utils.M_from_V(dv, pv, sv), each(f, 3, dv, pv, sv), 'array')
    eq(utils.M_from_V(di, pi, si), f(di, pi, si), 'integers')


def ob_matrices(C11: '25..60', C33: '30..60', C13: '5..14', C44: '5..12', C66: '5..12', C12: '5..14', C22: '30..60', C23: '5..12', C55: '5..12', K: '0.1..300', G: '0.1..250'):
    "stiffness and compliance matrices"
    eq(utils.write_HTI_matrix(C11, C33, C13, C44, C55), mat(C11, C13, C13, C33, C33 - 2*C44, C33, C44, C55, C55), 'HTI')
    eq(utils.write_VTI_compliance(C11, C12, C13, C33, C44), mat(C11, C12, C13, C11, C13, C33, C44, C44, 2*(C11 - C12)), 'VTI compliance')
    eq(utils.write_VTI_matrix(C11, C33, C13, C44, C66), mat(C11, C11 - 2*C66, C13, C11, C13, C33, C44, C44, C66), 'VTI')
    eq(utils.write_matrix(C11, C22, C33, C12, C13, C23, C44, C55, C66), mat(C11, C12, C13, C22, C23, C33, C44, C55, C66), 'orthorhombic')
    l = K - 2*G/3
    eq(utils.write_iso(K, G), mat(l + 2*G, l, l, l + 2*G, l, l + 2*G, G, G, G), 'isotropic')


def ob_misc(crd: '0.00001..2', al: '0.001..0.5', cv: '0.00001..2[3]', V0: '3..5', V45: '3.2..5', V90: '3.5..5', S0: '1..2', S90: '1..2.2', den: '0.5..5'):
    "crack porosity and VTI stiffness from directional velocities"
    eq(utils.crack_por(crd, al), 4*np.pi/3*al*crd, 'scalar')
    eq(utils.crack_por(cv, al), each(lambda c: 4*np.pi/3*al*c, 3, cv), 'array')
    c11, c33, c44, c66 = den*V90**2, den*V0**2, den*S0**2, den*S90**2
    M = (2*den*V45**2 - (c11 + c33 + 2*c44)/2)**2 - ((c11 - c33)/2)**2
    eq(utils.v_to_c_VTI(V0, V45, V90, S0, S90, den), mat(c11, c11 - 2*c66, np.sqrt(M) - c44, c11, np.sqrt(M) - c44, c33, c44, c44, c66), 'stiffness', tol=1e-6)


def ob_vtoc_neg(V0: '4..5', V45: '3..3.6', V90: '4..5', S0: '1..2', S90: '1..2.2', den: '0.5..5'):
    "VTI stiffness from directional velocities, slow at 45 degrees"
    c11, c33, c44, c66 = den*V90**2, den*V0**2, den*S0**2, den*S90**2
    M = (2*den*V45**2 - (c11 + c33 + 2*c44)/2)**2 - ((c11 - c33)/2)**2
    eq(utils.v_to_c_VTI(V0, V45, V90, S0, S90, den), mat(c11, c11 - 2*c66, np.sqrt(M) - c44, c11, np.sqrt(M) - c44, c33, c44, c44, c66), 'stiffness', tol=1e-6)
