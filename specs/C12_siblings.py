"""Functions that describe the same thing agree with each other."""
import numpy as np
from spec import eq
from rockphypy import EM, GM, Fluid, BW, Anisotropy, utils, QI, AVO, Permeability, Empirical
from specs import ref_em as R
from specs import ref_avo as A
from specs.lib import vti6, hti6
from specs.C13_em import hr_dev


def ob_shape(Km: '0.5..300', Gm: '0.3..250', Ki: '0.001..300[4]', Gi: '0..60[4]', a: '0.0001..0.9999', b: '0.0001..0.9999', c: '1.0001..1000'):
    "shape factors: one phase at a time or all at once"
    p = [EM.PQ(Km, Gm, Ki[0], Gi[0], a), EM.PQ(Km, Gm, Ki[1], Gi[1], 1.0), EM.PQ(Km, Gm, Ki[2], Gi[2], b), EM.PQ(Km, Gm, Ki[3], Gi[3], 1.0)]
    eq(EM.PQ_vectorize(Km, Gm, Ki, Gi, np.array([a, 1.0, b, 1.0])), ([x[0] for x in p], [x[1] for x in p]), 'oblate and spherical')
    p = [EM.PQ(Km, Gm, Ki[0], Gi[0], c), EM.PQ(Km, Gm, Ki[1], Gi[1], a)]
    d = R.pq(Km, Gm, Ki[0], Gi[0], c, 'dev')
    eq(EM.PQ_vectorize(Km, Gm, Ki[:2], Gi[:2], np.array([c, a])), ([p[0][0], p[1][0]], [p[0][1], p[1][1]]), 'prolate and oblate',
       dev=([d[0], p[1][0]], [d[1], p[1][1]]), finding='F03')


def ob_schemes(K: '10..60', G: '5..50', Ki: '0.1..4', Gi: '0.1..4', a: '0.01..0.99', t: '0..0.8', X: '0.1..0.9', k: '5..40', g: '5..40', b: '0.01..0.99'):
    "inclusion schemes are built on the same shape factors"
    for al in (a, 1.0):
        P, Q = EM.PQ(K, G, Ki, Gi, al)
        eq(EM.DEM([K, G], t, [Gi, Ki, al]), [(Ki - K)*P/(1 - t), (Gi - G)*Q/(1 - t)], 'differential scheme')
    P, Q = EM.PQ_vectorize(k, g, np.array([K, Ki]), np.array([G, Gi]), np.array([a, b]))
    eq(EM.Berryman_func([k, g], np.array([K, Ki]), np.array([G, Gi]), np.array([X, 1 - X]), np.array([a, b])),
       [X*(K - k)*P[0] + (1 - X)*(Ki - k)*P[1], X*(G - g)*Q[0] + (1 - X)*(Gi - g)*Q[1]], 'self-consistent scheme')
    P, Q = EM.PQ(K, G, Ki, Gi, 1.0)
    eq(EM.SC_flex(X, 1, K, Ki, G, Gi), (K + X*(Ki - K)*P, G + X*(Gi - G)*Q), 'first self-consistent step')
    eq(EM.SC_flex(X, 1, K, Ki, G, Gi)[0], K*EM.SC_dilute(K, G, Ki, Gi, X, 'strain')[0], 'first self-consistent step is dilute, bulk')
    eq(EM.SC_flex(X, 1, K, Ki, G, Gi)[1], G*EM.SC_dilute(K, G, Ki, Gi, X, 'strain')[1], 'first self-consistent step is dilute, shear')
    k2, g2 = EM.SC_flex(X, 2, K, Ki, G, Gi)
    P, Q = EM.PQ(*EM.SC_flex(X, 1, K, Ki, G, Gi), Ki, Gi, 1.0)
    eq((k2, g2), (K + X*(Ki - K)*P, G + X*(Gi - G)*Q), 'second self-consistent step')
    u, w = EM.SC_dilute(K, G, 0, 0, X, 'stress')
    eq(EM.Swiss_cheese(K, G, X), (K*u, G*w), 'empty spherical pores')
    eq(EM.SC(X, K, G, 1)[0], EM.Swiss_cheese(K, G, X)[0], 'first step for empty pores')
    u, w = EM.SC_dilute(K, G, Ki, Gi, X, 'stress')
    P, Q = EM.PQ(K, G, Ki, Gi, 1.0)
    eq((1/u, 1/w), (1 + X*(1 - Ki/K)*P, 1 + X*(1 - Gi/G)*Q), 'dilute, prescribed stress')


def ob_bounds(f: '0.02..0.98', K1: '20..90', K2: '0.1..19', G1: '20..90', G2: '0.1..19', fv: '0.05..0.95[3]', pc: '0.01..0.9'):
    "bounds and averages"
    for x in (f, fv):
        eq(EM.HS(x, K1, K2, G1, G2, 'upper'), EM.HS(1 - x, K2, K1, G2, G1, 'lower'), 'numbering of the phases')
        eq(EM.MT_average(x, K1, G1, K1, G1, K2, G2), EM.HS(x, K1, K2, G1, G2, 'upper'), 'Mori-Tanaka with the stiff host')
        eq(EM.MT_average(x, K2, G2, K1, G1, K2, G2), EM.HS(x, K1, K2, G1, G2, 'lower'), 'Mori-Tanaka with the soft host')
    eq(EM.MT_average(f, K1, G1, K1, G1, K2, G2), EM.MT_average(1 - f, K1, G1, K2, G2, K1, G1), 'numbering of the phases')
    v, r, h = EM.VRH([1 - pc, pc], [K1, K2])
    eq(EM.cripor_reuss(K1, K2, pc), r, 'isostress average')
    eq(EM.cripor_reuss(K1, K2, pc, den=True), v, 'mass balance')
    eq(h, (v + r)/2, 'Hill')
    eq(EM.VRH([pc, 1 - pc], [K2, K1]), (v, r, h), 'numbering of the phases')
    eq(EM.HS(f, K1, K2, G1, G1, 'upper')[0], EM.HS(f, K1, K2, G1, G1, 'lower')[0], 'equal shear moduli: bounds coincide')
    eq(Fluid.Brie(K1, K2, f, 1), EM.VRH([f, 1 - f], [K1, K2])[0], 'Brie exponent one is the Voigt average')
    eq(EM.cripor(K1, G1, f, 1), (EM.VRH([1 - f, f], [K1, 1])[0] - f, EM.VRH([1 - f, f], [G1, 1])[0] - f), 'critical porosity one is the Voigt line')


def ob_hudson(K: '0.5..300', G: '0.3..250', Ki: '0..60', Gi: '0..50', a: '0.0001..0.999', crd: '0.001..1', c2: '0.001..1', c3: '0.001..1', b: '0.0001..0.999', c: '0.0001..0.999'):
    "crack models against each other"
    I = EM.hudson(K, G, Ki, Gi, a, 0)
    for order in (1, 2):
        eq(EM.hudson(K, G, Ki, Gi, a, crd, order=order, axis=1), R.perm(EM.hudson(K, G, Ki, Gi, a, crd, order=order, axis=3), 1), 'axis exchanged')
    w3 = EM.hudson(K, G, Ki, Gi, a, crd)
    w1 = EM.hudson(K, G, Ki, Gi, a, crd, axis=1)
    eq(EM.hudson_cone(K, G, Ki, Gi, a, crd, 0), w3, 'cone of zero opening')
    av = np.array([a, b, c])
    eq(EM.hudson_ortho(K, G, Ki, Gi, av, np.array([crd, 0.0, 0.0])), w1, 'one set normal to axis 1')
    eq(EM.hudson_ortho(K, G, Ki, Gi, np.array([b, c, a]), np.array([0.0, 0.0, crd])), w3, 'one set normal to axis 3')
    x = EM.hudson_ortho(K, G, Ki, Gi, av, np.array([crd, 0.0, 0.0]))
    y = EM.hudson_ortho(K, G, Ki, Gi, av, np.array([0.0, c2, 0.0]))
    z = EM.hudson_ortho(K, G, Ki, Gi, av, np.array([0.0, 0.0, c3]))
    eq(EM.hudson_ortho(K, G, Ki, Gi, av, np.array([crd, c2, c3])), x + y + z - 2*I, 'sets superpose')
    eq(utils.write_iso(K, G), I, 'background')
    # isotropic average of cracks of all orientations: the trace invariants of three orthogonal sets
    o = EM.hudson_ortho(K, G, Ki, Gi, np.array([a, a, a]), np.array([crd/3, crd/3, crd/3]))
    iijj = o[0, 0] + o[1, 1] + o[2, 2] + 2*(o[0, 1] + o[0, 2] + o[1, 2])
    ijij = o[0, 0] + o[1, 1] + o[2, 2] + 2*(o[3, 3] + o[4, 4] + o[5, 5])
    h = EM.hudson_rand(K, G, Ki, Gi, a, crd)
    eq(h[0], iijj/9, 'random orientation, bulk')
    eq(h[1], (3*ijij - iijj)/30, 'random orientation, shear', dev=hr_dev(K, G, Ki, Gi, a, crd)[1], finding='F02')
    # cracks whose normals lie in the plane normal to axis 3
    d = EM.hudson_cone(K, G, Ki, Gi, a, crd, 90)
    q = EM.hudson_ortho(K, G, Ki, Gi, np.array([a, a, a]), np.array([crd/2, crd/2, 0.0]))
    eq(d[2, 2], q[2, 2], 'vertical cracks C33')
    eq(d[0, 2], q[0, 2], 'vertical cracks C13')
    eq(d[3, 3], q[3, 3], 'vertical cracks C44')
    eq(d[0, 0] + d[0, 1], q[0, 0] + q[0, 1], 'vertical cracks C11+C12')


def ob_eshelby(K: '0.5..300', G: '0.3..250', phi: '0..0.9', a: '0.0001..0.999', Kf: '0..60'):
    "vector and matrix of Cheng's model"
    C11, C33, C13, C44, C66 = EM.Eshelby_Cheng(K, G, phi, a, Kf)
    eq(EM.Eshelby_Cheng(K, G, phi, a, Kf, mat=True), utils.write_VTI_matrix(C11, C33, C13, C44, C66), 'matrix')


def ob_sands(K: '30..60', G: '30..60', phi: '0.02..0.28', pc: '0.3..0.45', Cn: '4..14', sg: '0.5..100', f: '0..1', Kc: '20..60', Gc: '15..50', pb: '0.2..0.29', Ks: '5..19', Gs: '2..19', C: '0.01..0.99', ps: '0.3..0.4', cl: '0.01..0.29', pv: '0.02..0.28[3]'):
    "sand and shale models are Hashin-Shtrikman interpolations between their end members"
    hm = GM.hertzmindlin(K, G, pc, Cn, sg, f)
    w = GM.Walton(K, G, pc, Cn, sg, f)
    eq(w[0], hm[0], 'Walton and Hertz-Mindlin, bulk')
    eq(w[1], hm[1], 'Walton and Hertz-Mindlin, shear, any friction')
    for p in (phi, pv):
        eq(GM.softsand(K, G, p, pc, Cn, sg, f), EM.HS(p/pc, hm[0], K, hm[1], G, 'upper'), 'soft sand')
        eq(GM.stiffsand(K, G, p, pc, Cn, sg, f), EM.HS(p/pc, hm[0], K, hm[1], G, 'lower'), 'stiff sand')
        for scheme in (1, 2):
            k, g = GM.contactcement(K, G, Kc, Gc, pb, pc, Cn, scheme)
            eq(GM.constantcement(pb, K, G, Kc, Gc, p, pc, Cn, scheme), EM.HS(p/pb, k, K, g, G, 'upper'), 'constant cement')
            eq(GM.MUHS(K, G, Kc, Gc, p, pb, pc, Cn, scheme), EM.HS(p/pb, k, K, g, G, 'lower'), 'increasing cement')
    eq(GM.silty_shale(C, K, G, Ks, Gs), EM.HS(C, Ks, K, Gs, G, 'upper'), 'silty shale')
    eq(GM.shaly_sand(ps, cl, K, G, Ks, Gs), EM.HS(cl/ps, Ks, K, Gs, G, 'lower'), 'shaly sand')
    eq(GM.silty_shale(C, K, G, Ks, Gs), GM.shaly_sand(1, 1 - C, Ks, Gs, K, G), 'silty shale and shaly sand')


def ob_patchy(K: '30..60', G: '30..60', phi: '0.02..0.28', pc: '0.35..0.5', Cn: '4..14', sg: '0.1..60', f: '0.05..0.95', Kc: '20..60', Gc: '15..50', lo: '0.01..0.05', hi: '0.06..0.1', q: '0.01..0.99', vc_: '0.01..0.1', vi_: '0.01..0.1'):
    "patchy cement: connected patches, and its variant with varying connectivity"
    u = GM.hertzmindlin(K, G, pc, Cn, sg, q)
    for scheme in (1, 2):
        for vc, vi, cem in ((lo, hi, GM.contactcement(K, G, Kc, Gc, pc - lo, pc, Cn, scheme)),
                            (hi, lo, GM.MUHS(K, G, Kc, Gc, pc - hi, pc - lo, pc, Cn, scheme))):
            for mode, al in (('stiff', 0), ('soft', 1)):
                r = GM.pcm(f, sg, K, G, phi, pc, vc, vi, Kc, Gc, Cn, mode, scheme, q)
                eq(GM.vpcm(al, f, sg, K, G, phi, pc, vc, vi, Kc, Gc, Cn, scheme, q), r, 'varying connectivity at its end')
                k, g = EM.HS(f, cem[0], u[0], cem[1], u[1], 'upper' if al == 0 else 'lower')
                eq(r, EM.HS(phi/pc, k, K, g, G, 'upper'), 'Hashin-Shtrikman of the patches')
        for mode, al in (('stiff', 0), ('soft', 1)):
            r = GM.pcm(f, sg, K, G, phi, pc, vc_, vi_, Kc, Gc, Cn, mode, scheme, q)
            eq(GM.vpcm(al, f, sg, K, G, phi, pc, vc_, vi_, Kc, Gc, Cn, scheme, q), r, 'varying connectivity at its end, any cement volume')
        eq(GM.vpcm(0.5, f, sg, K, G, pc, pc, lo, hi, Kc, Gc, Cn, scheme, q),
           (0.5*GM.pcm(f, sg, K, G, pc, pc, lo, hi, Kc, Gc, Cn, 'stiff', scheme, q)[0] + 0.5*GM.pcm(f, sg, K, G, pc, pc, lo, hi, Kc, Gc, Cn, 'soft', scheme, q)[0],
            0.5*GM.pcm(f, sg, K, G, pc, pc, lo, hi, Kc, Gc, Cn, 'stiff', scheme, q)[1] + 0.5*GM.pcm(f, sg, K, G, pc, pc, lo, hi, Kc, Gc, Cn, 'soft', scheme, q)[1]), 'half connected, at critical porosity')


def ob_johnson(K0: '20..60', G0: '20..60', n: '4..12', phi: '0.3..0.45', e: '-0.05..-0.001', ea: '-0.1..-0.002'):
    "the stiffness does not depend on the strain path"
    t = GM.johnson(K0, G0, n, phi, e, ea, 'together')
    for p in ('uni_iso', 'iso_uni', 'iso-uni'):
        eq(GM.johnson(K0, G0, n, phi, e, ea, p)[0], t[0], p)
    eq(GM.johnson(K0, G0, n, phi, e, ea, 'iso_uni'), GM.johnson(K0, G0, n, phi, e, ea, 'iso-uni'), 'both spellings')


def ob_fluid(Kd: '4..15', G: '4..20', K0: '36..80', D: '2.5..2.8', a: '0.1..4', b: '0.1..4', ra: '0.1..1.2', rb: '0.1..1.2', p: '0.05..0.4', vp: '2.9..4', vs: '1..2', r: '2..2.6', Kv: '4..15[3]', pv: '0.05..0.4[3]'):
    "substitution in moduli and in velocities"
    for k, q in ((Kd, p), (Kv, pv)):
        Ks, Gs = Fluid.Gassmann(k, G, K0, a, q)
        v = Fluid.vels(k, G, K0, D, a, ra, q)
        rho = D*(1 - q) + ra*q
        eq(v, utils.V(Ks, Gs, rho) + (rho,), 'velocities of the saturated rock')
        eq(Fluid.Gassmann_sub(q, K0, Ks, a, b), Fluid.Gassmann(k, G, K0, b, q)[0], 'substitution and saturation')
    K1, G1 = utils.M_from_V(r, 1000*vp, 1000*vs)
    K2 = Fluid.Gassmann_sub(p, K0, K1, a, b)
    x, y = utils.V(K2, G1, r - p*ra + p*rb)
    eq(Fluid.Gassmann_vels(vp, vs, r, ra, a, rb, b, K0, p), (x/1000, y/1000), 'velocity substitution')
    eq(Fluid.Gassmann_approx(Kd, K0, a, p, b), Fluid.Gassmann_sub(p, K0, Kd, a, b), 'P modulus form')


def ob_bk(C11: '30..45', C33: '28..40', C13: '6..10', C44: '8..11', C66: '9..12', K0: '60..80', G0: '20..50', a: '0.5..4', b: '0.5..4', p: '0.05..0.3', Kd: '5..20', Gd: '5..20'):
    "anisotropic substitution"
    C = vti6(C11, C33, C13, C44, C66)
    S = Fluid.Brown_Korringa_dry2sat(Fluid.Brown_Korringa_sat2dry(np.linalg.inv(C), K0, G0, a, p), K0, G0, b, p)
    c2, s2 = Fluid.Brown_Korringa_sub(C, K0, G0, a, b, p)
    eq(s2, S, 'substitution through the dry rock')
    eq(c2, np.linalg.inv(S), 'stiffness and compliance')
    Ks, Gs = Fluid.Gassmann(Kd, Gd, K0, a, p)
    I = np.linalg.inv(utils.write_iso(Kd, Gd))
    eq(np.linalg.inv(Fluid.Brown_Korringa_dry2sat(I, K0, G0, a, p)), utils.write_iso(Ks, Gs), 'isotropic rock: Gassmann')
    J = np.linalg.inv(utils.write_iso(Ks, Gs))
    eq(np.linalg.inv(Fluid.Brown_Korringa_sat2dry(J, K0, G0, a, p)), utils.write_iso(Kd, Gd), 'isotropic rock: inverse Gassmann')
    c3, s3 = Fluid.Brown_Korringa_sub(utils.write_iso(Ks, Gs), K0, G0, a, b, p)
    eq(c3, utils.write_iso(*Fluid.Gassmann(Kd, Gd, K0, b, p)), 'isotropic rock: Gassmann substitution')


def ob_squirt(p: '3500..4000', s: '2000..2300', hp: '4500..5500', hs: '2800..3200', K0: '90..120', r: '2..2.5', rf: '0.5..1.2', Kf: '0.1..4', phi: '0.02..0.3', pv: '3500..4000[2]', sv: '2000..2300[2]'):
    "isotropic squirt"
    k, g, vp, vs = Fluid.Mavko_Jizba(hp, hs, pv, sv, K0, r, rf, Kf, phi)
    eq((vp, vs), utils.V(k, g, r + phi*rf), 'velocities of the saturated rock')
    for i in range(2):
        x = Fluid.Mavko_Jizba(hp, hs, np.array([pv[i]]), np.array([sv[i]]), K0, r, rf, Kf, phi)
        eq(k, x[0], 'unrelaxed bulk modulus of the stiff frame')
        eq(g[i], x[1][0], 'one pressure at a time')
    Khs, Ghs = utils.M_from_V(r, hp, hs)
    K, G = utils.M_from_V(r, pv, sv)
    eq(k, Fluid.Gassmann(Khs, Ghs, K0, Kf, phi)[0], 'Gassmann on the frame without soft pores')
    eq(1/g - 1/G, 4/15*(1/Khs - 1/K), 'shear and bulk compliance change together')


def ob_anisotropy(C11: '25..60', C33: '30..60', C13: '5..14', C44: '5..12', C66: '5..12', den: '0.5..8', th: '-180..360', C12: '5..14', C22: '30..60', C23: '5..12', C55: '5..12'):
    "anisotropy functions against each other"
    t = Anisotropy.Thomsen(C11, C33, C13, C44, C66, den, 0)
    e1, d1, g1, e2, d2, g2, d3 = Anisotropy.Thomsen_Tsvankin(C11, C11, C33, C11 - 2*C66, C13, C13, C44, C44, C66)
    eq((e1, d1, g1, e2, d2, g2), (e2, d2, g2, e1, d1, g1), 'transverse isotropy: both planes equal')
    eq((e1, g1, d1), t[3:], 'transverse isotropy: Tsvankin gives Thomsen')
    a = Anisotropy.Thomsen_Tsvankin(C11, C22, C33, C12, C13, C23, C44, C55, C66)
    b = Anisotropy.Thomsen_Tsvankin(C22, C11, C33, C12, C23, C13, C55, C44, C66)
    eq((a[0], a[1], a[2], a[3], a[4], a[5]), (b[3], b[4], b[5], b[0], b[1], b[2]), 'renaming the horizontal axes exchanges the planes')
    t1 = Anisotropy.Thomsen(C11, C33, C13, C55, C66, den, 0)
    t2 = Anisotropy.Thomsen(C22, C33, C23, C44, C66, den, 0)
    eq((a[3], a[4], a[2]), (t1[3], t1[5], t1[4]), 'symmetry plane as transverse isotropy (x1, x3)')
    eq((a[0], a[1], a[5]), (t2[3], t2[5], t2[4]), 'symmetry plane as transverse isotropy (x2, x3)')
    eq(a[6], Anisotropy.Thomsen(C33, C11, C12, C66, C44, den, 0)[5], 'horizontal plane')
    V = vti6(C11, C33, C13, C44, C66)
    p, sv, sh = Anisotropy.vel_azi_VTI(V, den, 0)
    eq((1000*p, 1000*sv, 1000*sh), t[:3], 'along the symmetry axis')
    a, b, c = Anisotropy.vel_azi_VTI(V, den, th)
    H = R.perm(V, 1)
    x, y, z = Anisotropy.vel_azi_HTI(H, den, th)
    eq(((a**2), (b**2) + (c**2)), ((x**2), (y**2) + (z**2)), 'same medium, axis horizontal')
    eq((y**2)*(z**2), (b**2)*(c**2), 'same medium, axis horizontal, shear waves')
    eq(utils.write_HTI_matrix(C33, C11, C13, C66, C44), R.perm(utils.write_VTI_matrix(C11, C33, C13, C44, C66), 1), 'VTI with its axis turned is HTI')


def ob_writers(K: '0.1..300', G: '0.1..250', C11: '25..60', C33: '30..60', C13: '5..14', C44: '5..12', C66: '5..12', C55: '5..12'):
    "matrix writers against each other"
    M, l = utils.lame(K, G) + 2*G, utils.lame(K, G)
    I = utils.write_iso(K, G)
    eq(utils.write_VTI_matrix(M, M, l, G, G), I, 'VTI')
    eq(utils.write_HTI_matrix(M, M, l, G, G), I, 'HTI')
    eq(utils.write_matrix(M, M, M, l, l, l, G, G, G), I, 'orthorhombic')
    eq(utils.write_matrix(C11, C11, C33, C11 - 2*C66, C13, C13, C44, C44, C66), utils.write_VTI_matrix(C11, C33, C13, C44, C66), 'VTI as orthorhombic')
    eq(utils.write_matrix(C11, C33, C33, C13, C13, C33 - 2*C44, C44, C55, C55), utils.write_HTI_matrix(C11, C33, C13, C44, C55), 'HTI as orthorhombic')
    S = np.linalg.inv(utils.write_VTI_matrix(C11, C33, C13, C44, C66))
    eq(utils.write_VTI_compliance(S[0, 0], S[0, 1], S[0, 2], S[2, 2], S[3, 3]), S, 'compliance is the inverse stiffness')
    eq(utils.poi(K, G), l/(2*(l + G)), 'Poisson ratio from Lame parameters')
    p, s = utils.V(K, G, 1)
    eq(utils.poi(K, G), (p**2 - 2*s**2)/(2*(p**2 - s**2)), 'Poisson ratio from velocities')


def ob_layers(v: '0.1..0.4', w: '0.1..0.4', l: '0.1..50[3]', G: '0.1..50[3]', h: '1..50[3]', Vp: '2.5..5[3]', Vs: '1..1.5[3]', d: '0.5..5[3]', z0: '1000..1500'):
    "layer averages"
    f = [v, w, 1 - v - w]
    C11, C33, C13, C44, C66 = Anisotropy.Backus(np.array(f), l, G)
    eq(C44, EM.VRH(f, G)[1], 'C44 is the Reuss average')
    eq(C66, EM.VRH(f, G)[0], 'C66 is the Voigt average')
    eq(C33, EM.VRH(f, l + 2*G)[1], 'C33 is the Reuss average of the P modulus')
    eq(Anisotropy.Backus(h, l, G), Anisotropy.Backus(h/(h[0] + h[1] + h[2]), l, G), 'thicknesses or fractions')
    eq(Anisotropy.Backus(np.array([h[2], h[0], h[1]]), np.array([l[2], l[0], l[1]]), np.array([G[2], G[0], G[1]])), Anisotropy.Backus(h, l, G), 'order of the layers')
    K, M = utils.M_from_V(d, 1000*Vp, 1000*Vs)
    b = Anisotropy.Backus_log(Vp, Vs, d, np.array([z0, z0 + h[0], z0 + h[0] + h[1], z0 + h[0] + h[1] + h[2]]))
    eq(b[:5], Anisotropy.Backus(h, utils.lame(K, M), M), 'log and layers')
    eq(b[5], EM.VRH(h/(h[0] + h[1] + h[2]), d)[0], 'density is the Voigt average')


def ob_bw(T: '35..120', P: '8..50', S: '0.01..0.3', x: '0.01..0.99', e: '1..40', T2: '35..120[2]'):
    "fluid mixtures and their parts"
    for t in (T, T2):
        rb, kb = BW.rho_K_brine(t, P, S)
        eq(kb, rb*BW.v_brine(t, P, S)**2/1000000, 'brine modulus from density and velocity')
        rw, kw = BW.rho_K_water(t, P)
        eq(kw, rw*BW.v_water(t, P)**2/1000000, 'water modulus from density and velocity')
        for bw in (False, True):
            rg, kg = BW.rho_K_gas(P, t, 1.5349) if bw else BW.rho_K_co2(P, t, 1.5349)
            eq(BW.co2_brine(t, P, S, x, bw=bw), ((1 - x)*rb + x*rg, 1/((1 - x)/kb + x/kg)), 'uniform mixture of brine and gas')
            eq(BW.co2_brine(t, P, S, x, brie_component=e, bw=bw), ((1 - x)*rb + x*rg, Fluid.Brie(kb, kg, 1 - x, e)), 'Brie mixture of brine and gas')
            eq(BW.co2_brine(t, P, S, x, bw=bw)[0], BW.co2_brine(t, P, S, x, e, bw)[0], 'density does not depend on the mixing rule')
    rb, kb = BW.rho_K_brine(T, P, S)
    rg, kg = BW.rho_K_co2(P, T, 1.5349)
    eq(BW.co2_brine(T, P, S, x)[1], EM.VRH([1 - x, x], [kb, kg])[1], 'uniform mixture is the Reuss average')
    eq(BW.co2_brine(T, P, S, x)[0], EM.VRH([1 - x, x], [rb, rg])[0], 'density is the Voigt average')


def ob_perm(phi: '0.02..0.4', d: '1..500', c: '0.1..1', S: '-2..2'):
    "permeability relations built on each other"
    eq(Permeability.Kozeny_Carman_Percolation(phi, 0, d, 1/180), Permeability.Kozeny_Carman(phi, d), 'percolation without threshold')
    eq(Permeability.Panda_Lake(d, 0, S, 2.5, phi), Permeability.Kozeny_Carman(phi, d), 'uniform grains')


def ob_qi(D: '2.6..2.7', K: '30..40', G: '30..45', Ksh: '15..25', Gsh: '6..10', Db: '0.9..1.1', Kb: '2..3', sg: '5..40', f: '0..1', Cn: '6..9', Kc: '35..40', Gc: '40..45', vs: '0..0.3', p: '0.05..0.25', pb: '0.3..0.38', pv: '0.05..0.25[3]', Dc: '2.6..2.8', Ds: '2.4..2.6'):
    "workflow lines and the models they are made of"
    for scheme in (1, 2):
        for vsh in (0, vs):
            kb = EM.VRH([vsh, 1 - vsh], [Ksh, K])[2]
            gb = EM.VRH([vsh, 1 - vsh], [Gsh, G])[2]
            kd, gd = GM.constantcement(pb, kb, gb, Kc, Gc, pv, 0.4, Cn, scheme)
            w = Fluid.vels(kd, gd, kb, D, Kb, Db, pv)
            a = QI.cst_vels(pb, kb, D, gb, pv, 0.4, Cn, Kc, Gc, Db, Kb, scheme, vsh, D, D, D)
            eq(a, w[:2], 'constant cement line of equal densities')
            b = QI.cal_v_const(D, K, G, D, Ksh, Gsh, Dc, Kc, Gc, Db, Kb, pb, 0.4, vsh, pv, scheme, Cn)
            eq(b, a, 'both ways to compute a constant cement line')
