"""Bounds, averages and limits keep their order."""
import numpy as np
from spec import eq, le
from rockphypy import AVO, Anisotropy, BW, EM, Empirical, Fluid, GM, Permeability, QI, utils


def between(lo, x, hi, label):
    le(lo, x, label + ': lower')
    le(x, hi, label + ': upper')


def ob_vrh(f: '0..1', a: '0.01..300', b: '0.01..300', u: '0.01..0.49', v: '0.01..0.5', c: '0.01..300', d: '0.01..300'):
    "Reuss <= Hill <= Voigt, inside the constituents"
    V, R, H = EM.VRH(np.array([f, 1 - f]), np.array([a, b]))
    gap = f*(1 - f)*(a - b)**2/(f*b + (1 - f)*a)
    le(R, H, 'Reuss below Hill', cert=gap/2)
    le(H, V, 'Hill below Voigt', cert=gap/2)
    le(R, V, 'Reuss below Voigt', cert=gap)
    between(np.minimum(a, b), R, np.maximum(a, b), 'Reuss')
    between(np.minimum(a, b), V, np.maximum(a, b), 'Voigt')
    V, R, H = EM.VRH([u, v, 1 - u - v], [a, c, d])
    le(R, H, 'three phases, Reuss below Hill')
    le(H, V, 'three phases, Hill below Voigt')
    lo, hi = np.minimum(a, np.minimum(c, d)), np.maximum(a, np.maximum(c, d))
    between(lo, R, hi, 'three phases, Reuss')
    between(lo, V, hi, 'three phases, Voigt')


def ob_suspension(M0: '5..300', Mf: '0.01..5', pc: '0.01..0.99', p: '0..0.99', K0: '1..300', G0: '1..300', q: '0..1'):
    "critical-porosity laws"
    s = EM.cripor_reuss(M0, Mf, pc)
    d = EM.cripor_reuss(M0, Mf, pc, den=True)
    between(Mf, s, M0, 'suspension')
    le(s, d, 'suspension below the linear average')
    between(Mf, d, M0, 'linear average')
    phi = q*pc
    k, g = EM.cripor(K0, G0, phi, pc)
    between(0, k, K0, 'bulk')
    between(0, g, G0, 'shear')


def ob_hs(f: '0..1', K2: '0.1..40', G2: '0.05..30', x: '0..60', y: '0..60', fv: '0..1[3]'):
    "Hashin-Shtrikman bounds are ordered and inside Voigt and Reuss"
    K1, G1 = K2 + x, G2 + y
    for q in (f, fv):
        ku, gu = EM.HS(q, K1, K2, G1, G2, 'upper')
        kl, gl = EM.HS(q, K1, K2, G1, G2, 'lower')
        le(kl, ku, 'bulk')
        le(gl, gu, 'shear')
        le(ku, q*K1 + (1 - q)*K2, 'upper bound below Voigt, bulk')
        le(gu, q*G1 + (1 - q)*G2, 'upper bound below Voigt, shear')
        le(1/(q/K1 + (1 - q)/K2), kl, 'lower bound above Reuss, bulk')
        le(1/(q/G1 + (1 - q)/G2), gl, 'lower bound above Reuss, shear')
    ku, gu = EM.HS(f, K1, K2, G1, G2)
    le(EM.HS(f, K1, K2, G1, G2, 'lower')[0], ku, 'upper is the default')


def ob_cracks(K: '1..90', G: '1..60', Ki: '0..0.9', Gi: '0..0.5', a: '0.0001..0.5', cd: '0..0.1', ph: '0..0.9', n: '0..0.08', crv: '0..0.08[3]'):
    "cracks and pores soften the matrix, the more the softer their fill"
    for q in (cd, crv):
        k, g = EM.Dilute_crack(K, G, q)
        between(0, k, K, 'dilute cracks, bulk')
        between(0, g, G, 'dilute cracks, shear')
    k, g = EM.Swiss_cheese(K, G, ph)
    between(0, k, K, 'pores, bulk')
    between(0, g, G, 'pores, shear')
    k1, g1 = EM.SC(n, K, G, 3)
    le(k1, K, 'self consistent, bulk')
    le(g1, G, 'self consistent, shear')
    ks, gs = EM.Swiss_cheese(K, G, n)
    le(k1, ks, 'interaction softens further, bulk')
    le(g1, gs, 'interaction softens further, shear')
    C = EM.hudson(K, G, Ki, Gi, a, cd*0.5)
    l = K - 2*G/3
    D = EM.hudson(K, G, 0, 0, a, cd*0.5)
    for i in (0, 2, 3):
        le(C[i, i], l + 2*G if i < 3 else G, 'Hudson below the matrix')
        le(D[i, i], C[i, i], 'dry cracks softer than filled ones')
    eq(C[5, 5], G, 'no change of the shear modulus in the crack plane')
    H = EM.hudson(K, G, Ki, Gi, a, cd*0.5, axis=1)
    le(H[0, 0], H[2, 2], 'soft across the cracks')
    le(H[4, 4], H[3, 3], 'sheared across the cracks')
    le(C[2, 2], C[0, 0], 'P stiffness across cracks lowest')
    le(C[3, 3], C[5, 5], 'S stiffness across cracks lowest')
    k, g = EM.OConnell_Budiansky(K, G, cd)
    le(k, K, "O'Connell-Budiansky, bulk")
    le(g, G, "O'Connell-Budiansky, shear")


def ob_inclusions(Km: '5..90', Gm: '5..60', Ki: '0.05..4.9', Gi: '0..4.9', f: '0..0.4', t: '0..1', K2: '0.1..90', G2: '0.1..60', K1: '0.1..90', G1: '0.1..60'):
    "inclusion schemes stay between the constituents"
    ks, gs = EM.SC_dilute(Km, Gm, Ki, Gi, f, 'stress')
    ke, ge = EM.SC_dilute(Km, Gm, Ki, Gi, f, 'strain')
    le(ke, ks, 'given strain below given stress, bulk')
    le(ge, gs, 'given strain below given stress, shear')
    le(ks, 1, 'soft inclusions soften, bulk')
    le(gs, 1, 'soft inclusions soften, shear')
    le(0, ks, 'positive, bulk')
    le(0, gs, 'positive, shear')
    k, g = EM.MT_average(t, Km, Gm, K1, G1, K2, G2)
    between(np.minimum(K1, K2), k, np.maximum(K1, K2), 'Mori-Tanaka, bulk')
    between(np.minimum(G1, G2), g, np.maximum(G1, G2), 'Mori-Tanaka, shear')
    between(1/(t/K1 + (1 - t)/K2), k, t*K1 + (1 - t)*K2, 'Mori-Tanaka inside Voigt and Reuss, bulk')
    between(1/(t/G1 + (1 - t)/G2), g, t*G1 + (1 - t)*G2, 'Mori-Tanaka inside Voigt and Reuss, shear')
    k, g = EM.SC_flex(f/4, 4, 20 + Km/5, Ki, 20 + Gm/5, Gi)
    le(k, 20 + Km/5, 'self-consistent inclusions, bulk')
    le(g, 20 + Gm/5, 'self-consistent inclusions, shear')


def ob_shape(Km: '5..90', Gm: '5..60', Ki: '0.05..4.9', Gi: '0.01..4.9', a: '0.02..0.98', b: '1.02..10', K3: '90..300', G3: '60..250'):
    "soft inclusions of any shape have strain factors above one, stiff ones below"
    for al in (a, b, 1):
        P, Q = EM.PQ(Km, Gm, Ki, Gi, al)
        le(1, P, 'soft, bulk')
        le(1, Q, 'soft, shear')
        P, Q = EM.PQ(Km, Gm, K3, G3, al)
        between(0, P, 1, 'stiff, bulk')
        between(0, Q, 1, 'stiff, shear')
    P, Q = EM.PQ_vectorize(Km, Gm, np.array([Ki, Km]), np.array([Gi, Gm]), np.array([a, a]))
    between(1, np.array([1.0, P[1]]), P, 'vectorised')
    S, T = EM.PQ(Km, Gm, Ki, Gi, 1)
    P, Q = EM.PQ(Km, Gm, Ki, Gi, a)
    le(S, P, 'flat pores more compliant than spheres, bulk')


def ob_shale(ps: '0.2..0.4', ph: '0.05..0.19', v: '0..1', Kq: '20..60', Gq: '20..60', Ks: '5..19', Gs: '2..19', C: '0..1', vv: '0..1[3]'):
    "sand and shale mixtures"
    for x in (v, vv):
        a, l = GM.ThomasStieber(ps, ph, x)
        le(a, l, 'dispersed shale below laminated')
        between(ph, l, ps, 'laminated')
        le(0, a, 'dispersed')
    for x in (C, vv):
        k, g = GM.silty_shale(x, Kq, Gq, Ks, Gs)
        between(Ks, k, Kq, 'silty shale, bulk')
        between(Gs, g, Gq, 'silty shale, shear')
        K, G = GM.shaly_sand(ps, x*ps, Kq, Gq, Ks, Gs)
        between(Ks, K, Kq, 'shaly sand, bulk')
        between(Gs, G, Gq, 'shaly sand, shear')
        le(k, EM.HS(1 - x, Kq, Ks, Gq, Gs)[0], 'silty shale is a lower bound')


def ob_sand(K: '30..60', G: '8..60', t: '0..1', pc: '0.3..0.45', Cn: '4..12', sg: '0.5..60', f: '0..1', Kc: '20..60', Gc: '15..50', u: '0.03..0.3', tv: '0..1[3]', g: '0..1'):
    "granular models: loose pack <= soft <= stiff <= mineral"
    kh, gh = GM.hertzmindlin(K, G, pc, Cn, sg, f)
    for x in (t, tv):
        p = x*pc
        k1, g1 = GM.softsand(K, G, p, pc, Cn, sg, f)
        k2, g2 = GM.stiffsand(K, G, p, pc, Cn, sg, f)
        between(kh, k1, K, 'soft sand, bulk')
        between(gh, g1, G, 'soft sand, shear')
        le(k1, k2, 'soft below stiff, bulk')
        le(g1, g2, 'soft below stiff, shear')
        between(kh, k2, K, 'stiff sand, bulk')
        between(gh, g2, G, 'stiff sand, shear')
    lo = GM.hertzmindlin(K, G, pc, Cn, sg, 0)
    hi = GM.hertzmindlin(K, G, pc, Cn, sg, 1)
    between(lo[1], gh, hi[1], 'friction raises the shear modulus only')
    eq(lo[0], hi[0], 'friction does not change the bulk modulus')
    ws, wr = GM.Walton(K, G, pc, Cn, sg, 0), GM.Walton(K, G, pc, Cn, sg, 1)
    le(ws[1], wr[1], 'smooth below rough')
    between(ws[1], GM.Walton(K, G, pc, Cn, sg, f)[1], wr[1], 'slip fraction')


def ob_cement(K: '36..60', G: '36..60', t: '0..1', pc: '0.36..0.42', Cn: '7..10', sg: '0.5..10', f: '0.05..0.95', Kc: '30..36', Gc: '30..36', u: '0.02..0.05', al: '0..1', q: '0..1', w: '0..0.1'):
    "cemented sands: soft patches below stiff patches, both between loose and cemented"
    for scheme in (1, 2):
        pb = pc - u
        k1, g1 = GM.constantcement(pb, K, G, Kc, Gc, t*pb, pc, Cn, scheme)
        k2, g2 = GM.MUHS(K, G, Kc, Gc, t*pb, pb, pc, Cn, scheme)
        kb, gb = GM.contactcement(K, G, Kc, Gc, pb, pc, Cn, scheme)
        le(k1, k2, 'constant cement below increasing cement, bulk')
        le(g1, g2, 'constant cement below increasing cement, shear')
        between(kb, k1, K, 'constant cement, bulk')
        between(gb, g1, G, 'constant cement, shear')
        between(kb, k2, K, 'increasing cement, bulk')
        between(gb, g2, G, 'increasing cement, shear')
        for vc, vi in ((u, 0.06), (0.06 + w, 0.06)):
            p = t*(pc - vc)
            s = GM.pcm(f, sg, K, G, p, pc, vc, vi, Kc, Gc, Cn, 'soft', scheme, q)
            r = GM.pcm(f, sg, K, G, p, pc, vc, vi, Kc, Gc, Cn, 'stiff', scheme, q)
            m = GM.vpcm(al, f, sg, K, G, p, pc, vc, vi, Kc, Gc, Cn, scheme, q)
            for i, nm in ((0, 'bulk'), (1, 'shear')):
                le(s[i], r[i], 'disconnected patches below connected ones, ' + nm)
                between(s[i], m[i], r[i], 'varying connectivity, ' + nm)
                le(r[i], K if i == 0 else G, 'below the mineral, ' + nm)
                le(GM.softsand(K, G, p, pc, Cn, sg, q)[i], s[i], 'above the uncemented sand, ' + nm)


def ob_fluid(Kw: '1.5..4', Kg: '0.01..1.5', S: '0..1', e: '0.5..40', K0: '31..80', x: '0..1', G: '1..40', phi: '0.01..0.5', a: '0.01..2', d: '0..2', r0: '2.4..2.8', rf: '0.1..1.2', Kv: '0..1[3]', Sv: '0..1[3]'):
    "fluids and saturated rock"
    for s in (S, Sv):
        between(Kg, Fluid.Brie(Kw, Kg, s, e), Kw, 'Brie')
        le(Fluid.Brie(Kw, Kg, s, e + 1), Fluid.Brie(Kw, Kg, s, e), 'a larger exponent softens')
        between(Kg, Fluid.Brie(Kg, Kw, s, e), Kw, 'Brie, stiffer second fluid')
        le(Fluid.Brie(Kg, Kw, s, e), Fluid.Brie(Kg, Kw, s, e + 1), 'a larger exponent moves towards the second fluid')
    for y in (x, Kv):
        Kd = y*(1 - phi)*K0
        k1, g1 = Fluid.Gassmann(Kd, G, K0, a, phi)
        between(Kd, k1, K0, 'dry <= saturated <= mineral')
        k2, g2 = Fluid.Gassmann(Kd, G, K0, a + d, phi)
        le(k1, k2, 'a stiffer fluid gives a stiffer rock')
        eq(g1, g2, 'shear modulus does not see the fluid')
    Ks = Fluid.Gassmann(0.9*x*(1 - phi)*K0, G, K0, a, phi)[0]
    n = Fluid.Gassmann_sub(phi, K0, Ks, a, a + d)
    le(Ks, n, 'substituting a stiffer fluid')
    le(n, K0, 'substituted rock below the mineral')
    le(Fluid.Gassmann_sub(phi, K0, n, a + d, a), n, 'substituting a softer fluid')
    p, s, r = Fluid.vels(0.9*x*(1 - phi)*K0 + 0.01, G, K0, r0, a, rf, phi)
    le(np.sqrt(4/3)*s, p, 'P faster than S')
    between(rf, r, r0, 'density')


def ob_waves(x: '0.1..0.6', G: '2..15', K0: '31..60', Kf: '0.5..3', r0: '2.5..2.8', rf: '0.6..1.1', phi: '0.05..0.35', al: '1.2..3', V0: '2..4', h: '0..1', fr: '0.001..1000', ka: '0.1..3', et: '0.1..3'):
    "velocities of saturated rock at the frequency limits"
    Kd = x*(1 - phi)*K0
    k = Fluid.Gassmann(Kd, G, K0, Kf, phi)[0]
    r = (1 - phi)*r0 + phi*rf
    f, s, t = Fluid.Biot_HF(Kd, G, K0, Kf, r0, rf, phi, al)
    le(np.sqrt((k + 4*G/3)/r), f, 'fast P not below Gassmann')
    le(np.sqrt(G/r), t, 'S not below Gassmann')
    le(s, f, 'slow below fast')
    le(0, s, 'slow wave propagates')
    p, q = Fluid.Geertsma_Smit_HF(Kd, G, K0, Kf, r0, rf, phi, al)
    le(np.sqrt((k + 4*G/3)/r), p, 'Geertsma-Smit not below Gassmann')
    le(np.sqrt(G/r), q, 'Geertsma-Smit S not below Gassmann')
    between(V0, Fluid.Geertsma_Smit_LF(V0, V0 + h, fr, phi, rf, ka, et), V0 + h, 'between its limits')


def ob_bk(C11: '30..45', C33: '28..40', C13: '6..10', C44: '8..11', C66: '9..12', K0: '60..80', G0: '20..50', a: '0.5..2', d: '0..2', p: '0.05..0.3'):
    "anisotropic substitution"
    S = np.linalg.inv(utils.write_VTI_matrix(C11, C33, C13, C44, C66))
    T = Fluid.Brown_Korringa_dry2sat(S, K0, G0, a, p)
    U = Fluid.Brown_Korringa_dry2sat(S, K0, G0, a + d, p)
    for i in range(6):
        le(T[i, i], S[i, i], 'saturation never adds compliance')
        le(U[i, i], T[i, i], 'a stiffer fluid never adds compliance')
    le(sum([U[i, j] for i in range(3) for j in range(3)]), sum([T[i, j] for i in range(3) for j in range(3)]), 'compressibility')
    le(1/K0, sum([T[i, j] for i in range(3) for j in range(3)]), 'not stiffer than the mineral')


def ob_squirt(p: '3500..4000', s: '2000..2300', hp: '5000..5500', hs: '2700..2900', K0: '90..120', r: '2..2.5', rf: '0.5..1.2', Kf: '0.1..4', phi: '0.02..0.2'):
    "unrelaxed frame is stiffer than the dry rock and softer than the mineral"
    k, g, vp, vs = Fluid.Mavko_Jizba(hp, hs, p, s, K0, r, rf, Kf, phi)
    kd, gd = utils.M_from_V(r, p, s)
    le(kd, k, 'bulk')
    le(gd, g, 'shear')
    le(k, K0, 'below the mineral')
    le(np.sqrt(4/3)*vs, vp, 'P faster than S')


def ob_layers(v: '0.1..0.4', w: '0.1..0.4', l: '0.1..50[3]', G: '0.1..50[3]'):
    "layered media are stiffer along the layers"
    f = np.array([v, w, 1 - v - w])
    C11, C33, C13, C44, C66 = Anisotropy.Backus(f, l, G)
    le(C44, C66, 'shear')
    M = l + 2*G
    lo, hi = np.minimum(M[0], np.minimum(M[1], M[2])), np.maximum(M[0], np.maximum(M[1], M[2]))
    between(lo, C33, hi, 'P across the layers')
    le(C33, v*M[0] + w*M[1] + (1 - v - w)*M[2], 'below Voigt')
    between(np.minimum(G[0], np.minimum(G[1], G[2])), C44, np.maximum(G[0], np.maximum(G[1], G[2])), 'S across')
    le(C13*C13, C11*C33, 'stable')
    le(C13*C13, (C11 - C66)*C33, 'strain energy is positive')
    le(0, Anisotropy.Thomsen(C11, C33, C13, C44, C66, 2.5, 0)[4], 'gamma of layering is not negative')
    e, d = Anisotropy.Thomsen(C11, C33, C13, C44, C66, 2.5, 0)[3], Anisotropy.Thomsen(C11, C33, C13, C44, C66, 2.5, 0)[5]
    le(d, e, 'delta below epsilon for isotropic layers')


def ob_velocity(K: '0.5..300', G: '0.1..250', r: '0.5..8', C11: '25..60', C33: '25..60', C13: '5..12', C44: '5..12', C66: '5..12', C55: '5..12', th: '-180..360', x: '-1..1', M: '10..80', y: '0..1'):
    "P waves are faster than S waves; Poisson's ratio is admissible"
    p, s = utils.V(K, G, r)
    le(np.sqrt(4/3)*s, p, 'isotropic')
    between(-1, utils.poi(K, G), 0.5, 'Poisson ratio')
    le(-2*G/3, utils.lame(K, G), 'Lame')
    le(utils.lame(K, G), K, 'Lame below bulk')
    V = utils.write_VTI_matrix(C11, C33, C13, C44, C66)
    p, h, v = Anisotropy.vel_azi_VTI(V, r, th)
    le(v, p, 'VTI: P faster than SV')
    le(h, p, 'VTI: P faster than SH')
    between(np.minimum(C44, C66)/r, h*h, np.maximum(C44, C66)/r, 'VTI: SH between its limits')
    between(np.minimum(C33, C11)/r, p*p + v*v - C44/r, np.maximum(C33, C11)/r, 'VTI: sum of the in-plane waves')
    H = utils.write_HTI_matrix(C11, C33, C13, C44, C55)
    p, h, v = Anisotropy.vel_azi_HTI(H, r, th)
    le(h, p, 'HTI: P faster than SH')
    le(v, p, 'HTI: P faster than SV')
    between(np.minimum(C44, C55)/r, v*v, np.maximum(C44, C55)/r, 'HTI: SV between its limits')


def ob_mix(T: '35..120', P: '12..50', S: '0.01..0.3', x: '0..1', e: '1..10', G: '0.56..1.2', den: '0.8..0.9'):
    "fluid properties"
    rw, kw = BW.rho_K_water(T, P)
    rb, kb = BW.rho_K_brine(T, P, S)
    rg, kg = BW.rho_K_gas(P, T, G)
    ro, ko = BW.rho_K_oil(P, T, den)
    rc, kc = BW.rho_K_co2(P, T, 1.5349)
    le(rw, rb, 'salt makes water denser')
    le(kw, kb, 'salt makes water stiffer')
    le(rg, ro, 'gas lighter than oil')
    le(kg, ko, 'gas softer than oil')
    le(ro, rw, 'oil lighter than water')
    le(ko, kw, 'oil softer than water')
    r, k = BW.co2_brine(T, P, S, x)
    between(rc, r, rb, 'mixture density')
    between(kc, k, kb, 'mixture modulus, uniform')
    r2, k2 = BW.co2_brine(T, P, S, x, brie_component=e)
    between(kc, k2, kb, 'mixture modulus, patchy')
    eq(r, r2, 'the mixing rule of moduli does not change the density')


def ob_trends(Vp: '1800..6000', v: '0..1', phi: '0.001..0.4', K: '20..60', G: '20..60', Z: '0..5200', c: '0..0.3', S: '0.05..0.95'):
    "empirical relations"
    s = Empirical.esti_VS(Vp, v)
    between(np.minimum(Empirical.esti_VS(Vp, 0), Empirical.esti_VS(Vp, 1)), s, np.maximum(Empirical.esti_VS(Vp, 0), Empirical.esti_VS(Vp, 1)), 'between sand and shale')
    le(s, Vp, 'S slower than P')
    l, g, k = Empirical.krief(phi, K, G)
    between(0, k, K, 'Krief, bulk')
    between(0, g, G, 'Krief, shear')
    le(k, K*(1 - phi)**3, 'Krief below its dilute slope')
    p, s = Empirical.han(phi, c)
    le(s, p, 'Han')
    for f in (Empirical.Japsen, Empirical.yu_segment_trend, Empirical.Scherbaum, Empirical.Storvoll, Empirical.hjelstuen):
        le(1480, f(Z), 'velocity above water')
    for smp in (1, 2):
        p, s = Empirical.empirical_StPeter(c, smp)
        le(s, p, 'St Peter')
    t = Permeability.Perm_logs(phi, S)
    for k in t:
        le(0, k, 'permeability')
    between(0, Permeability.Kozeny_Carman_Percolation(phi + 0.02, 0.02, 200, 5/1000), Permeability.Kozeny_Carman_Percolation(phi + 0.02, 0.0, 200, 5/1000), 'percolation threshold lowers permeability')


def ob_lines(Kq: '36..38', Gq: '42..45', Ks: '15..25', Gs: '6..10', Kb: '2..3', sg: '5..30', vsh: '0..0.3', f: '0..1', Cn: '7..9', Kc: '36..38', Gc: '42..45'):
    "screening lines: friable sand is the lower bound"
    phi, p1, p2, p3, s1, s2, s3 = QI.screening(2.65, Kq, Gq, 2.6, Ks, Gs, 2.65, Kc, Gc, 1.05, Kb, 0.3, 0.4, sg, vsh, 2, f, Cn)
    ok2, ok3 = phi <= 0.3, phi >= 0.3
    for k in (0, 20, 40, 60, 74):
        le(p1[k], p2[k], 'increasing cement above friable, P')
        le(s1[k], s2[k], 'increasing cement above friable, S')
    for k in (75, 85, 95):
        le(p1[k], p3[k], 'contact cement above friable, P')
        le(s1[k], s3[k], 'contact cement above friable, S')
    for k in (0, 30, 60, 90, 99):
        le(np.sqrt(4/3)*s1[k], p1[k], 'P faster than S')
        between(0, phi[k], 0.4, 'porosity axis')


def ob_cement_volume(V: '1500..6000[3]', t: '0.05..0.35[3]', vsh: '0..0.3'):
    "estimated cement is between none and the last seed"
    for seeds in (np.array([0.01, 0.03, 0.06]), np.array([0.0, 0.02])[1:]):
        c = QI(V, t).estimate_cem(seeds, 37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, vsh, 2.55, 2.65, 2.7)
        le(0, c, 'not negative')
        le(c, seeds[-1], 'not above the last seed')


def ob_cement_between(w: '0..1', x: '0..1', ph: '0.1..0.3', vsh: '0..0.3'):
    "between two lines the estimate is between their cement volumes"
    q = np.array([ph])
    def line(c):
        return QI.cal_v_const(2.65, 37, 44, 2.55, 21, 7, 2.7, 38, 43, 1.05, 2.6, 0.4 - c, 0.4, vsh, q, 2, 8.5)[0]
    a, b, c = line(0.01), line(0.03), line(0.06)
    seeds = np.array([0.01, 0.03, 0.06])
    args = (37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, vsh, 2.55, 2.65, 2.7)
    lo = QI(a + (0.02 + 0.96*w)*(b - a), q).estimate_cem(seeds, *args)
    between(0.01, lo, 0.03, 'between the first two lines')
    hi = QI(b + (0.02 + 0.96*x)*(c - b), q).estimate_cem(seeds, *args)
    between(0.03, hi, 0.06, 'between the last two lines')
    eq(QI(a*0.99, q).estimate_cem(seeds, *args), np.zeros(1), 'below the first line')
    eq(QI(c*1.01, q).estimate_cem(seeds, *args), np.array([0.06]), 'above the last line')
