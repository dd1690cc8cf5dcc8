"""Admissible input, end points included, gives finite, real, physical output."""
import numpy as np
from spec import eq, le, raises
from rockphypy import AVO, Anisotropy, BW, EM, Empirical, Fluid, GM, Permeability, QI, utils
from specs.lib import vti6, hti6


def ends(f, v):
    "a fraction: both ends, anything between, and an array with all of them"
    return (0.0, 1.0, f, v, np.array([0.0, f, 1.0]), 0, 1)


def fin(x, label):
    le(-1e15, x, label + ': finite')
    le(x, 1e15, label + ': finite')


def pos(x, label):
    le(0, x, label + ': not negative')
    le(x, 1e15, label + ': finite')


def unit(x, label):
    le(0, x, label + ': not below zero')
    le(x, 1, label + ': not above one')


def mat(C, label):
    "finite and every 2x2 minor of the main diagonal not negative"
    for i in range(6):
        le(0, C[i, i], label + ': diagonal')
        for j in range(6):
            le(-1e15, C[i, j], label + ': finite')
            le(C[i, j], 1e15, label + ': finite')
    for i, j in ((0, 1), (0, 2), (1, 2)):
        le(C[i, j]*C[i, j], C[i, i]*C[j, j], label + ': minors')


def ob_bounds(f: '0..1', g: '0..1', a: '0.001..400', b: '0.001..400', c: '0.001..400', d: '0.001..400', v: '0..1[3]', h: '0..1'):
    "averages and bounds for any fraction and any contrast"
    pos(EM.VRH([f, 1 - f], [a, b]), 'average')
    pos(EM.VRH(np.array([f*g, f*(1 - g), 1 - f]), np.array([a, b, c])), 'average of three')
    pos(EM.VRH([0.0, 1.0], [a, b]), 'average, one phase missing')
    pos(EM.VRH(np.array([0.0, f, 1 - f]), np.array([a, b, c])), 'average, one of three missing')
    pos(EM.VRH([f, 1 - f], [a, a]), 'average of equal phases')
    for x in ends(f, v):
        for bd in ('upper', 'lower'):
            pos(EM.HS(x, a, b, c, d, bd), 'bound')
            pos(EM.HS(x, a, a, c, c, bd), 'bound, equal phases')
            pos(EM.HS(x, a, 0, c, d, bd) if bd == 'upper' else 1, 'bound, soft phase')
        for pc in (0.3, 0.6):
            pos(EM.cripor(a, c, x*pc, pc), 'critical porosity')
    for x in (0.0, 1.0, f):
        pos(EM.cripor_reuss(a, b, x), 'suspension')
        pos(EM.cripor_reuss(a, b, x, den=True), 'suspension density')


def ob_cracks(K: '1..90', G: '1..60', Ki: '0..4', Gi: '0..3', a: '0.0001..1', c: '0..0.08', t: '0..90', cv: '0..0.08[3]', av: '0.001..0.5[3]', ph: '0..1', pv: '0..1[3]', r: '0.3..1'):
    "crack models, with empty, wet and filled cracks and none at all"
    g = K*r*0.7
    for o in (1, 2):
        for ax in (3, 1):
            C = EM.hudson(K, g, Ki, Gi, a, c*0.5, o, ax)
            fin([C[i, j] for i in range(6) for j in range(6)], 'Hudson')
            le(0, [C[i, i] for i in range(6)], 'Hudson diagonal')
    fin(EM.hudson_rand(K, g, Ki, Gi, a, c*0.5), 'random cracks')
    C = EM.hudson_ortho(K, g, Ki, Gi, av, cv*0.3)
    fin([C[i, j] for i in range(6) for j in range(6)], 'orthogonal sets')
    C = EM.hudson_cone(K, g, Ki, Gi, a, c*0.5, t)
    fin([C[i, j] for i in range(6) for j in range(6)], 'cones')
    for x in (0, 0.0, c, cv, np.array([0.0, c])):
        pos(EM.Dilute_crack(K, G, x), 'dilute cracks')
        fin(EM.OConnell_Budiansky(K, G, x), "O'Connell-Budiansky")
        pos(utils.crack_por(x, a), 'crack porosity')
    for x in ends(ph, pv):
        pos(EM.Swiss_cheese(K, G, x), 'pores')
        pos(EM.SC(x*0.1, K, g, 3), 'self consistent')
    for k, h, e, u in ((0, 0, c, t), (0.0, 0.0, 0.0, 0), (Ki, 0, 0, 90), (Ki, Gi, c, 0.0), (0, 0, c, 90.0)):
        for ax in (3, 1):
            C = EM.hudson(K, g, k, h, a, e*0.5, 1, ax)
            fin([C[i, j] for i in range(6) for j in range(6)], 'Hudson, ends')
        fin(EM.hudson_rand(K, g, k, h, a, e*0.5), 'random cracks, ends')
        C = EM.hudson_cone(K, g, k, h, a, e*0.5, u)
        fin([C[i, j] for i in range(6) for j in range(6)], 'cones, ends')
        C = EM.hudson_ortho(K, g, k, h, av, np.array([0.0, e*0.3, 0.0]))
        fin([C[i, j] for i in range(6) for j in range(6)], 'orthogonal sets, ends')
    C = EM.Eshelby_Cheng(K, g, c, 0.001 + a*0.998*0.9, Ki*0.2 + 0.001)
    fin(C, 'Eshelby-Cheng')
    C = EM.Eshelby_Cheng(K, g, c, 0.001 + a*0.998*0.9, Ki*0.2, mat=True)
    fin([C[i, j] for i in range(6) for j in range(6)], 'Eshelby-Cheng matrix')


def ob_inclusions(Km: '5..90', Gm: '5..60', Ki: '0..200', Gi: '0..200', f: '0..1', al: '0.001..0.97', be: '1.03..50', fv: '0..1[3]'):
    "inclusions of any shape, empty or stiff"
    for a in (al, be, 1, 1.0):
        pos(EM.PQ(Km, Gm, Ki, Gi + 0.001, a), 'shape factors')
    P, Q = EM.PQ_vectorize(Km, Gm, np.array([Ki, Ki]), np.array([Gi + 0.001, Gi + 0.001]), np.array([al, al]))
    pos((P, Q), 'shape factors, vectorised')
    pos(EM.PQ(Km, Gm, Km, Gm, al), 'shape factors without contrast')
    pos(EM.PQ(Km, Gm, 0, 0, 1), 'shape factors of an empty sphere')
    pos(EM.PQ(Km, Gm, 0, 0, al), 'shape factors of an empty crack')
    for x in ends(f, fv):
        pos(EM.MT_average(x, Km, Gm, Km, Gm, Km, Gm), 'Mori-Tanaka, one phase')
        fin(EM.SC_dilute(Km, Gm, 0, 0, x*0.3, 'stress'), 'dilute, empty')
        fin(EM.SC_flex(x*0.05, 3, Km, Km, Gm, Gm), 'self consistent, one phase')
        for m in ('stress', 'strain'):
            fin(EM.SC_dilute(Km, Gm, Ki*Km/210, Gi*Gm/210, x, m), 'dilute ' + m)
        pos(EM.SC_dilute(Km, Gm, Ki*Km/210, Gi*Gm/210, x, 'stress'), 'dilute')
        pos(EM.MT_average(x, Km, Gm, Ki + 0.1, Gi + 0.1, Km, Gm), 'Mori-Tanaka')
        fin(EM.SC_flex(x*0.05, 3, Km, Ki*Km/210, Gm, Gi*Gm/210), 'self consistent')


def ob_sands(K: '5..90', r: '0.15..1.4', t: '0..1', pc: '0.05..0.7', Cn: '1..20', s: '0..200', f: '0..1', tv: '0..1[3]', sv: '0..200[3]'):
    "sand models from no to critical porosity, without and with pressure"
    G = K*r
    for p in (0, 0.0, s, sv, np.array([0.0, s])):
        pos(GM.hertzmindlin(K, G, pc, Cn, p, f), 'pack')
        pos(GM.Walton(K, G, pc, Cn, p, f), 'Walton')
    for h in (0, 1, 0.0, 1.0):
        pos(GM.hertzmindlin(K, G, pc, Cn, s, h), 'pack, friction')
        pos(GM.Walton(K, G, pc, Cn, s, h), 'Walton, friction')
    for x in ends(t, tv):
        pos(GM.softsand(K, G, x*pc, pc, Cn, s + 0.01, f), 'soft sand')
        pos(GM.stiffsand(K, G, x*pc, pc, Cn, s + 0.01, f), 'stiff sand')
        pos(GM.stiffsand(K, G, x*pc, pc, Cn, s, f), 'stiff sand without pressure')
    pos(GM.Digby(K, G, pc, Cn, s, 0.01 + f*0.5), 'Digby')
    pos(GM.Digby(K, G, pc, Cn, 0, 0.01 + f*0.5), 'Digby without pressure')


def ob_cement(K: '20..90', r: '0.4..1.3', t: '0..1', u: '0..0.1', pc: '0.3..0.5', Cn: '3..14', q: '0.1..1.5', s: '0.1..60', f: '0.05..0.95', f1: '0..1', al: '0..1', tv: '0..1[3]'):
    "cement models from no cement to closed pores"
    G = K*r
    Kc, Gc = q*K, q*G
    for sc in (1, 2):
        pos(GM.contactcement(K, G, Kc, Gc, pc - u, pc, Cn, sc), 'contact cement')
        pos(GM.contactcement(K, G, Kc, Gc, pc, pc, Cn, sc), 'no cement')
        pos(GM.contactcement(K, G, K, G, pc - u, pc, Cn, sc), 'cement of grain material')
        for x in ends(t, tv):
            pos(GM.constantcement(pc - u, K, G, Kc, Gc, x*(pc - u), pc, Cn, sc), 'constant cement')
            pos(GM.MUHS(K, G, Kc, Gc, x*(pc - u), pc - u, pc, Cn, sc), 'increasing cement')
        for vc, vi in ((u, 0.1), (0.05 + u*0.5, 0.05)):
            for m in ('soft', 'stiff'):
                fin(GM.pcm(f, s, K, G, t*(pc - vc), pc, vc, vi, Kc, Gc, Cn, m, sc, f1), 'patchy cement')
            for z in (0.0, 1.0, 0, 1):
                fin(GM.vpcm(z, f, s, K, G, t*(pc - vc), pc, vc, vi, Kc, Gc, Cn, sc, f1), 'end members')
            for x in (0.0, pc):
                fin(GM.vpcm(al, f, s, K, G, x, pc, vc, vi, Kc, Gc, Cn, sc, f1), 'closed pores, loose pack')
                fin(GM.pcm(f, s, K, G, x, pc, vc, vi, Kc, Gc, Cn, 'soft', sc, f1), 'closed pores, loose pack')
                fin(GM.pcm(f, s, K, G, x, pc, vc, vi, Kc, Gc, Cn, 'stiff', sc, f1), 'closed pores, loose pack')
            fin(GM.vpcm(al, f, s, K, G, t*(pc - vc), pc, vc, vi, Kc, Gc, Cn, sc, f1), 'varying patchy cement')


def ob_diluting(k: '0..2', s0: '30..60', s: '0..30[3]', m: '0.5..3'):
    "connectivity"
    pos(GM.diluting(k, s0, s, m), 'diluting')
    pos(GM.diluting(k, 60, s, m), 'diluting')


def ob_shale(ps: '0.1..0.5', ph: '0..0.5', v: '0..1', K: '0.1..90', G: '0.1..60', k: '0.1..90', g: '0.1..60', vv: '0..1[3]'):
    "shale models for all clay contents"
    for x in ends(v, vv):
        a, b = GM.ThomasStieber(ps, ph, x)
        unit(a, 'dispersed')
        unit(b, 'laminated')
        pos(GM.silty_shale(x, K, G, k, g), 'silty shale')
        pos(GM.shaly_sand(ps, x*ps, K, G, k, g), 'shaly sand')


def ob_johnson(K: '20..60', r: '0.4..1.2', n: '4..12', p: '0.3..0.45', e: '-0.05..-0.0001', x: '0.05..20'):
    "strained pack"
    for path in ('together', 'uni_iso', 'iso_uni'):
        C, a, b = GM.johnson(K, K*r, n, p, e, e*x, path)
        fin([C[i, j] for i in range(6) for j in range(6)], 'stiffness')
        fin((a, b), 'stress')


def ob_fluid(Kw: '0.5..5', Kg: '0..2', S: '0..1', e: '0.5..40', K0: '10..100', x: '0..0.99', G: '0..60', phi: '0..0.6', a: '0.0001..5', b: '0.0001..5', r0: '1..4', rf: '0..1.5', Sv: '0..1[3]', xv: '0..0.99[3]'):
    "saturated rocks, with and without pores, frame and shear"
    for s in ends(S, Sv):
        pos(Fluid.Brie(Kw, Kg, s, e), 'Brie')
        pos(Fluid.Brie(Kw, 0, s, e), 'Brie, vacuum')
    for h in (0, 0.0):
        pos(Fluid.Gassmann(x*K0, G, K0, a, h), 'Gassmann without pores')
        pos(Fluid.vels(x*K0, G, K0, r0, a, rf, h), 'velocities without pores')
        pos(Fluid.Gassmann(h, G, K0, a, 0.01 + phi), 'Gassmann without frame')
        pos(Fluid.vels(x*(1 - phi)*K0, h, K0, r0, a, h, phi), 'velocities without shear')
    for y in (x, xv, np.array([0.0, x])):
        Kd = y*(1 - phi)*K0
        pos(Fluid.Gassmann(Kd, G, K0, a, phi), 'Gassmann')
        pos(Fluid.vels(Kd, G, K0, r0, a, rf, phi), 'velocities')
        q = 0.01 + phi
        k = Fluid.Gassmann(y*(1 - q)*K0, G, K0, a, q)[0]
        pos(Fluid.Gassmann_sub(q, K0, k, a, b), 'substitution')


def ob_waves(x: '0.05..0.9', r: '0.2..1.2', K0: '31..60', Kf: '0.01..3', r0: '2.4..2.9', rf: '0.05..1.2', phi: '0.02..0.4', al: '1..3', V0: '1..4', h: '0..2', fr: '0.001..1000', ka: '0.1..3', et: '0.1..3', xv: '0.05..0.9[3]'):
    "dispersion limits"
    for y in (x, xv):
        Kd = y*(1 - phi)*K0
        G = Kd*r
        fin(Fluid.Biot_HF(Kd, G, K0, Kf, r0, rf, phi, al)[0], 'Biot fast')
        fin(Fluid.Biot_HF(Kd, G, K0, Kf, r0, rf, phi, al)[2], 'Biot shear')
        pos(Fluid.Geertsma_Smit_HF(Kd, G, K0, Kf, r0, rf, phi, al), 'Geertsma-Smit')
    pos(Fluid.Biot_HF(x*(1 - phi)*K0, x*(1 - phi)*K0*r, K0, Kf, r0, rf, phi, al), 'Biot limits')
    pos(Fluid.Geertsma_Smit_LF(V0, V0 + h, fr, phi, rf, ka, et), 'Geertsma-Smit, low')


def ob_bk(C11: '30..45', C33: '28..40', C13: '6..10', C44: '8..11', C66: '9..12', K0: '60..80', G0: '20..50', a: '0.05..4', b: '0.05..4', p: '0..0.4'):
    "anisotropic substitution"
    C = vti6(C11, C33, C13, C44, C66)
    S = np.linalg.inv(C)
    T = Fluid.Brown_Korringa_dry2sat(S, K0, G0, a, p)
    mat(T, 'saturated compliance')
    mat(Fluid.Brown_Korringa_dry2sat(S, K0, G0, b, p), 'other fluid')


def ob_angles(C11: '25..60', C33: '25..60', C13: '5..14', C44: '5..12', C66: '5..12', r: '1.5..3', th: '-360..360', tv: '-360..360[3]'):
    "phase velocities and rotation at any angle"
    V = vti6(C11, C33, C13, C44, C66)
    H = hti6(C11, C33, C13, C44, C66)
    for t in (th, tv, 0, 90, 0.0, 45.0, 90.0, 180, np.array([0, 45, 90])):
        fin(Anisotropy.Thomsen(C11, C33, C13, C44, C66, r, t), 'Thomsen, angles')
        pos(Anisotropy.vel_azi_VTI(V, r, t), 'VTI')
        pos(Anisotropy.vel_azi_HTI(H, r, t), 'HTI')
    fin(Anisotropy.Thomsen(C11, C33, C13, C44, C66, r, th), 'Thomsen')
    fin(Anisotropy.Thomsen(C11, C33, C13, C44, C66, r, tv), 'Thomsen, arrays')
    fin(Anisotropy.Thomsen_Tsvankin(C11, C33, C33, C13, C13, C13, C44, C66, C66), 'Tsvankin')
    fin(Anisotropy.Thomsen(C11, C11, C11 - 2*C44, C44, C44, r, th), 'Thomsen, isotropic')
    for ax in (3, 1):
        for t in (0, 90, 180):
            B = Anisotropy.Bond_trans(V, t, ax)
            fin([B[i, j] for i in range(6) for j in range(6)], 'rotation, special angles')
        B = Anisotropy.Bond_trans(V, th, ax)
        fin([B[i, j] for i in range(6) for j in range(6)], 'rotation')


def ob_layers(a: '0..1', b: '0..1', l: '-1..60[3]', G: '0.5..60[3]', d: '0.1..10[4]', vp: '2..6[3]', vs: '0.5..1.4[3]', den: '1.5..3[3]'):
    "layer averages, with layers of no thickness"
    f = np.array([a, b*(1 - a), (1 - a)*(1 - b)])
    fin(Anisotropy.Backus(f, l*0.5 + 0.5, G), 'Backus')
    fin(Anisotropy.Backus(np.array([0.0, 1.0, 0.0]), l*0.5 + 0.5, G), 'Backus, one layer')
    fin(Anisotropy.Backus([a, 1 - a], [0, 0], [G[0], G[1]]), 'Backus, no lambda')
    pos(Anisotropy.Backus_log(vp, vs, den, np.array([1000, 1000 + d[1], 1000 + d[1] + d[2], 1000 + d[1] + d[2] + d[3]])), 'Backus of logs')


def ob_reflect(p1: '1500..5000', r1: '0.2..0.7', d1: '1000..3000', q: '0.7..1.4', r2: '0.2..0.7', d2: '1000..3000', th: '-40..40', tv: '-40..40[3]'):
    "reflectivity with and without contrast at any angle below critical"
    s1, p2 = p1*r1, p1*q
    s2 = p2*r2
    for t in (th, tv, 0, 0.0, np.array([0, 20, 40])):
        fin(AVO.Aki_Richards(t, p1, p2, s1, s2, d1, d2), 'Aki-Richards')
        fin(AVO.Aki_Richards(t, p1, p1, s1, s1, d1, d1), 'Aki-Richards, no contrast')
    fin(AVO.zoeppritz(p1, s1, d1, p1, s1, d1, 0), 'exact, no contrast')
    fin(AVO.zoeppritz(p1, s1, d1, p2, s2, d2, 0.0), 'exact, normal incidence')
    fin(AVO.AVO_abe(p1, s1, d1, p1, s1, d1), 'attributes, no contrast')
    fin(AVO.EI_ref(p1, s1, d1/1000, np.array([0, 10]), 0.5, norm=False), 'elastic impedance, normal incidence')
    fin(AVO.zoeppritz(p1, s1, d1, p2*0.7, s2*0.7, d2, th*0.5), 'exact')
    fin(AVO.AVO_abe(p1, s1, d1, p2, s2, d2), 'attributes')
    fin(AVO.EI_ref(p1, s1, d1/1000, tv, 0.5, norm=False), 'elastic impedance')
    fin(AVO.EI_ref(np.array([p1, p2]), np.array([s1, s2]), np.array([d1, d2])/1000, tv, 0.5), 'normalised elastic impedance')
    fin(AVO.AVO_ortho(p1, s1, 0.1*q, 0.05, 0.1, 0.02*q, 0.1, d1, p2, s2, 0, 0, 0, 0, 0, d2, th), 'orthorhombic')


def ob_bw(T: '5..150', P: '0.1..100', S: '0..0.35', Q: '1..60', G: '0.56..1.6', den: '0.7..1.0', R: '0..300', x: '0..1', e: '1..10', Tv: '5..150[3]', Pv: '0.1..100[3]', xv: '0..1[3]'):
    "fluids over the whole range of validity"
    for t, p in ((T, P), (Tv, Pv)):
        pos(BW.rho_K_water(t, p), 'water')
        pos(BW.v_water(t, p), 'water velocity')
        pos(BW.rho_K_brine(t, p, S), 'brine')
        pos(BW.v_brine(t, p, S), 'brine velocity')
        pos(BW.rho_K_oil(p*0.6, t, den), 'oil')
        pos(BW.pseudo_p_t(p, t, G), 'pseudo-reduced')
    fin(BW.dz_dp(Q/4, 1.05 + T/80), 'compressibility derivative')
    pos(BW.rho_K_gas(Q, T, 0.5 + G*0.4)[0], 'gas density')
    pos(BW.rho_K_go(Q, T, den, G, R)[0], 'gas oil density')
    U, W = 35 + T*0.5, 12 + Q*0.5
    pos(BW.rho_K_co2(W, U, 1.5349), 'carbon dioxide')
    for t, p in ((T, P), (Tv, Pv)):
        pos(BW.rho_K_brine(t, p, 0), 'no salt')
        pos(BW.v_brine(t, p, 0.0), 'no salt, velocity')
    pos(BW.rho_K_go(Q, T, den, G, 0)[0], 'no gas in solution')
    for y in ends(x, xv):
        pos(BW.co2_brine(U, W, 0, y), 'mixture with fresh water')
        pos(BW.co2_brine(U, W, S, y), 'mixture')
        pos(BW.co2_brine(U, W, S, y, brie_component=e), 'patchy mixture')
        pos(BW.co2_brine(U, W, S, y, bw=True)[0], 'mixture density, gas correlation')


def ob_trends(Z: '0..5299', p: '0..0.6', c: '0..1', V: '1500..8000', v: '0..1', Pe: '0..1', Zv: '0..5299[3]', pv: '0..0.6[3]', K: '1..90', G: '1..60'):
    "trends from the surface down, on and between segment boundaries"
    for z in (Z, Zv, 0, 0.0, 1393, 2000, 2500, 2630, 3500, np.array([0, 1393, 2000, 2500, 2630, 3500])):
        for f in (Empirical.Japsen, Empirical.yu_segment_trend, Empirical.Scherbaum, Empirical.Storvoll, Empirical.hjelstuen, Empirical.Hillis):
            pos(f(z), 'velocity')
        fin(Empirical.ehrenberg(z), 'porosity')
        fin(Empirical.ramm_porosity(z), 'porosity')
        fin(Empirical.ramm_porosity(z, False), 'porosity')
        fin(Empirical.ramm_porosity_segment(z), 'porosity')
    for x in (p, pv, 0, 0.0):
        pos(Empirical.krief(x, K, G)[1:], 'Krief')
        fin(Empirical.krief(x, K, G)[0], 'Krief, Lame')
        fin(Empirical.han(x, c), 'Han')
        pos(Empirical.Cp(x), 'coordination number')
        fin(Empirical.Sclater(x + 0.001), 'Sclater')
    for x in (v, 0, 1, 0.0, 1.0):
        pos(Empirical.esti_VS(V, x), 'S velocity')
    for n in (1, 2):
        pos(Empirical.empirical_StPeter(Pe, n), 'St Peter')
        pos(Empirical.empirical_StPeter(0, n), 'St Peter, no pressure')


def ob_perm(p: '0..0.99', d: '0.001..1000', S: '0.01..1', C: '0..2', k: '-1..2', t: '1..10', b: '1..5', cr: '0..1', w: '0..50', r: '0..50', so: '1..5', rg: '0..100', gs: '0..2', pc: '0..0.2', pv: '0..0.99[3]', Sv: '0.01..1[3]'):
    "permeability from closed to almost open pores"
    for x in (0, 0.0, p, pv, np.array([0.0, p])):
        pos(Permeability.Kozeny_Carman(x, d), 'Kozeny-Carman')
        pos(Permeability.Kozeny_Carman_Percolation(pc + x*(1 - pc), pc, d, 0.01), 'percolation')
        pos(Permeability.Panda_Lake(d, C, k, t, x), 'Panda-Lake')
        pos(Permeability.Panda_Lake_cem(x, d), 'Panda-Lake, cemented')
        pos(Permeability.Revil(x, d), 'Revil')
        pos(Permeability.Fredrich(0.001 + x*0.998, d, b), 'Fredrich')
        pos(Permeability.Bernabe(x, cr, w, r), 'Bernabe')
        pos(Permeability.Bernabe(x, 0, w, r), 'no cracks')
        pos(Permeability.Bernabe(x, 1, w, r), 'only cracks')
        pos(Permeability.Panda_Lake(d, 0, 0, t, x), 'grains of one size')
        for s in (S, 1, 1.0):
            pos(Permeability.Perm_logs(x, s), 'logs')
            fin(Permeability.Owolabi(x, s), 'Owolabi')
    pos(Permeability.Bloch(so, rg, gs)[1], 'Bloch')


def ob_elastic(K: '0.001..400', G: '0..300', r: '0.1..10', Kv: '0.001..400[3]', Gv: '0..300[3]', v: '1000..8000', q: '0..0.7'):
    "elastic relations, fluids included"
    for k, g in ((K, G), (Kv, Gv), (K, 0), (K, 0.0), (np.array([K, K]), np.array([0.0, G]))):
        pos(utils.V(k, g, r), 'velocities')
        fin(utils.lame(k, g), 'Lame')
        le(-1, utils.poi(k, g), 'Poisson')
        le(utils.poi(k, g), 0.5, 'Poisson')
    pos(utils.M_from_V(r, v, v*q), 'moduli')
    pos(utils.M_from_V(r, v, 0), 'moduli of a fluid')
    C = utils.write_iso(K, 0)
    fin([C[i, j] for i in range(6) for j in range(6)], 'stiffness of a fluid')
    C = utils.write_iso(K, G)
    fin([C[i, j] for i in range(6) for j in range(6)], 'stiffness')


def ob_lines(Kq: '36..38', Gq: '42..45', Ks: '15..25', Gs: '6..10', Kb: '2..3', sg: '1..30', vsh: '0..0.3', f: '0..1', Cn: '7..9', Kc: '36..38', Gc: '42..45', pb: '0.25..0.35', sc: '1..2'):
    "screening lines are defined on their side of the threshold"
    for s in (1, 2):
        phi, p1, p2, p3, s1, s2, s3 = QI.screening(2.65, Kq, Gq, 2.6, Ks, Gs, 2.65, Kc, Gc, 1.05, Kb, pb, 0.4, sg, vsh, s, f, Cn)
        unit(phi, 'porosity axis')
        pos((p1, s1), 'friable line')
        pos((p2[:61], s2[:61]), 'increasing cement line')
        pos((p3[88:99], s3[88:99]), 'contact cement line')


def ob_const(V: '1000..7000[3]', t: '0.02..0.38[3]', vsh: '0..0.5', u: '0.01..0.1', D: '0.1..5[4]'):
    "constant cement lines and estimated cement"
    c = QI(V, t).estimate_cem(np.array([0.01, 0.03, 0.06]), 37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, vsh, 2.55, 2.65, 2.7)
    unit(QI.normalize(D), 'normalised')
    q = t*(0.4 - u)/0.4
    pos(QI.cal_v_const(2.65, 37, 44, 2.55, 21, 7, 2.7, 38, 43, 1.05, 2.6, 0.4 - u, 0.4, vsh, q, 2, 8.5), 'velocities')
    pos(QI.den_matrix(vsh, 0.4, t, 2.5, 2.65, 2.7), 'matrix density')
    pos(QI.matrix_modulus(vsh, 0.4, t, 20, 37, 38), 'matrix modulus')


def ob_coincide(G: '1..40', phi: '0.02..0.4', Kf: '0.01..4', r0: '2.4..2.9', rf: '0.05..1.2', al: '1..3', f: '0..1', ph: '0.01..0.35', Kd: '1..30', b: '0.05..3', s: '1..60', th: '0..40', fv: '0..1[3]', pv: '0.01..0.35[3]'):
    "two inputs that happen to be the same number: a frame as stiff as its mineral, equal phases, equal fluids, equal layers, a sand at its critical porosity"
    for K in (37.0, 36.6, 40):
        pos(Fluid.Gassmann(K, G, K, Kf, phi), 'frame as stiff as the mineral')
        pos(Fluid.Gassmann(K, G, K, Kf, pv), 'frame as stiff as the mineral, porosities')
        pos(Fluid.vels(K, G, K, r0, Kf, rf, phi), 'frame as stiff as the mineral, velocities')
        pos(Fluid.Geertsma_Smit_HF(K, G, K, Kf, r0, rf, phi, al), 'frame as stiff as the mineral, high frequency')
        pos(Fluid.Gassmann(Kd, G, K, K, phi), 'pores filled with mineral')
        pos(Fluid.vels(Kd, G, K, r0, K, rf, phi), 'pores filled with mineral, velocities')
        for x in (f, fv, 0, 1, 0.5):
            for bd in ('upper', 'lower'):
                pos(EM.HS(x, K, K, G, G, bd), 'bound of one mineral')
                pos(EM.HS(x, K, K, 20.0, 20.0, bd), 'bound of one mineral')
                pos(EM.HS(x, K, 20.0, 20.0, 20.0, bd), 'bound, equal shear moduli')
                pos(EM.HS(x, 20.0, 20.0, K, 2.0, bd), 'bound, equal bulk moduli')
            pos(EM.MT_average(x, K, 20.0, K, 20.0, K, 20.0), 'Mori-Tanaka, one mineral')
            pos(EM.SC_dilute(K, 20.0, K, 20.0, x, 'stress'), 'dilute, mineral in mineral')
            pos(EM.SC_dilute(K, 20.0, K, 20.0, x, 'strain'), 'dilute, mineral in mineral')
            pos(EM.SC_flex(x, 5, K, K, 20.0, 20.0), 'flexible, mineral in mineral')
            pos(GM.silty_shale(x, K, 20.0, K, 20.0), 'silt and shale of one mineral')
            pos(GM.shaly_sand(0.4, x*0.4, K, 20.0, K, 20.0), 'sand and shale of one mineral')
            pos(Fluid.Brie(K, K, x, 3), 'fluids of equal modulus')
        pos(EM.VRH(np.array([f, 1 - f]), np.array([K, K])), 'equal phases')
        for c in (0.4, 0.36):
            for sch in (1, 2):
                pos(GM.contactcement(K, 45.0, K, 45.0, c, c, 9, sch), 'no cement')
                pos(GM.constantcement(0.3, K, 45.0, K, 45.0, 0.3, c, 9, sch), 'at the cemented end')
                pos(GM.constantcement(0.3, K, 45.0, K, 45.0, 0, c, 9, sch), 'no pores')
                pos(GM.MUHS(K, 45.0, K, 45.0, 0.3, 0.3, c, 9, sch), 'at the cemented end')
                for m in ('stiff', 'soft'):
                    for x in (0, 1, f):
                        pos(GM.pcm(x, s, K, 45.0, c, c, 0.1, 0.1, K, 45.0, 9, m, sch, 0.5), 'patchy sand at critical porosity')
                        pos(GM.pcm(x, s, K, 45.0, 0, c, 0.1, 0.1, K, 45.0, 9, m, sch, 0.5), 'patchy sand without pores')
                        pos(GM.vpcm(x, 0.5, s, K, 45.0, c, c, 0.1, 0.1, K, 45.0, 9, sch, 0.5), 'mixed patchy sand at critical porosity')
            for h in (GM.softsand, GM.stiffsand):
                pos(h(K, 45.0, c, c, 9, s, 0.5), 'sand at critical porosity')
                pos(h(K, 45.0, 0, c, 9, s, 0.5), 'no pores')
                pos(h(K, 45.0, 0.0, c, 9, s, 0), 'no pores, no friction')
            pos(EM.cripor(K, 45.0, c, c), 'no frame at critical porosity')
        for t in (0, 30, th, np.array([0, 20])):
            fin(AVO.Aki_Richards(t, 3000.0, 3000.0, 1500.0, 1500.0, 2.3, 2.3), 'no contrast')
            fin(AVO.Aki_Richards(t, 3000, 3000, 1500, 1500, 2, 2), 'no contrast, integers')
            fin(AVO.AVO_ortho(3000.0, 1500.0, 0.1, 0.1, 0.1, 0.1, 0.1, 2.3, 3000.0, 1500.0, 0.1, 0.1, 0.1, 0.1, 0.1, 2.3, t), 'orthorhombic, no contrast')
        fin(AVO.AVO_abe(3000.0, 1500.0, 2.3, 3000.0, 1500.0, 2.3), 'attributes, no contrast')
        fin(AVO.AVO_abe(3000.0, 1500.0, 2.3, 3000.0, 1500.0, 2.5), 'attributes, density contrast only')
        fin(AVO.AVO_abe(3000.0, 1500.0, 2.5, 3250.0, 1625.0, 2.3), 'attributes, equal velocity ratios')
        fin(AVO.zoeppritz(3000.0, 1500.0, 2.3, 3000.0, 1500.0, 2.3, 0), 'exact, no contrast')
    for k, g in ((10.0, 15.0), (20, 30), (30.0, 20.0)):
        fin(utils.poi(k, g), 'Poisson ratio')
        fin(EM.Dilute_crack(k, g, 0.05), 'cracks')
        fin(EM.OConnell_Budiansky(k, g, 0.05), 'cracks')
        for sg in (20.0, 0, 0.0):
            pos(GM.hertzmindlin(k, g, 0.4, 9, sg, 0.5), 'pack of zero lambda')
            pos(GM.Walton(k, g, 0.4, 9, sg, 0.5), 'pack of zero lambda')
    pos(GM.diluting(0.5, 30.0, np.array([30.0, 0.0]), 2), 'at the reference stress')
