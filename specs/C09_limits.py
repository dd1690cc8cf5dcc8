"""Models return their end members at the ends of their ranges."""
import numpy as np
from spec import eq
from rockphypy import EM, GM, Fluid, BW, Anisotropy, utils, Empirical, Permeability, QI
from specs.lib import vti6, hti6, svti6
from specs import ref_em as E


def ob_averages(a: '0.001..300', b: '0.001..300', c: '0.001..300', f: '0.01..0.6', g: '0.01..0.35', pc: '0.01..0.9'):
    "mixtures of one phase, and of equal phases"
    for x in (np.array([1.0, 0.0]), [1, 0]):
        eq(EM.VRH(x, np.array([a, b])), (a, a, a), 'all of phase 1')
    eq(EM.VRH([0, 0, 1], [a, b, c]), (c, c, c), 'all of phase 3')
    eq(EM.VRH([f, g, 1 - f - g], [a, a, a]), (a, a, a), 'equal phases')
    for den in (False, True):
        eq(EM.cripor_reuss(a, b, 0, den=den), a, 'no fluid')
        eq(EM.cripor_reuss(a, b, 1, den=den), b, 'all fluid')
        eq(EM.cripor_reuss(a, a, pc, den=den), a, 'equal phases')


def ob_cripor(K: '0.5..300', G: '0.5..300', pc: '0.1..0.9', Kv: '0.5..300[3]', Gv: '0.5..300[3]'):
    "critical porosity law"
    eq(EM.cripor(K, G, 0, pc), (K, G), 'mineral')
    eq(EM.cripor(K, G, pc, pc), (0, 0), 'suspension at critical porosity')
    eq(EM.cripor(K, G, np.array([0.0, pc]), pc), ([K, 0], [G, 0]), 'array')
    eq(EM.cripor(Kv, Gv, 0, pc), (Kv, Gv), 'minerals')


def ob_hs(f: '0..1', K1: '20..90', K2: '0.1..19', G1: '20..90', G2: '0.1..19', Ka: '0.5..19', Kb: '20..300', Ga: '0.5..19', Gb: '20..300'):
    "Hashin-Shtrikman"
    for bound in ('upper', 'lower'):
        eq(EM.HS(1, K1, K2, G1, G2, bound=bound), (K1, G1), 'all of phase 1')
        eq(EM.HS(0, K1, K2, G1, G2, bound=bound), (K2, G2), 'all of phase 2')
        eq(EM.HS(1.0, Ka, Kb, Ga, Gb, bound), (Ka, Ga), 'all of soft phase 1')
        eq(EM.HS(0.0, Ka, Kb, Ga, Gb, bound), (Kb, Gb), 'all of stiff phase 2')
        eq(EM.HS(f, K1, K1, G1, G1, bound), (K1, G1), 'equal phases')
        eq(EM.HS(f, K1, K2, G1, G1, bound)[1], G1, 'equal shear moduli')
        eq(EM.HS(f, K1, K1, G1, G2, bound)[0], K1, 'equal bulk moduli')
        eq(EM.HS(np.array([0.0, 1.0]), K1, K2, G1, G2, bound), ([K2, K1], [G2, G1]), 'array')


def ob_cracks(K: '0.5..300', G: '0.3..250', Ki: '0..60', Gi: '0..50', a: '0.0001..0.999', th: '0..90', av: '0.0001..0.999[3]', Kf: '0..60', ph: '0.0001..0.5'):
    "no cracks: the isotropic background"
    I = E.iso6(K, G)
    for order in (1, 2):
        for axis in (1, 3):
            eq(EM.hudson(K, G, Ki, Gi, a, 0, order=order, axis=axis), I, 'Hudson')
    eq(EM.hudson_rand(K, G, Ki, Gi, a, 0), (K, G), 'random cracks')
    eq(EM.hudson_ortho(K, G, Ki, Gi, av, np.array([0.0, 0.0, 0.0])), I, 'orthogonal cracks')
    eq(EM.hudson_ortho(K, G, Ki, Gi, [a, a, a], [0, 0, 0]), I, 'orthogonal cracks, lists')
    eq(EM.hudson_cone(K, G, Ki, Gi, a, 0, th), I, 'cone')
    eq(EM.Eshelby_Cheng(K, G, 0, a, Kf, mat=True), I, 'Eshelby-Cheng')
    eq(EM.Eshelby_Cheng(K, G, 0, a, Kf), [I[0, 0], I[2, 2], I[0, 2], I[3, 3], I[5, 5]], 'Eshelby-Cheng vector')
    eq(EM.Dilute_crack(K, G, 0), (K, G), 'dilute cracks')
    eq(EM.OConnell_Budiansky(K, G, 0), (K, G), 'self-consistent cracks')
    eq(EM.Dilute_crack(K, G, np.array([0.0, 0.0])), ([K, K], [G, G]), 'dilute cracks, array')
    eq(utils.crack_por(0, a), 0, 'crack porosity')


def ob_oc(nu: '0.05..0.4', d: '0.1..1', e: '0.01..0.3', m: '0.05..0.4'):
    "equations of O'Connell and Budiansky: no cracks, and dry cracks"
    eq(EM.OC_R_funcs([nu, d], 0, nu, 0.5)[0], 0, 'no cracks leave the Poisson ratio')
    eq(EM.OC_R_funcs([m, 1], e, nu, 0)[1], 0, 'dry cracks are fully compliant')


def ob_inclusions(K: '5..80', G: '5..60', a: '0.01..0.95', b: '1.1..10', Ki: '0.1..4', Gi: '0.1..4', t: '0.01..0.8', av: '0.01..0.95[2]', X: '0.1..0.9', phi: '0.01..0.4'):
    "inclusions of the host material, or none"
    for al in (a, b, 1, 1.0):
        eq(EM.PQ(K, G, K, G, al), (1, 1), 'shape factors of the host material')
        eq(EM.DEM([K, G], t, [G, K, al]), [0, 0], 'no change for inclusions of the host material')
    eq(EM.PQ_vectorize(K, G, np.array([K, K]), np.array([G, G]), av), ([1, 1], [1, 1]), 'vectorised shape factors')
    eq(EM.PQ_vectorize(K, G, np.array([K, K]), np.array([G, G]), np.array([1.0, a])), ([1, 1], [1, 1]), 'vectorised shape factors, spheres')
    eq(EM.Berryman_func([K, G], np.array([K, Ki]), np.array([G, Gi]), np.array([1.0, 0.0]), av), [0, 0], 'one phase solves its own self-consistent equations')
    eq(EM.Berryman_func([K, G], np.array([K, K]), np.array([G, G]), np.array([X, 1 - X]), av), [0, 0], 'equal phases')
    eq(EM.Swiss_cheese(K, G, 0), (K, G), 'no pores')
    for n in (1, 2, 3, 7):
        eq(EM.SC(0, K, G, n), (K, G), 'no pores, self-consistent')
        eq(EM.SC_flex(0, n, K, Ki, G, Gi), (K, G), 'no inclusions, self-consistent')
    eq(EM.SC(phi, K, G, 0), (K, G), 'no iterations')
    eq(EM.SC_flex(phi, 0, K, Ki, G, Gi), (K, G), 'no iterations')
    for mode in ('stress', 'strain'):
        eq(EM.SC_dilute(K, G, Ki, Gi, 0, mode), (1, 1), 'no inclusions, dilute')
        eq(EM.SC_dilute(K, G, K, G, phi, mode), (1, 1), 'inclusions of the host material, dilute')
    for n in (1, 2, 3):
        eq(EM.SC_flex(phi, n, K, K, G, G), (K, G), 'inclusions of the host material, self-consistent')


def ob_dem(Km: '10..80', Gm: '8..60', Ki: '0..4', Gi: '0..4', a: '0.05..0.95'):
    "the inclusion path starts at the host material"
    for phi in (0.3, 0.2, 0.05):
        for al in (a, 1):
            k, g, t = EM.Berryman_DEM(Km, Gm, Ki, Gi, al, phi)
            eq((k[0], g[0], t[0]), (Km, Gm, 0), 'no inclusions yet')
            eq(len(k), len(t), 'one value per step')


def ob_mt(Km: '5..60', Gm: '5..60', K1: '5..80', G1: '5..80', K2: '0.1..80', G2: '0.1..80', f: '0..1'):
    "Mori-Tanaka"
    eq(EM.MT_average(1, Km, Gm, K1, G1, K2, G2), (K1, G1), 'all of phase 1')
    eq(EM.MT_average(0, Km, Gm, K1, G1, K2, G2), (K2, G2), 'all of phase 2')
    eq(EM.MT_average(f, Km, Gm, K1, G1, K1, G1), (K1, G1), 'equal phases')


def ob_clay(ps: '0.2..0.4', ph: '0.05..0.19', Kq: '20..60', Gq: '20..60', Ks: '5..19', Gs: '2..19', C: '0..1'):
    "sand-shale mixtures"
    eq(GM.ThomasStieber(ps, ph, 0), (ps, ps), 'clean sand')
    eq(GM.ThomasStieber(ps, ph, 1), (ph, ph), 'shale')
    eq(GM.ThomasStieber(ps, ph, np.array([0.0, 1.0])), ([ps, ph], [ps, ph]), 'array')
    eq(GM.silty_shale(0, Kq, Gq, Ks, Gs), (Kq, Gq), 'silt')
    eq(GM.silty_shale(1, Kq, Gq, Ks, Gs), (Ks, Gs), 'shale')
    eq(GM.silty_shale(C, Ks, Gs, Ks, Gs), (Ks, Gs), 'equal phases')
    eq(GM.shaly_sand(ps, 0, Kq, Gq, Ks, Gs), (Kq, Gq), 'clean sand')
    eq(GM.shaly_sand(ps, ps, Kq, Gq, Ks, Gs), (Ks, Gs), 'pores full of clay')


def ob_sand(K: '20..60', G: '15..60', pc: '0.3..0.5', Cn: '3..14', sg: '0.1..100', f: '0..1', Kc: '10..60', Gc: '8..50', pb: '0.2..0.29', sv: '1..60[2]', aR: '0.02..0.3', phi: '0.3..0.45'):
    "sands from mineral to loose or cemented packs"
    hm = GM.hertzmindlin(K, G, pc, Cn, sg, f)
    eq(GM.softsand(K, G, 0, pc, Cn, sg, f), (K, G), 'soft sand: mineral')
    eq(GM.softsand(K, G, pc, pc, Cn, sg, f), hm, 'soft sand: loose pack')
    eq(GM.stiffsand(K, G, 0, pc, Cn, sg, f), (K, G), 'stiff sand: mineral')
    eq(GM.stiffsand(K, G, pc, pc, Cn, sg, f), hm, 'stiff sand: loose pack')
    eq(GM.softsand(K, G, np.array([0.0, pc]), pc, Cn, sg, f), ([K, hm[0]], [G, hm[1]]), 'soft sand, array')
    eq(GM.hertzmindlin(K, G, pc, Cn, 0, f), (0, 0), 'no stress, no contact')
    eq(GM.Walton(K, G, pc, Cn, 0, f), (0, 0), 'no stress, no contact')
    for scheme in (1, 2):
        cc = GM.contactcement(K, G, Kc, Gc, pb, pc, Cn, scheme)
        eq(GM.constantcement(pb, K, G, Kc, Gc, 0, pc, Cn, scheme), (K, G), 'constant cement: mineral')
        eq(GM.constantcement(pb, K, G, Kc, Gc, pb, pc, Cn, scheme), cc, 'constant cement: cemented pack')
        eq(GM.MUHS(K, G, Kc, Gc, 0, pb, pc, Cn, scheme), (K, G), 'increasing cement: mineral')
        eq(GM.MUHS(K, G, Kc, Gc, pb, pb, pc, Cn, scheme), cc, 'increasing cement: cemented pack')
    k, g = GM.Digby(K, G, phi, Cn, sv, 0)
    eq(g, 3*k/5, 'Digby: unbonded grains slip')
    eq(GM.diluting(Cn, sg, np.array([sg, 0.0]), 2), [0, Cn], 'patches diluted at the reference stress, intact without stress')
    eq(GM.diluting(Cn, sg, np.array([sg, 0.0]), 1), [0, Cn], 'linear dilution')


def ob_patchy(K: '30..60', G: '30..60', pc: '0.35..0.5', Cn: '4..14', sg: '0.1..60', f: '0.05..0.95', Kc: '20..60', Gc: '15..50', lo: '0.01..0.05', hi: '0.06..0.1', q: '0.01..0.99', al: '0.01..0.99', ph: '0.02..0.3'):
    "patchy cement"
    hm = GM.hertzmindlin(K, G, pc, Cn, sg, q)
    for scheme in (1, 2):
        for vc, vi, cem in ((lo, hi, GM.contactcement(K, G, Kc, Gc, pc - lo, pc, Cn, scheme)),
                            (hi, lo, GM.MUHS(K, G, Kc, Gc, pc - hi, pc - lo, pc, Cn, scheme))):
            for mode in ('stiff', 'soft'):
                p = lambda x, phi: GM.pcm(x, sg, K, G, phi, pc, vc, vi, Kc, Gc, Cn, mode, scheme, q)
                eq(p(f, 0), (K, G), 'mineral')
                eq(p(1, pc), cem, 'all cemented')
                eq(p(0, pc), hm, 'all loose')
            v = lambda a, x, phi: GM.vpcm(a, x, sg, K, G, phi, pc, vc, vi, Kc, Gc, Cn, scheme, q)
            eq(v(al, f, 0), (K, G), 'mineral, any connectivity')
            eq(v(al, 1, pc), cem, 'all cemented, any connectivity')
            eq(v(al, 0, pc), hm, 'all loose, any connectivity')
            m = lambda mode: GM.pcm(f, sg, K, G, ph, pc, vc, vi, Kc, Gc, Cn, mode, scheme, q)
            st, so = m('stiff'), m('soft')
            eq(v(0, f, ph), st, 'intact patches: stiff mixing')
            eq(v(1, f, ph), so, 'disconnected patches: soft mixing')
            eq(v(0.0, f, ph), st, 'intact patches (float): stiff mixing')
            eq(v(np.array([0.0, 1.0]), f, ph), ([st[0], so[0]], [st[1], so[1]]), 'from intact to disconnected patches')


def ob_fluid(Kw: '1.5..4', Kg: '0.01..0.5', e: '0.5..40', S: '0..1', Kd: '1..30', G: '1..40', K0: '31..80', Kf: '0.01..4', phi: '0.01..0.5', p: '0.02..0.4', Ks: '5..30', vp: '2.9..4', vs: '1..2', r: '2..2.6', rf: '0.1..1.2', M: '10..50', M0: '60..120', V0: '2..4', fr: '1..1000', ka: '0.1..3', et: '0.1..3'):
    "fluids and saturated rocks"
    eq(Fluid.Brie(Kw, Kg, 0, e), Kg, 'gas')
    eq(Fluid.Brie(Kw, Kg, 1, e), Kw, 'water')
    eq(Fluid.Brie(Kw, Kg, np.array([0.0, 1.0]), e), [Kg, Kw], 'gas and water')
    eq(Fluid.Brie(Kw, Kg, S, 1), S*Kw + (1 - S)*Kg, 'exponent one is the linear mixture')
    eq(Fluid.Brie(Kw, Kw, S, e), Kw, 'equal fluids')
    eq(Fluid.Gassmann(Kd, G, K0, K0, phi), (K0, G), 'pores filled with mineral')
    eq(Fluid.Gassmann(K0, G, K0, Kf, phi), (K0, G), 'frame as stiff as the mineral')
    eq(Fluid.Gassmann(Kd, G, K0, Kf, 0), (K0, G), 'no pores')
    eq(Fluid.Gassmann(Kd, G, K0, Kf, 0.0), (K0, G), 'no pores, float')
    eq(Fluid.vels(Kd, G, K0, r, Kf, rf, 0.0), (1000*np.sqrt((K0 + 4*G/3)/r), 1000*np.sqrt(G/r), r), 'velocities, no pores')
    eq(Fluid.vels(Kd, G, K0, r, K0, r, phi), (1000*np.sqrt((K0 + 4*G/3)/r), 1000*np.sqrt(G/r), r), 'velocities, mineral in the pores')
    eq(Fluid.Gassmann_sub(p, K0, Ks, Kf, Kf), Ks, 'same fluid')
    eq(Fluid.Gassmann_approx(M, M0, Kf, p, Kf), M, 'same fluid, P modulus')
    eq(Fluid.Gassmann_vels(vp, vs, r, rf, Kf, rf, Kf, K0 + 20, p), (vp, vs), 'same fluid, velocities')
    eq(Fluid.Geertsma_Smit_LF(V0, V0, fr, phi, rf, ka, et), V0, 'no dispersion between equal limits')


def ob_bk(a: '0.02..0.05', b: '0.02..0.05', c: '-0.01..-0.001', d: '0.05..0.1', e: '0.05..0.1', K0: '60..80', G0: '20..50', K1: '0.5..4', phi: '0.05..0.3', x: '0..5'):
    "Brown-Korringa"
    S0 = np.linalg.inv(E.iso6(K0, G0))
    eq(Fluid.Brown_Korringa_dry2sat(S0, K0, G0, K1, phi), S0, 'solid frame')
    eq(Fluid.Brown_Korringa_sat2dry(S0, K0, G0, K1, phi), S0, 'solid frame')
    S = svti6(a, b, c, d, e)
    T = Fluid.Brown_Korringa_dry2sat(S, K0, G0, K0, phi)
    eq(T[0, 0] + T[0, 1] + T[0, 2], 1/(3*K0), 'pores filled with mineral: strain along 1 under pressure')
    eq(T[2, 0] + T[2, 1] + T[2, 2], 1/(3*K0), 'pores filled with mineral: strain along 3 under pressure')
    C = vti6(30 + x, 28, 9, 9, 10)
    C2, S2 = Fluid.Brown_Korringa_sub(C, K0, G0, K1, K1, phi)
    eq(C2, C, 'same fluid')
    eq(S2, np.linalg.inv(C), 'same fluid, compliance')


def ob_squirt(p: '4500..5500', s: '2800..3200', K0: '90..120', r: '2..2.5', rf: '0.5..1.2', Kf: '0.1..4', phi: '0.02..0.3'):
    "no squirt when no soft pores close under pressure"
    k, g, vp, vs = Fluid.Mavko_Jizba(p, s, np.array([p, p]), np.array([s, s]), K0, r, rf, Kf, phi)
    K = r*(p*p - 4*s*s/3)/1000000
    G = r*s*s/1000000
    eq(g, [G, G], 'shear modulus unchanged')
    eq(k, Fluid.Gassmann(K, G, K0, Kf, phi)[0], 'Gassmann bulk modulus')


def ob_white(Kd: '5..10', G: '5..10', K0: '35..40', phi: '0.2..0.3', r0: '2.5..2.7', rf: '0.9..1.1', Kf: '2..3', et: '0.1..0.3', eu: '0.8..1.2', ka: '0.8..1.2', a: '0.8..1.2', sg: '0.1..0.6', fr: '0.05..0.3'):
    "patches of equal fluids do not disperse"
    vp, aw, K = Fluid.White_Dutta_Ode(Kd, G, K0, phi, r0, rf, rf, Kf, Kf, et, eu, ka, a, sg, fr)
    k = Fluid.Gassmann(Kd, G, K0, Kf, phi)[0]
    eq(K, k, 'bulk modulus is Gassmann')
    eq(aw, 0, 'no attenuation')
    eq(vp, np.sqrt((k + 4*G/3)/(r0*(1 - phi) + rf*phi)), 'velocity')


def ob_bw(T: '35..120', P: '8..50', S: '0.01..0.3', b: '1..40'):
    "carbon dioxide and brine"
    br = BW.rho_K_brine(T, P, S)
    for bw in (False, True):
        gas = BW.rho_K_gas(P, T, 1.5349) if bw else BW.rho_K_co2(P, T, 1.5349)
        for brie in (None, 3, b):
            eq(BW.co2_brine(T, P, S, 0, brie_component=brie, bw=bw), br, 'brine')
            eq(BW.co2_brine(T, P, S, 1, brie_component=brie, bw=bw), gas, 'carbon dioxide')
    eq(BW.rho_K_brine(T, P, 0), BW.rho_K_water(T, P), 'fresh water')
    eq(BW.v_brine(T, P, 0), BW.v_water(T, P), 'fresh water velocity')


def ob_isotropic(K: '10..60', G: '5..40', d: '2..3', th: '-90..180', v: '0.1..1[3]', h: '1..50[3]', tv: '0..90[3]'):
    "isotropic media have no anisotropy"
    C = E.iso6(K, G)
    M = K + 4*G/3
    l = K - 2*G/3
    vp, vs = 1000*np.sqrt(M/d), 1000*np.sqrt(G/d)
    eq(Anisotropy.Thomsen(M, M, l, G, G, d, th), (vp, vs, vs, 0, 0, 0), 'Thomsen')
    eq(Anisotropy.Thomsen_Tsvankin(M, M, M, l, l, l, G, G, G), (0, 0, 0, 0, 0, 0, 0), 'Tsvankin')
    w = np.sqrt(M/d), np.sqrt(G/d), np.sqrt(G/d)
    a, b, c = Anisotropy.vel_azi_HTI(C, d, th)
    eq((a**2, b**2, c**2), (M/d, G/d, G/d), 'HTI velocities')
    a, b, c = Anisotropy.vel_azi_VTI(C, d, th)
    eq((a**2, b**2, c**2), (M/d, G/d, G/d), 'VTI velocities')
    eq(Anisotropy.Backus(v, np.array([l, l, l]), np.array([G, G, G])), (M, M, l, G, G), 'Backus average of equal layers')
    eq(Anisotropy.Backus(np.array([1.0]), np.array([l]), np.array([G])), (M, M, l, G, G), 'Backus average of one layer')
    Z = np.array([0.0, h[0], h[0] + h[1], h[0] + h[1] + h[2]])
    x, y = np.sqrt(M/d), np.sqrt(G/d)
    eq(Anisotropy.Backus_log(np.array([x, x, x]), np.array([y, y, y]), np.array([d, d, d]), Z), (M, M, l, G, G, d), 'Backus average of a uniform log')
    eq(utils.poi(K, 0), 0.5, 'liquids are incompressible in Poisson ratio')
    eq(utils.lame(K, 0), K, 'liquids: first Lame parameter')
    eq(utils.V(K, 0, d)[1], 0, 'liquids carry no shear')


def ob_trends(K: '20..80', G: '10..60', Vp: '1800..6000', v: '0.01..0.99', d: '1..500', pc: '0.001..0.05', B: '0.001..0.1', b: '2..3', c: '0.1..1', phi: '0.02..0.4', w: '0.1..10', r: '0.5..50'):
    "empirical trends at their ends"
    eq(Empirical.krief(0, K, G), (K - 2*G/3, G, K), 'Krief: mineral')
    eq(Empirical.Sclater(0.49), 0, 'Sclater: surface porosity at the surface')
    eq(Permeability.Kozeny_Carman(0, d), 0, 'no porosity, no flow')
    eq(Permeability.Kozeny_Carman_Percolation(pc, pc, d, B), 0, 'no flow at the percolation threshold')
    eq(Permeability.Kozeny_Carman_Percolation(phi, 0, d, 1/180), Permeability.Kozeny_Carman(phi, d), 'no threshold: Kozeny-Carman')
    eq(Permeability.Panda_Lake(d, c, B, 2, 0), 0, 'Panda-Lake: no porosity')
    eq(Permeability.Panda_Lake(d, 0, B, 2.5, phi), Permeability.Kozeny_Carman(phi, d), 'Panda-Lake: uniform grains')
    eq(Permeability.Panda_Lake_cem(0, d), 0, 'cemented: no porosity')
    eq(Permeability.Revil(0, d), 0, 'Revil: no porosity')
    eq(Permeability.Bernabe(0, c, w, r), 0, 'Bernabe: no porosity')
    eq(Permeability.Bernabe(phi, 0, w, r), r**2*phi/20, 'Bernabe: tubes only')
    eq(Permeability.Bernabe(phi, 1, w, r), w**2*phi/30, 'Bernabe: cracks only')


def ob_qi(vsh: '0.02..0.3', pc: '0.38..0.42', pv: '0.02..0.3[3]', M: '5..80', a: '5..25', b: '30..40', c: '30..80', d: '0.1..5[4]'):
    "matrix mixing in the workflows"
    eq(QI.matrix_modulus(0, pc, np.array([pc]), a, b, c), [b], 'clean sand before cementation')
    eq(QI.matrix_modulus(vsh, pc, pv, M, M, M), [M, M, M], 'equal minerals')
    eq(QI.den_matrix(vsh, pc, pv, M, M, M), [M, M, M], 'equal densities')
    eq(QI.den_matrix(0, pc, np.array([pc]), a, b, c), [b], 'clean sand before cementation, density')
    # without shale the shale properties do not matter
    eq(QI.matrix_modulus(0, pc, pv, a, b, c), QI.matrix_modulus(0, pc, pv, 2*a, b, c), 'no shale')


def ob_qi_lines(Dq: '2.6..2.7', K: '30..40', G: '30..45', Dc: '2.6..2.8', Db: '0.9..1.1', Kb: '2..3', sg: '5..40', f: '0..1', Cn: '6..9', Kc: '35..40', Gc: '40..45', x: '15..25', y: '6..10', z: '2.3..2.6', pb: '0.25..0.35'):
    "all lines of the diagnostic meet their end members"
    for scheme in (1, 2):
        phi, p1, p2, p3, s1, s2, s3 = QI.screening(Dq, K, G, z, x, y, Dc, Kc, Gc, Db, Kb, 0.3, 0.4, sg, 0, scheme, f, Cn)
        hm = GM.hertzmindlin(K, G, 0.4, Cn, sg, f)
        r = 0.6*Dq + 0.4*Db
        eq(s1[99], 1000*np.sqrt(hm[1]/r), 'loose pack')
        eq(QI.cst_vels(pb, K, Dq, G, np.array([0.0]), 0.4, Cn, Kc, Gc, Db, Kb, scheme, 0, z, Dq, Dq)[1], [1000*np.sqrt(G/Dq)], 'mineral')
        eq(QI.cal_v_const(Dq, K, G, z, x, y, Dc, Kc, Gc, Db, Kb, pb, 0.4, 0, np.array([0.0]), scheme)[1], [1000*np.sqrt(G/Dq)], 'mineral')
