"""Results respond to their inputs in the right direction."""
import numpy as np
from spec import eq, le
from rockphypy import AVO, Anisotropy, BW, EM, Empirical, Fluid, GM, Permeability, QI, utils


def ob_average(f: '0..1', g: '0..1', a: '0.1..80', b: '0.1..80', d: '0..40', e: '0..40'):
    "averages grow with every constituent and with the fraction of the stiffer one"
    v = np.array([f, 1 - f])
    le(EM.VRH(v, np.array([a, b])), EM.VRH(v, np.array([a + d, b + e])), 'stiffer constituents')
    w = np.array([f + g*(1 - f), (1 - f)*(1 - g)])
    le(EM.VRH(v, np.array([a + d, a])), EM.VRH(w, np.array([a + d, a])), 'more of the stiffer one')
    le(EM.cripor_reuss(5 + a, 4*f, 0.4), EM.cripor_reuss(5 + a + d, 4*f + e/40, 0.4), 'suspension')
    le(EM.cripor_reuss(5 + a, f, 0.3 + g*0.3), EM.cripor_reuss(5 + a, f, 0.3), 'more fluid in suspension')


def ob_hs(f: '0..1', g: '0..1', K2: '0.1..40', G2: '0.05..30', x: '0..60', y: '0..60', d: '0..20', e: '0..20', fv: '0..1[3]'):
    "Hashin-Shtrikman bounds"
    K1, G1 = K2 + x, G2 + y
    for bd in ('upper', 'lower'):
        le(EM.HS(f, K1, K2, G1, G2, bd), EM.HS(f + g*(1 - f), K1, K2, G1, G2, bd), 'more of the stiff phase')
        le(EM.HS(fv, K1, K2, G1, G2, bd), EM.HS(fv + g*(1 - fv), K1, K2, G1, G2, bd), 'more of the stiff phase, arrays')
        le(EM.HS(f, K1, K2, G1, G2, bd), EM.HS(f, K1 + d, K2, G1 + e, G2, bd), 'stiffer stiff phase')
        le(EM.HS(f, K1 + d, K2, G1 + e, G2, bd), EM.HS(f, K1 + d, K2 + d, G1 + e, G2 + e, bd), 'stiffer soft phase')


def ob_porosity(p: '0..0.3', q: '0..1', K: '20..60', G: '15..60', pc: '0.31..0.5', Cn: '3..14', s: '0.5..60', f: '0..1', pv: '0..0.3[3]'):
    "porosity softens"
    for x in (p, pv):
        y = x + q*(0.3 - x)
        le(EM.cripor(K, G, y, pc), EM.cripor(K, G, x, pc), 'critical porosity')
        le(GM.softsand(K, G, y, pc, Cn, s, f), GM.softsand(K, G, x, pc, Cn, s, f), 'soft sand')
        le(GM.stiffsand(K, G, y, pc, Cn, s, f), GM.stiffsand(K, G, x, pc, Cn, s, f), 'stiff sand')
        le(EM.Swiss_cheese(K, G, y), EM.Swiss_cheese(K, G, x), 'pores')
        a, b = Empirical.krief(y, K, G), Empirical.krief(x, K, G)
        le(a[1:], b[1:], 'Krief')
        le(EM.SC(y/3, K, G, 3), EM.SC(x/3, K, G, 3), 'self consistent')
        le(Empirical.han(y, 0.1), Empirical.han(x, 0.1), 'Han')
        le(Empirical.Cp(y + 0.001), Empirical.Cp(x + 0.001), 'coordination number')
        le(Empirical.Sclater(y + 0.01), Empirical.Sclater(x + 0.01), 'Sclater')
    le(GM.hertzmindlin(K, G, pc, Cn, s, f), GM.hertzmindlin(K, G, pc - q*0.3, Cn, s, f), 'denser pack')
    le(GM.Walton(K, G, pc, Cn, s, f), GM.Walton(K, G, pc - q*0.3, Cn, s, f), 'denser pack, Walton')


def ob_pressure(K: '20..60', G: '15..60', p: '0..0.3', pc: '0.31..0.5', Cn: '3..14', s: '0.5..60', d: '0..30', n: '0..3', f: '0..1', h: '0..1', a: '0.01..0.3', x: '0..20', y: '0..20', sv: '0.5..60[3]'):
    "pressure and contacts stiffen"
    for t in (s, sv):
        le(GM.hertzmindlin(K, G, pc, Cn, t, f), GM.hertzmindlin(K, G, pc, Cn, t + d, f), 'pressure')
        le(GM.Walton(K, G, pc, Cn, t, f), GM.Walton(K, G, pc, Cn, t + d, f), 'pressure, Walton')
        le(GM.softsand(K, G, p, pc, Cn, t, f), GM.softsand(K, G, p, pc, Cn, t + d, f), 'pressure, soft sand')
        le(GM.stiffsand(K, G, p, pc, Cn, t, f), GM.stiffsand(K, G, p, pc, Cn, t + d, f), 'pressure, stiff sand')
    le(GM.hertzmindlin(K, G, pc, Cn, s, f), GM.hertzmindlin(K, G, pc, Cn + n, s, f), 'contacts')
    le(GM.Walton(K, G, pc, Cn, s, f), GM.Walton(K, G, pc, Cn + n, s, f), 'contacts, Walton')
    le(GM.softsand(K, G, p, pc, Cn, s, f), GM.softsand(K, G, p, pc, Cn + n, s, f), 'contacts, soft sand')
    le(GM.stiffsand(K, G, p, pc, Cn, s, f), GM.stiffsand(K, G, p, pc, Cn + n, s, f), 'contacts, stiff sand')
    le(GM.hertzmindlin(K, G, pc, Cn, s, f)[1], GM.hertzmindlin(K, G, pc, Cn, s, f + h*(1 - f))[1], 'friction')
    le(GM.Walton(K, G, pc, Cn, s, f)[1], GM.Walton(K, G, pc, Cn, s, f + h*(1 - f))[1], 'friction, Walton')
    le(GM.softsand(K, G, p, pc, Cn, s, f), GM.softsand(K, G, p, pc, Cn, s, f + h*(1 - f)), 'friction, soft sand')
    le(Empirical.empirical_StPeter(s/60, 1), Empirical.empirical_StPeter(s/60 + d/60, 1), 'St Peter, sample 1')
    le(Empirical.empirical_StPeter(s/60, 2), Empirical.empirical_StPeter(s/60 + d/60, 2), 'St Peter, sample 2')


def ob_digby(K: '20..60', G: '20..60', p: '0.3..0.45', Cn: '4..12', s: '1..60', d: '0..30', a: '0.02..0.3', e: '0..0.2', n: '0..3'):
    "bonded contacts"
    b = GM.Digby(K, G, p, Cn, s, a)
    le(b, GM.Digby(K, G, p, Cn, s + d, a), 'pressure')
    le(b, GM.Digby(K, G, p, Cn, s, a + e), 'bond radius')


def ob_cement(K: '36..60', G: '36..60', p: '0..0.3', q: '0..1', pb: '0.31..0.35', pc: '0.36..0.42', Cn: '6..10', n: '0..3', Kc: '25..60', Gc: '20..50', s: '0.5..10', f: '0.05..0.9', d: '0..0.09', h: '0..0.02', al: '0..0.9', r: '0..0.1', pv: '0..0.3[3]'):
    "cement stiffens"
    for sc in (1, 2):
        le(GM.contactcement(K, G, Kc, Gc, pb, pc, Cn, sc), GM.contactcement(K, G, Kc, Gc, pb - h, pc, Cn, sc), 'more cement')
        le(GM.contactcement(K, G, Kc, Gc, pb, pc, Cn, sc)[1], GM.contactcement(K, G, Kc, Gc, pb - h, pc, Cn, sc)[1], 'more cement, shear')
        for x in (p, pv):
            y = x + q*(0.3 - x)
            le(GM.constantcement(pb, K, G, 36, 34, y, pc, 8, sc), GM.constantcement(pb, K, G, 36, 34, x, pc, 8, sc), 'porosity, constant cement')
            le(GM.MUHS(K, G, 36, 34, y, pb, pc, 8, sc), GM.MUHS(K, G, 36, 34, x, pb, pc, 8, sc), 'porosity, increasing cement')
        for vc, vi in ((0.03, 0.06), (0.08, 0.06)):
            a = (K, G, p, pc, vc, vi, 36, 34, 8)
            for m in ('soft', 'stiff'):
                le(GM.pcm(f, s, *a, m, sc, 0.5), GM.pcm(f + d, s, *a, m, sc, 0.5), 'more cemented grains')
                le(GM.pcm(f, s, *a, m, sc, 0.5), GM.pcm(f, s + d*50, *a, m, sc, 0.5), 'pressure')
            le(GM.vpcm(al + r, f, s, *a, sc, 0.5), GM.vpcm(al, f, s, *a, sc, 0.5), 'less connected cement')
            le(GM.vpcm(al, f, s, *a, sc, 0.5), GM.vpcm(al, f + d, s, *a, sc, 0.5), 'more cemented grains, varying')


def ob_diluting(k: '0.2..2', s0: '31..60', s: '1..30[3]', d: '0..0.9', m: '0.5..3'):
    "stress release dilutes cement"
    le(GM.diluting(k, s0, s + d, m), GM.diluting(k, s0, s, m), 'larger stress, fewer broken bonds')


def ob_diluting_through(k: '0.2..2', s0: '31..60', s: '1..30[2]', e: '61..200[2]', d: '0.1..50', m: '0.2..0.8', j: '1.2..1.8'):
    "no patch comes back above the reference stress"
    for n in (m, j):
        le(GM.diluting(k, s0, e, n), GM.diluting(k, s0, s, n), 'beyond the reference stress, not more than below')
        le(GM.diluting(k, s0, e + d, n), GM.diluting(k, s0, e, n), 'beyond the reference stress')
        le(GM.diluting(k, s0, e, n), GM.diluting(k, s0, np.array([s0, s0]), n), 'beyond the reference stress, not more than at it')


def ob_cracks(K: '20..60', G: '15..50', a: '0.001..0.5', cd: '0..0.07', e: '0..0.03', Ki: '0..4', Gi: '0..3', x: '0..2', y: '0..2', cv: '0..0.07[3]'):
    "cracks soften"
    for c in (cd, cv):
        le(EM.Dilute_crack(K, G, c + e), EM.Dilute_crack(K, G, c), 'dilute')
        le(EM.OConnell_Budiansky(K, G, c + e), EM.OConnell_Budiansky(K, G, c), "O'Connell-Budiansky")
    for ax in (3, 1):
        A = EM.hudson(K, G, Ki, Gi, a, cd + e, axis=ax)
        B = EM.hudson(K, G, Ki, Gi, a, cd, axis=ax)
        C = EM.hudson(K, G, Ki + x, Gi + y, a, cd, axis=ax)
        for i in range(6):
            le(A[i, i], B[i, i], 'more cracks')
            le(B[i, i], C[i, i], 'stiffer fill')
        D = EM.hudson(K, G, Ki, Gi, a + e, cd, axis=ax)
        for i in range(6):
            le(D[i, i], B[i, i], 'filled cracks at a given density soften more when rounder')
    le(utils.crack_por(cd, a), utils.crack_por(cd + e, a), 'crack porosity grows with density')
    le(utils.crack_por(cd, a), utils.crack_por(cd, a + e), 'crack porosity grows with aspect')


def ob_inclusions(Km: '20..60', Gm: '20..50', Ki: '0.1..10', Gi: '0.1..10', f: '0..0.3', g: '0..0.1', x: '0..9', y: '0..9', t: '0..1', h: '0..1', al: '0.02..0.9'):
    "soft inclusions soften"
    for m in ('stress', 'strain'):
        le(EM.SC_dilute(Km, Gm, Ki, Gi, f + g, m), EM.SC_dilute(Km, Gm, Ki, Gi, f, m), 'more inclusions')
        le(EM.SC_dilute(Km, Gm, Ki, Gi, f, m), EM.SC_dilute(Km, Gm, Ki + x, Gi + y, f, m), 'stiffer inclusions')
    le(EM.SC_flex(f/3, 3, Km, Ki, Gm, Gi), EM.SC_flex(f/3, 3, Km, Ki + x, Gm, Gi + y), 'stiffer inclusions, self consistent')
    le(EM.MT_average(t, Km, Gm, Km, Gm, Ki, Gi), EM.MT_average(t + h*(1 - t), Km, Gm, Km, Gm, Ki, Gi), 'more of the stiff phase')
    le(EM.MT_average(t, Km, Gm, Km, Gm, Ki, Gi), EM.MT_average(t, Km, Gm, Km, Gm, Ki + x, Gi + y), 'stiffer inclusions, Mori-Tanaka')
    P, Q = EM.PQ(Km, Gm, Ki, Gi, al)
    S, T = EM.PQ(Km, Gm, Ki + x, Gi, al)
    le(S, P, 'stiffer inclusions deform less, bulk')
    a = np.array([al])
    le(EM.PQ_vectorize(Km, Gm, np.array([Ki + x]), np.array([Gi]), a)[0], EM.PQ_vectorize(Km, Gm, np.array([Ki]), np.array([Gi]), a)[0], 'stiffer inclusions deform less, vectorised')


def ob_shale(ps: '0.2..0.4', ph: '0.05..0.19', v: '0..1', w: '0..1', C: '0..1', g: '0..1', Kq: '20..60', Gq: '20..60', Ks: '5..19', Gs: '2..19', vv: '0..1[3]'):
    "shale softens, and fills pores until they are full"
    for x in (C, vv):
        y = x + g*(1 - x)
        le(GM.silty_shale(y, Kq, Gq, Ks, Gs), GM.silty_shale(x, Kq, Gq, Ks, Gs), 'more clay in shale')
        le(GM.shaly_sand(ps, y*ps, Kq, Gq, Ks, Gs), GM.shaly_sand(ps, x*ps, Kq, Gq, Ks, Gs), 'more clay in sand')
        le(GM.ThomasStieber(ps, ph, y)[1], GM.ThomasStieber(ps, ph, x)[1], 'laminated')
        t = ps*x
        le(GM.ThomasStieber(ps, ph, ps*y)[0], GM.ThomasStieber(ps, ph, t)[0], 'dispersed shale fills the pores')
        z = ps + (1 - ps)*x
        le(GM.ThomasStieber(ps, ph, z)[0], GM.ThomasStieber(ps, ph, ps + (1 - ps)*y)[0], 'past the full sand shale brings its own porosity')
    le(Empirical.han(0.2, C*0.5 + g*0.1), Empirical.han(0.2, C*0.5), 'Han')
    le(Empirical.esti_VS(2500 + 2000*C, w*v), Empirical.esti_VS(2500 + 2000*C, 0), 'shale lowers S velocity')


def ob_fluid(Kw: '1.5..4', Kg: '0.01..1.5', S: '0..1', g: '0..1', e: '0.5..40', K0: '31..80', x: '0..0.9', G: '1..40', phi: '0.02..0.5', a: '0.01..4', d: '0..4', h: '0..1', r: '0..2', Sv: '0..1[3]', xv: '0..0.9[3]'):
    "saturated rock"
    for s in (S, Sv):
        t = s + g*(1 - s)
        le(Fluid.Brie(Kw, Kg, s, e), Fluid.Brie(Kw, Kg, t, e), 'more water')
        le(Fluid.Brie(Kw, Kg, s, e), Fluid.Brie(Kw + d, Kg + h, s, e), 'stiffer fluids')
        le(Fluid.Brie(Kw, Kg, s, e + r), Fluid.Brie(Kw, Kg, s, e), 'larger exponent')
    for y in (x, xv):
        Kd = y*(1 - phi)*K0
        Ke = (y + h*(0.9 - y))*(1 - phi)*K0
        le(Fluid.Gassmann(Kd, G, K0, a, phi)[0], Fluid.Gassmann(Kd, G, K0, a + d, phi)[0], 'stiffer fluid')
        le(Fluid.Gassmann(Kd, G, K0, a, phi)[0], Fluid.Gassmann(Ke, G, K0, a, phi)[0], 'stiffer frame')
        p, s, q = Fluid.vels(Kd, G, K0, 2.65, a, 1, phi)
        p2, s2, q2 = Fluid.vels(Ke, G + r, K0, 2.65, a, 1, phi)
        le((p, s), (p2, s2), 'velocities of a stiffer frame')
        p2, s2, q2 = Fluid.vels(Kd, G, K0, 2.65 + h, a, 1 + g, phi)
        le((p2, s2), (p, s), 'velocities of a denser rock')
        k = Fluid.Gassmann(Kd, G, K0, a, phi)[0]
        le(Fluid.Gassmann_sub(phi, K0, k, a, a), Fluid.Gassmann_sub(phi, K0, k, a, a + d), 'substitution, new fluid')
        le(Fluid.Gassmann_sub(phi, K0, k, a, a + 0*d), Fluid.Gassmann_sub(phi, K0, k, 0.9*a, a), 'substitution, old fluid')
    le(Fluid.Gassmann_approx(20, 90, 1, phi, a), Fluid.Gassmann_approx(20, 90, 1, phi, a + d), 'P modulus, new fluid')
    le(Fluid.Gassmann_approx(20, 90, 1, phi, a), Fluid.Gassmann_approx(20 + 10*g, 90, 1, phi, a), 'P modulus, stiffer rock')


def ob_velocity(K: '0.5..80', G: '0.1..60', r: '0.5..8', x: '0..40', y: '0..40', z: '0..2', c: '25..60', d: '0..10', th: '0..90'):
    "velocities and ratios"
    le(utils.V(K, G, r), utils.V(K + x, G + y, r), 'stiffer')
    le(utils.V(K, G, r + z), utils.V(K, G, r), 'denser')
    le(utils.poi(K, G), utils.poi(K + x, G), 'Poisson grows with bulk')
    le(utils.poi(K, G + y), utils.poi(K, G), 'Poisson falls with shear')
    le(utils.lame(K, G + y), utils.lame(K, G), 'Lame falls with shear')
    le(utils.lame(K, G), utils.lame(K + x, G), 'Lame grows with bulk')
    a = utils.write_VTI_matrix(c, c, 8, 7, 9)
    b = utils.write_VTI_matrix(c + d, c + d, 8, 7, 9)
    le(Anisotropy.vel_azi_VTI(a, r, th)[0], Anisotropy.vel_azi_VTI(b, r, th)[0], 'VTI, stiffer')
    le(Anisotropy.vel_azi_VTI(a, r + z, th), Anisotropy.vel_azi_VTI(a, r, th), 'VTI, denser')
    a = utils.write_HTI_matrix(c, c, 8, 7, 9)
    b = utils.write_HTI_matrix(c + d, c + d, 8, 7, 9)
    le(Anisotropy.vel_azi_HTI(a, r, th)[0], Anisotropy.vel_azi_HTI(b, r, th)[0], 'HTI, stiffer')
    le(Anisotropy.vel_azi_HTI(a, r + z, th), Anisotropy.vel_azi_HTI(a, r, th), 'HTI, denser')


def ob_layers(v: '0.1..0.8', l: '0.1..50[2]', G: '0.1..50[2]', d: '0..20[2]'):
    "layer averages grow with every layer"
    f = np.array([v, 1 - v])
    A = Anisotropy.Backus(f, l, G)
    B = Anisotropy.Backus(f, l + d, G)
    le(A[0], B[0], 'C11, lambda')
    le(A[1], B[1], 'C33, lambda')
    eq(A[3], B[3], 'C44 does not see lambda')
    eq(A[4], B[4], 'C66 does not see lambda')
    C = Anisotropy.Backus(f, l, G + d)
    le(A[1], C[1], 'C33, G')
    le(A[3], C[3], 'C44, G')
    le(A[4], C[4], 'C66, G')


def ob_fluids(T: '20..120', t: '0..30', P: '5..60', p: '0..30', S: '0.001..0.2', s: '0..0.1', G: '0.56..1.2', den: '0.75..0.93', x: '0..0.9', y: '0..0.1', Tv: '20..120[3]', Pv: '5..60[3]'):
    "fluid densities and moduli"
    for a, b in ((T, P), (Tv, Pv)):
        le(BW.rho_K_water(a, b)[0], BW.rho_K_water(a, b + p)[0], 'water density grows with pressure')
        le(BW.rho_K_water(a + t, b)[0], BW.rho_K_water(a, b)[0], 'water expands with temperature')
        le(BW.rho_K_brine(a, b, S), BW.rho_K_brine(a, b, S + s), 'salt')
        le(BW.v_brine(a, b, S), BW.v_brine(a, b, S + s), 'salt, velocity')
        le(BW.v_water(a, b), BW.v_water(a, b + p), 'water velocity grows with pressure')
        le(BW.rho_K_gas(b, a, G)[0], BW.rho_K_gas(b + p, a, G)[0], 'gas density grows with pressure')
        le(BW.rho_K_gas(b, a + t, G)[0], BW.rho_K_gas(b, a, G)[0], 'gas expands with temperature')
        le(BW.rho_K_oil(b, a, den), BW.rho_K_oil(b + p, a, den), 'oil, pressure')
        le(BW.rho_K_oil(b, a + t, den), BW.rho_K_oil(b, a, den), 'oil, temperature')
        le(BW.rho_K_oil(b, a, den)[0], BW.rho_K_oil(b, a, den + 0.02)[0], 'heavier oil')
    le(BW.rho_K_go(P, T, den, G, 50 + 20*x)[0], BW.rho_K_go(P, T, den, G, 50)[0], 'gas in solution lightens oil')
    Q, U = 12 + P*0.6, 35 + T*0.6
    le(BW.co2_brine(U, Q, S, x + y), BW.co2_brine(U, Q, S, x), 'more CO2')
    le(BW.co2_brine(U, Q, S, x + y, brie_component=4), BW.co2_brine(U, Q, S, x, brie_component=4), 'more CO2, patchy')
    a, b, c = BW.pseudo_p_t(P, T, G)
    a2, b2, c2 = BW.pseudo_p_t(P + p, T + t, G)
    le((a, b, c), (a2, b2, c2), 'pseudo-reduced')


def ob_depth(Z: '0..4490', z: '0..800', e: '0..3', Zv: '0..4490[3]'):
    "trends with depth"
    for a in (Z, Zv):
        b, c = a + z, a + e
        for w in (b, c):
            for f in (Empirical.Japsen, Empirical.yu_segment_trend, Empirical.Scherbaum, Empirical.Storvoll, Empirical.hjelstuen, Empirical.Hillis):
                le(f(a), f(w), 'velocity grows with depth')
            for f in (Empirical.ehrenberg, Empirical.ramm_porosity, Empirical.ramm_porosity_segment):
                le(f(w), f(a), 'porosity falls with depth')
            le(Empirical.ramm_porosity(w, False), Empirical.ramm_porosity(a, False), 'porosity falls with depth, other sand')


def ob_perm(p: '0.05..0.35', q: '0..0.1', d: '1..500', e: '0..100', S: '0.05..0.8', s: '0..0.15', pc: '0.001..0.04', C: '0.1..1', t: '1..4', w: '0.1..10', r: '10..50', cr: '0..0.9', pv: '0.05..0.35[3]'):
    "permeability"
    for a in (p, pv):
        b = a + q
        le(Permeability.Kozeny_Carman(a, d), Permeability.Kozeny_Carman(b, d + e), 'Kozeny-Carman')
        le(Permeability.Kozeny_Carman_Percolation(a, pc, d, 0.01), Permeability.Kozeny_Carman_Percolation(b, pc, d + e, 0.01), 'percolation')
        le(Permeability.Kozeny_Carman_Percolation(a, pc + q/20, d, 0.01), Permeability.Kozeny_Carman_Percolation(a, pc, d, 0.01), 'threshold')
        le(Permeability.Perm_logs(a, S), Permeability.Perm_logs(b, S), 'logs, porosity')
        le(Permeability.Perm_logs(a, S + s), Permeability.Perm_logs(a, S), 'logs, irreducible water')
        le(Permeability.Owolabi(a, S + s), Permeability.Owolabi(a, S), 'Owolabi, irreducible water')
        le(Permeability.Panda_Lake(d, C, 0.5, t, a), Permeability.Panda_Lake(d + e, C, 0.5, t, b), 'Panda-Lake')
        le(Permeability.Panda_Lake(d, C, 0.5, t + 10*s, a), Permeability.Panda_Lake(d, C, 0.5, t, a), 'tortuosity')
        le(Permeability.Panda_Lake_cem(a, d), Permeability.Panda_Lake_cem(b, d + e), 'Panda-Lake, cemented')
        le(Permeability.Revil(a, d), Permeability.Revil(b, d + e), 'Revil')
        le(Permeability.Fredrich(a, d, 2.5), Permeability.Fredrich(b, d + e, 2.5), 'Fredrich')
        le(Permeability.Fredrich(a, d, 2.5 + s), Permeability.Fredrich(a, d, 2.5), 'Fredrich, shape factor')
        le(Permeability.Bernabe(a, cr, w, r), Permeability.Bernabe(b, cr, w + e/50, r + e/10), 'Bernabe')
    le(Permeability.Bloch(1.2 + S, 50 + p, 0.3), Permeability.Bloch(1.2 + S, 50 + p + e/10, 0.3), 'rigid grains')
    le(Permeability.Bloch(1.2 + S + s, 50, 0.3), Permeability.Bloch(1.2 + S, 50, 0.3), 'poorer sorting')
    le(Permeability.Bloch(1.2, 50, 0.3)[1], Permeability.Bloch(1.2, 50, 0.3 + q)[1], 'grain size')


def ob_reflect(p1: '2500..4000', s1: '1000..1800', d1: '2000..2500', dp: '-800..800', dd: '-300..300', ds: '-400..400', x: '0..300', y: '0..100'):
    "a harder lower layer reflects more at normal incidence"
    p2, d2, s2 = p1 + dp, d1 + dd, s1 + ds*0.5
    le(AVO.Aki_Richards(0, p1, p2, s1, s2, d1, d2)[2], AVO.Aki_Richards(0, p1, p2 + x, s1, s2, d1, d2 + y)[2], 'intercept')
    le(AVO.Aki_Richards(0, p1, p2, s1, s2, d1, d2)[0], AVO.Aki_Richards(0, p1, p2 + x, s1, s2, d1, d2 + y)[0], 'reflectivity at zero angle')
    le(AVO.AVO_abe(p1, s1, d1, p2, s2, d2)[0], AVO.AVO_abe(p1, s1, d1, p2 + x, s2, d2 + y)[0], 'intercept A')
    le(AVO.zoeppritz(p1, s1, d1, p2, s2, d2, 0)[0], AVO.zoeppritz(p1, s1, d1, p2 + x, s2, d2 + y, 0)[0], 'exact reflectivity at zero angle')


def ob_dispersion(V0: '2..4', h: '0..1', fr: '0.01..100', g: '0..100', phi: '0.05..0.35', rf: '0.5..1.2', ka: '0.1..3', et: '0.1..3'):
    "velocity grows with frequency"
    le(Fluid.Geertsma_Smit_LF(V0, V0 + h, fr, phi, rf, ka, et), Fluid.Geertsma_Smit_LF(V0, V0 + h, fr + g, phi, rf, ka, et), 'frequency')
    le(Fluid.Geertsma_Smit_LF(V0, V0 + h, fr, phi, rf, ka, et + g/50), Fluid.Geertsma_Smit_LF(V0, V0 + h, fr, phi, rf, ka, et), 'viscosity')


def ob_workflow(V: '1500..6000[3]', x: '0..500', t: '0.05..0.3[3]', vs: '0..0.25', g: '0..0.05', q: '0.1..0.3', K: '30..45', M: '10..25'):
    "cement estimate grows with velocity; matrix moduli and densities fall with shale"
    a = (37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, vs, 2.55, 2.65, 2.7)
    sd = np.array([0.01, 0.03, 0.06])
    le(QI(V, t).estimate_cem(sd, *a), QI(V + x, t).estimate_cem(sd, *a), 'faster rock has more cement')
    le(QI.den_matrix(vs + g, 0.4, q, 2.4, 2.65, 2.65), QI.den_matrix(vs, 0.4, q, 2.4, 2.65, 2.65), 'shale lowers the density')
    le(QI.matrix_modulus(vs + g, 0.4, np.array([q]), M, K, K), QI.matrix_modulus(vs, 0.4, np.array([q]), M, K, K), 'shale lowers the modulus')
