"""Signs of symbolic derivatives."""
import numpy as np
from spec import eq, le, slope
from rockphypy import AVO, Anisotropy, BW, EM, Empirical, Fluid, GM, Permeability, QI, utils


def rises(v, x, label):
    le(0, slope(v, x), label + ' rises')


def falls(v, x, label):
    le(slope(v, x), 0, label + ' falls')


def ob_hs(f: '0..1', K2: '0.1..40', G2: '0.05..30', K1: '40..90', G1: '30..90'):
    "derivatives of the Hashin-Shtrikman bounds"
    for b in ('upper', 'lower'):
        r = EM.HS(f, K1, K2, G1, G2, b)
        for x in (f, K1, K2, G1, G2):
            rises(r, x, b)


def ob_vrh(f: '0..1', a: '0.1..90', b: '0.1..90'):
    "derivatives of the averages"
    for r in (EM.VRH(np.array([f, 1 - f]), np.array([a, b])), EM.VRH([f, 1 - f], [a, b])):
        rises(r, a, 'average with its first part')
        rises(r, b, 'average with its second part')


def ob_brie(Kw: '1.5..4', Kg: '0.01..1.5', S: '0.001..0.999', e: '0.5..40'):
    "derivatives of Brie's law"
    r = Fluid.Brie(Kw, Kg, S, e)
    for x in (Kw, Kg, S):
        rises(r, x, 'Brie')
    falls(r, e, 'Brie with the exponent')


def ob_brie_soft(Kw: '0.5..1.4', Kg: '1.5..4', S: '0.001..0.999', e: '0.5..40'):
    "Brie's law when the second fluid is the stiffer one"
    r = Fluid.Brie(Kw, Kg, S, e)
    for x in (Kw, Kg, e):
        rises(r, x, 'Brie')
    falls(r, S, 'Brie towards the softer fluid')


def ob_gassmann(K0: '31..80', x: '0..0.9', G: '1..40', phi: '0.02..0.5', a: '0.01..4', r0: '2.4..2.8', rf: '0.1..1.2'):
    "derivatives of the saturated modulus"
    k = Fluid.Gassmann(x*(1 - phi)*K0, G, K0, a, phi)[0]
    rises(k, a, 'fluid')
    rises(k, x, 'frame')
    p, s, r = Fluid.vels(x*(1 - phi)*K0, G, K0, r0, a, rf, phi)
    for q in (a, x, G):
        rises(p, q, 'P velocity')
    rises(s, G, 'S velocity')
    for q in (r0, rf):
        falls(p, q, 'P velocity with density')
        falls(s, q, 'S velocity with density')


def ob_sub(K0: '31..80', k: '5..30', phi: '0.05..0.5', a: '0.01..3', b: '0.01..4'):
    "derivatives of fluid substitution"
    n = Fluid.Gassmann_sub(phi, K0, 20 + k/10, a/10, b)
    rises(n, b, 'new fluid')
    falls(n, a, 'old fluid')


def ob_sand(K: '20..60', G: '15..60', t: '0..1', pc: '0.31..0.5', Cn: '3..14', s: '0.5..60', f: '0..1'):
    "derivatives of the sand models"
    h = GM.hertzmindlin(K, G, pc, Cn, s, f)
    for x in (s, Cn):
        rises(h, x, 'pack')
    falls(h, pc, 'pack with porosity')
    rises(h[1], f, 'pack with friction')
    w = GM.Walton(K, G, pc, Cn, s, f)
    for x in (s, Cn, K, G):
        rises(w, x, 'Walton')
    falls(w, pc, 'Walton with porosity')
    rises(w[1], f, 'Walton with friction')
    for r in (GM.softsand(K, G, t*pc, pc, Cn, s, f), GM.stiffsand(K, G, t*pc, pc, Cn, s, f)):
        falls(r, t, 'porosity')
        for x in (s, Cn, f):
            rises(r, x, 'sand')


def ob_cement(K: '36..60', G: '36..60', t: '0..1', u: '0.01..0.06', pc: '0.36..0.42', Cn: '6..10', Kc: '25..60', Gc: '20..50'):
    "derivatives of the cement models"
    for sc in (1, 2):
        c = GM.contactcement(K, G, Kc, Gc, pc - u, pc, Cn, sc)
        rises(c, u, 'cement')
        rises(c, Cn, 'cemented contacts')
        for r in (GM.constantcement(pc - u, K, G, 36, 34, t*(pc - u), pc, 8, sc), GM.MUHS(K, G, 36, 34, t*(pc - u), pc - u, pc, 8, sc)):
            falls(r, t, 'porosity')


def ob_pcm(K: '36..60', G: '36..60', t: '0..1', pc: '0.36..0.42', s: '0.5..10', f: '0.05..0.95', al: '0..1', q: '0..1'):
    "derivatives of patchy cement"
    for sc in (1, 2):
        for vc, vi in ((0.03, 0.06), (0.08, 0.06)):
            a = (K, G, t*(pc - vc), pc, vc, vi, 36, 34, 8)
            for m in ('soft', 'stiff'):
                r = GM.pcm(f, s, *a, m, sc, q)
                rises(r, f, 'cemented grains')
                rises(r, s, 'pressure')
                falls(r, t, 'porosity')
            r = GM.vpcm(al, f, s, *a, sc, q)
            rises(r, f, 'cemented grains')
            rises(r, s, 'pressure')
            falls(r, al, 'connectivity')
            falls(r, t, 'porosity')


def ob_cracks(K: '20..60', G: '15..50', Ki: '0..4', Gi: '0..3', a: '0.001..0.5', c: '0..0.09', ph: '0..0.5'):
    "derivatives of crack and pore models"
    falls(EM.Dilute_crack(K, G, c), c, 'dilute cracks')
    falls(EM.OConnell_Budiansky(K, G, c), c, "O'Connell-Budiansky")
    falls(EM.Swiss_cheese(K, G, ph), ph, 'pores')
    falls(EM.SC(c, K, G, 3), c, 'self consistent')
    C = EM.hudson(K, G, Ki, Gi, a, c)
    for i in (0, 2, 3):
        falls(C[i, i], c, 'stiffness')
        rises(C[i, i], Ki, 'stiffness with fill')
        rises(C[i, i], Gi, 'stiffness with fill')
        falls(C[i, i], a, 'stiffness with aspect')
    rises(utils.crack_por(c, a), c, 'crack porosity')
    rises(utils.crack_por(c, a), a, 'crack porosity')
    r = EM.cripor(K, G, 0.4*ph, 0.4)
    falls(r, ph, 'critical porosity')
    falls(Empirical.krief(ph, K, G)[1:], ph, 'Krief')


def ob_shape(Km: '20..60', Gm: '20..50', Ki: '0.1..10', Gi: '0.1..10', f: '0.01..0.3', t: '0..1', al: '0.02..0.9'):
    "derivatives of inclusion models"
    for m in ('stress', 'strain'):
        r = EM.SC_dilute(Km, Gm, Ki, Gi, f, m)
        falls(r, f, m)
        rises(r[0], Ki, m)
        rises(r[1], Gi, m)
    r = EM.MT_average(t, Km, Gm, Km, Gm, Ki, Gi)
    rises(r, t, 'Mori-Tanaka')
    rises(r[0], Ki, 'Mori-Tanaka')
    rises(r[1], Gi, 'Mori-Tanaka')
    P, Q = EM.PQ(Km, Gm, Ki, Gi, al)
    falls(P, Ki, 'strain factor')


def ob_clay(ps: '0.2..0.4', ph: '0.05..0.19', v: '0..1', Kq: '20..60', Gq: '20..60', Ks: '5..19', Gs: '2..19'):
    "derivatives of shale models"
    a = GM.silty_shale(v, Kq, Gq, Ks, Gs)
    b = GM.shaly_sand(ps, v*ps, Kq, Gq, Ks, Gs)
    for r in (a, b):
        falls(r, v, 'clay')
        for x in (Kq, Ks, Gs):
            rises(r[0], x, 'bulk')
        for x in (Gq, Gs):
            rises(r[1], x, 'shear')
    falls(GM.ThomasStieber(ps, ph, v)[1], v, 'laminated')
    rises(GM.ThomasStieber(ps, ph, v)[1], ph, 'laminated')


def ob_velocity(K: '0.5..80', G: '0.1..60', r: '0.5..8'):
    "derivatives of velocities and ratios"
    p, s = utils.V(K, G, r)
    rises(p, K, 'P')
    rises(p, G, 'P')
    rises(s, G, 'S')
    falls((p, s), r, 'velocity with density')
    rises(utils.poi(K, G), K, 'Poisson')
    falls(utils.poi(K, G), G, 'Poisson')
    rises(utils.lame(K, G), K, 'Lame')
    falls(utils.lame(K, G), G, 'Lame')


def ob_fluids(T: '20..140', P: '5..90', S: '0.001..0.3', G: '0.56..1.2', Q: '5..60', den: '0.75..0.93', x: '0.01..0.99'):
    "derivatives of fluid properties"
    w = BW.rho_K_water(T, P)
    rises(w[0], P, 'water density')
    falls(w[0], T, 'water density')
    rises(BW.v_water(T, P), P, 'water velocity')
    b = BW.rho_K_brine(T, P, S)
    rises(b[0], S, 'brine density')
    g = BW.rho_K_gas(Q, T, G)
    rises(g[0], Q, 'gas density')
    falls(g[0], T, 'gas density')
    o = BW.rho_K_oil(Q, T, den)
    rises(o, Q, 'oil')
    falls(o, T, 'oil')
    rises(o[0], den, 'oil density')
    m = BW.co2_brine(40 + T*0.4, 12 + Q*0.5, S, x)
    falls(m, x, 'CO2 in brine')


def ob_trends(Z: '0..4500', phi: '0.05..0.4', c: '0..0.5', V: '2000..6000', v: '0..1', Pe: '0.01..1', d: '1..500', Sw: '0.05..0.9', C: '0.1..1', t: '1..4', w: '0.1..10', r: '10..50'):
    "derivatives of empirical relations"
    for f in (Empirical.Japsen, Empirical.yu_segment_trend, Empirical.Scherbaum, Empirical.Storvoll, Empirical.hjelstuen, Empirical.Hillis):
        rises(f(Z), Z, 'velocity')
    for f in (Empirical.ehrenberg, Empirical.ramm_porosity, Empirical.ramm_porosity_segment):
        falls(f(Z), Z, 'porosity')
    h = Empirical.han(phi, c)
    falls(h, phi, 'Han')
    falls(h, c, 'Han')
    falls(Empirical.Cp(phi), phi, 'coordination number')
    falls(Empirical.Sclater(phi), phi, 'Sclater')
    for n in (1, 2):
        rises(Empirical.empirical_StPeter(Pe, n), Pe, 'St Peter')
    s = Empirical.esti_VS(V, v)
    rises(s, V, 'S velocity')
    falls(s, v, 'S velocity')
    rises(Permeability.Kozeny_Carman(phi, d), phi, 'Kozeny-Carman')
    rises(Permeability.Kozeny_Carman(phi, d), d, 'Kozeny-Carman')
    k = Permeability.Perm_logs(phi, Sw)
    rises(k, phi, 'log permeability')
    falls(k, Sw, 'log permeability')
    falls(Permeability.Owolabi(phi, Sw), Sw, 'Owolabi')
    k = Permeability.Panda_Lake(d, C, 0.5, t, phi)
    rises(k, d, 'Panda-Lake')
    rises(k, phi, 'Panda-Lake')
    falls(k, t, 'Panda-Lake')
    for f in (Permeability.Panda_Lake_cem, Permeability.Revil):
        rises(f(phi, d), phi, 'permeability')
        rises(f(phi, d), d, 'permeability')
    k = Permeability.Fredrich(phi, d, t)
    rises(k, phi, 'Fredrich')
    rises(k, d, 'Fredrich')
    falls(k, t, 'Fredrich')
    k = Permeability.Bernabe(phi, c, w, r)
    rises(k, phi, 'Bernabe')
    rises(k, w, 'Bernabe')
    rises(k, r, 'Bernabe')
    k = Permeability.Kozeny_Carman_Percolation(phi, 0.01 + c/20, d, 0.01)
    rises(k, phi, 'percolation')
    falls(k, c, 'percolation')


def ob_layers(v: '0.1..0.9', a: '0.1..50', b: '0.1..50', G: '0.1..50', H: '0.1..50'):
    "derivatives of layer averages"
    C11, C33, C13, C44, C66 = Anisotropy.Backus(np.array([v, 1 - v]), np.array([a, b]), np.array([G, H]))
    for x in (a, b):
        rises(C11, x, 'C11')
        rises(C33, x, 'C33')
    for x in (G, H):
        rises(C33, x, 'C33')
        rises(C44, x, 'C44')
        rises(C66, x, 'C66')


def ob_reflect(p1: '2500..4000', s1: '1000..1800', d1: '2000..2500', p2: '2500..4500', d2: '2000..2700', s2: '1000..2000'):
    "derivatives of the intercept"
    for r in (AVO.Aki_Richards(0, p1, p2, s1, s2, d1, d2)[2], AVO.AVO_abe(p1, s1, d1, p2, s2, d2)[0]):
        for x in (p2, d2):
            rises(r, x, 'intercept')
        for x in (p1, d1):
            falls(r, x, 'intercept')
