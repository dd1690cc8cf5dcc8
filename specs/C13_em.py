"""Effective-medium models against the published equations."""
import numpy as np
from scipy.optimize import fsolve
from scipy.integrate import odeint
from spec import eq
from rockphypy import EM
from specs import ref_em as R
from specs.lib import each


def ob_vrh(f1: '0.05..0.6', f2: '0.02..0.35', a: '0.001..300', b: '0.001..300', c: '0.001..300'):
    "Voigt, Reuss and Hill averages of three phases"
    f = [f1, f2, 1 - f1 - f2]
    M = [a, b, c]
    v, r = R.voigt(M, f), R.reuss(M, f)
    eq(EM.VRH(f, M), (v, r, (v + r)/2), 'lists')
    eq(EM.VRH(np.array(f), np.array(M)), (v, r, (v + r)/2), 'arrays')
    eq(EM.VRH([f1, 1 - f1], np.array([a, b])), (R.voigt([a, b], [f1, 1-f1]), R.reuss([a, b], [f1, 1-f1]),
       (R.voigt([a, b], [f1, 1-f1]) + R.reuss([a, b], [f1, 1-f1]))/2), 'two phases')


def ob_cripor(K: '0.5..300', G: '0.5..300', phi: '0..0.99[4]', p: '0..0.99', pc: '0.3..0.6', Kv: '0.5..300[4]', Gv: '0.5..300[4]'):
    "critical porosity model"
    g = lambda k, m, x: (k - k*x/pc, m - m*x/pc)
    eq(EM.cripor(K, G, p, pc), g(K, G, p), 'scalars')
    eq(EM.cripor(K, G, phi, pc), each(g, 4, K, G, phi), 'porosity array')
    eq(EM.cripor(Kv, Gv, phi, pc), each(g, 4, Kv, Gv, phi), 'all arrays')
    eq(EM.cripor(Kv, Gv, p, pc), each(g, 4, Kv, Gv, p), 'moduli arrays')


def ob_cripor_reuss(a: '0.001..300', b: '0.001..300', pc: '0.001..0.999'):
    "critical-phase modulus (isostress) and density (mass balance)"
    eq(EM.cripor_reuss(a, b, pc), 1/((1 - pc)/a + pc/b), 'default is modulus')
    eq(EM.cripor_reuss(a, b, pc, den=False), 1/((1 - pc)/a + pc/b), 'modulus')
    eq(EM.cripor_reuss(a, b, pc, den=True), a*(1 - pc) + b*pc, 'density')
    eq(EM.cripor_reuss(a, b, pc, True), a*(1 - pc) + b*pc, 'density, positional')


def ob_hs(f: '0..1', K1: '20..90', K2: '0.1..19', G1: '20..90', G2: '0.1..19', Kv: '20..90[3]', Gv: '20..90[3]', fv: '0.05..0.95[3]'):
    "Hashin-Shtrikman bounds as generalised means"
    eq(EM.HS(f, K1, K2, G1, G2), R.hs(f, K1, K2, G1, G2, K1, G1), 'default upper')
    eq(EM.HS(f, K1, K2, G1, G2, bound='upper'), R.hs(f, K1, K2, G1, G2, K1, G1), 'upper')
    eq(EM.HS(f, K1, K2, G1, G2, bound='lower'), R.hs(f, K1, K2, G1, G2, K2, G2), 'lower')
    eq(EM.HS(f, K1, K2, G1, G2, 'lower'), R.hs(f, K1, K2, G1, G2, K2, G2), 'lower positional')
    up = lambda x, k, g: R.hs(x, k, K2, g, G2, k, g)
    lo = lambda x, k, g: R.hs(x, k, K2, g, G2, K2, G2)
    eq(EM.HS(fv, Kv, K2, Gv, G2), each(up, 3, fv, Kv, Gv), 'upper arrays')
    eq(EM.HS(fv, Kv, K2, Gv, G2, bound='lower'), each(lo, 3, fv, Kv, Gv), 'lower arrays')


def ob_hs_any(f: '0.02..0.98', K1: '0.5..300', K2: '0.5..300', G1: '0.5..300', G2: '0.5..300'):
    "Hashin-Shtrikman: reference phase follows the requested bound, whatever the moduli"
    eq(EM.HS(f, K1, K2, G1, G2, 'upper'), R.hs(f, K1, K2, G1, G2, K1, G1), 'first phase')
    eq(EM.HS(f, K1, K2, G1, G2, 'lower'), R.hs(f, K1, K2, G1, G2, K2, G2), 'second phase')


def ob_hs_fluid(f: '0.05..0.95', K1: '20..90', K2: '0.01..5', G1: '20..90'):
    "Hashin-Shtrikman upper bound with a fluid soft phase"
    eq(EM.HS(f, K1, K2, G1, 0), R.hs(f, K1, K2, G1, 0, K1, G1), 'upper')


def ob_eshelby(K: '0.5..300', G: '0.3..250', phi: '0..0.9', a: '0.0001..0.999', Kf: '0..60'):
    "Eshelby-Cheng cracked rock"
    r = R.eshelby_cheng(K, G, phi, a, Kf)
    d = R.eshelby_cheng(K, G, phi, a, Kf, lit=False)
    eq(EM.Eshelby_Cheng(K, G, phi, a, Kf), r, 'vector', dev=d, finding='F04')
    eq(EM.Eshelby_Cheng(K, G, phi, a, Kf, mat=False), r, 'vector', dev=d, finding='F04')
    eq(EM.Eshelby_Cheng(K, G, phi, a, Kf, mat=True), R.ti6(*r), 'matrix', dev=R.ti6(*d), finding='F04')
    eq(EM.Eshelby_Cheng(K, G, phi, a, Kf)[1:], r[1:], 'C33 C13 C44 C66')


def ob_hudson(K: '0.5..300', G: '0.3..250', Ki: '0..60', Gi: '0..50', a: '0.0001..0.999', crd: '0..1'):
    "Hudson aligned cracks, first order"
    w3 = R.hudson_axis(K, G, Ki, Gi, a, crd, 3)
    w1 = R.hudson_axis(K, G, Ki, Gi, a, crd, 1)
    eq(EM.hudson(K, G, Ki, Gi, a, crd), w3, 'defaults')
    eq(EM.hudson(K, G, Ki, Gi, a, crd, order=1, axis=3), w3, 'axis 3')
    eq(EM.hudson(K, G, Ki, Gi, a, crd, order=1, axis=1), w1, 'axis 1')
    eq(EM.hudson(K, G, Ki, Gi, a, crd, axis=1), w1, 'axis 1, default order')


def ob_hudson2(K: '0.5..300', G: '0.3..250', Ki: '0..60', Gi: '0..50', a: '0.0001..0.999', crd: '0..1'):
    "Hudson aligned cracks, second order"
    eq(EM.hudson(K, G, Ki, Gi, a, crd, order=2), R.hudson2(K, G, Ki, Gi, a, crd, 3), 'axis 3')
    eq(EM.hudson(K, G, Ki, Gi, a, crd, order=2, axis=3), R.hudson2(K, G, Ki, Gi, a, crd, 3), 'axis 3')
    eq(EM.hudson(K, G, Ki, Gi, a, crd, order=2, axis=1), R.hudson2(K, G, Ki, Gi, a, crd, 1), 'axis 1')


def hr_dev(K, G, Ki, Gi, a, crd):
    U1, U3 = R.crack_u(K, G, Ki, Gi, a)
    l = R.lame(K, G)
    g = -2*G*crd*(3*U1 + 2*U3)
    l1 = (-(3*l + 2*G)**2*crd*U3/(3*G) - 2*g)/3
    return l + l1 + 2/3*(G + g), G + g


def ob_hudson_rand(K: '0.5..300', G: '0.3..250', Ki: '0..60', Gi: '0..50', a: '0.0001..0.999', crd: '0.0001..1', Kv: '0.5..300[3]', Gv: '0.3..250[3]'):
    "Hudson randomly oriented cracks"
    eq(EM.hudson_rand(K, G, Ki, Gi, a, crd), R.hudson_rand(K, G, Ki, Gi, a, crd), 'moduli', dev=hr_dev(K, G, Ki, Gi, a, crd), finding='F02')
    eq(EM.hudson_rand(K, G, Ki, Gi, a, crd)[0], R.hudson_rand(K, G, Ki, Gi, a, crd)[0], 'bulk modulus')
    h = lambda k, g: R.hudson_rand(k, g, Ki, Gi, a, crd)
    hd = lambda k, g: hr_dev(k, g, Ki, Gi, a, crd)
    eq(EM.hudson_rand(Kv, Gv, Ki, Gi, a, crd), each(h, 3, Kv, Gv), 'arrays', dev=each(hd, 3, Kv, Gv), finding='F02')


def ob_hudson_ortho(K: '0.5..300', G: '0.3..250', Ki: '0..60', Gi: '0..50', a: '0.0001..0.999[3]', c: '0..1[3]'):
    "Hudson three orthogonal crack sets"
    C = R.iso6(K, G)
    for i in range(3):
        U1, U3 = R.crack_u(K, G, Ki, Gi, a[i])
        n = [0, 0, 0]
        n[i] = 1
        C = C + R.crack_dC(K, G, U1, U3, c[i], n)
    eq(EM.hudson_ortho(K, G, Ki, Gi, a, c), C, 'arrays')
    eq(EM.hudson_ortho(K, G, Ki, Gi, [a[0], a[1], a[2]], [c[0], c[1], c[2]]), C, 'lists')


def ob_hudson_cone(K: '0.5..300', G: '0.3..250', Ki: '0..60', Gi: '0..50', a: '0.0001..0.999', crd: '0.0001..1', th: '0..90'):
    "Hudson cone of crack normals"
    r = R.hudson_cone(K, G, Ki, Gi, a, crd, th)
    U1, U3 = R.crack_u(K, G, Ki, Gi, a)
    s = np.sin(th*np.pi/180)
    d = R.hudson_cone(K, G, Ki, Gi, a, crd, th)
    d[5, 5] = G - crd*G/2*(4*U3*s**4 + U1*s**2*(2 - s**2))
    g = EM.hudson_cone(K, G, Ki, Gi, a, crd, th)
    eq(g, r, 'stiffness', dev=d, finding='F01')
    eq(g[:5, :], r[:5, :], 'all but C66')
    eq(g[5, :5], r[5, :5], 'all but C66')


def ob_pq_oblate(Km: '0.5..300', Gm: '0.3..250', Ki: '0.001..300', Gi: '0..60', a: '0.0001..0.9999'):
    "Berryman's P and Q, oblate"
    eq(EM.PQ(Km, Gm, Ki, Gi, a), R.pq(Km, Gm, Ki, Gi, a, 'oblate'), 'P, Q')


def ob_pq_sphere(Km: '0.5..300', Gm: '0.3..250', Ki: '0..90', Gi: '0..60'):
    "Berryman's P and Q, sphere"
    eq(EM.PQ(Km, Gm, Ki, Gi, 1), R.pq(Km, Gm, Ki, Gi, 1, 'sphere'), 'P, Q')
    eq(EM.PQ(Km, Gm, Ki, Gi, 1.0), R.pq(Km, Gm, Ki, Gi, 1, 'sphere'), 'P, Q')


def ob_pq_prolate(Km: '0.5..300', Gm: '0.3..250', Ki: '0.001..300', Gi: '0..60', a: '1.0001..1000'):
    "Berryman's P and Q, prolate"
    eq(EM.PQ(Km, Gm, Ki, Gi, a), R.pq(Km, Gm, Ki, Gi, a, 'prolate'), 'P, Q')


def ob_pqv(Km: '0.5..300', Gm: '0.3..250', Ki: '0.001..300[4]', Gi: '0..60[4]', a: '0.0001..0.9999', b: '0.0001..0.9999'):
    "Berryman's P and Q of several phases: oblate and spherical"
    ps = [R.pq(Km, Gm, Ki[0], Gi[0], a, 'oblate'), R.pq(Km, Gm, Ki[1], Gi[1], 1, 'sphere'),
          R.pq(Km, Gm, Ki[2], Gi[2], b, 'oblate'), R.pq(Km, Gm, Ki[3], Gi[3], 1, 'sphere')]
    eq(EM.PQ_vectorize(Km, Gm, Ki, Gi, np.array([a, 1.0, b, 1.0])), ([p[0] for p in ps], [p[1] for p in ps]), 'P, Q')


def ob_pqv_prolate(Km: '0.5..300', Gm: '0.3..250', Ki: '0.001..300[3]', Gi: '0..60[3]', a: '0.0001..0.9999', b: '1.0001..1000'):
    "Berryman's P and Q of several phases: prolate"
    ps = [R.pq(Km, Gm, Ki[0], Gi[0], a, 'oblate'), R.pq(Km, Gm, Ki[1], Gi[1], b, 'prolate'), R.pq(Km, Gm, Ki[2], Gi[2], 1, 'sphere')]
    ds = [ps[0], R.pq(Km, Gm, Ki[1], Gi[1], b, 'dev'), ps[2]]
    g = EM.PQ_vectorize(Km, Gm, Ki, Gi, np.array([a, b, 1.0]))
    eq(g, ([p[0] for p in ps], [p[1] for p in ps]), 'P, Q', dev=([p[0] for p in ds], [p[1] for p in ds]), finding='F03')


def ob_berryman_func(k: '0.3..250', g: '3..50', K: '0.001..300[3]', G: '0..60[3]', x: '0.05..0.5', y: '0.05..0.4', a: '0.0001..0.9999', b: '0.0001..0.9999'):
    "self-consistent residual"
    X = [x, y, 1 - x - y]
    al = [a, 1, b]
    sd = ['oblate', 'sphere', 'oblate']
    e1 = 0
    e2 = 0
    for i in range(3):
        P, Q = R.pq(k, g, K[i], G[i], al[i], sd[i])
        e1 = e1 + X[i]*(K[i] - k)*P
        e2 = e2 + X[i]*(G[i] - g)*Q
    eq(EM.Berryman_func((k, g), K, G, np.array(X), np.array([a, 1.0, b])), [e1, e2], 'residual')


def ob_berryman_sc(K1: '30..60', K2: '20..50', G1: '20..40', G2: '15..35', x: '0.2..0.8', a: '0.001..0.999', b: '0.001..0.999'):
    "self-consistent composite: root of the published system"
    def res(p):
        P1, Q1 = R.pq(p[0], p[1], K1, G1, a, 'oblate')
        P2, Q2 = R.pq(p[0], p[1], K2, G2, b, 'oblate')
        return [x*(K1 - p[0])*P1 + (1-x)*(K2 - p[0])*P2, x*(G1 - p[1])*Q1 + (1-x)*(G2 - p[1])*Q2]
    k, g = fsolve(res, ((K1 + K2)/2, (G1 + G2)/2))
    eq(EM.Berryman_sc([K1, K2], [G1, G2], [x, 1 - x], [a, b]), (k, g), 'moduli')


def ob_swiss(K: '0.5..300', G: '0.3..250', p: '0..0.99', Kv: '0.5..300[3]', Gv: '0.3..250[3]', pv: '0..0.99[4]'):
    "dilute spherical pores"
    eq(EM.Swiss_cheese(K, G, p), R.swiss(K, G, p), 'scalar')
    eq(EM.Swiss_cheese(K, G, pv), each(lambda q: R.swiss(K, G, q), 4, pv), 'porosity array')
    k = [[R.swiss(Kv[i], Gv[i], pv[j])[0] for j in range(4)] for i in range(3)]
    g = [[R.swiss(Kv[i], Gv[i], pv[j])[1] for j in range(4)] for i in range(3)]
    eq(EM.Swiss_cheese(Kv, Gv, pv), (np.array(k), np.array(g)), 'rows moduli, columns porosity')


def ob_sc(K: '0.5..300', G: '0.3..250', p: '0..0.99', pv: '0..0.99[3]', Kv: '0.5..300[3]', Gv: '0.3..250[3]'):
    "self-consistent spherical pores: fixed-point iteration"
    for n in (0, 1, 2, 5):
        eq(EM.SC(p, K, G, n), R.sc(p, K, G, n), '%d iterations' % n)
    eq(EM.SC(pv, K, G, 2), each(lambda q: R.sc(q, K, G, 2), 3, pv), 'porosity array')
    eq(EM.SC(pv, Kv, Gv, 2), each(lambda q, k, g: R.sc(q, k, g, 2), 3, pv, Kv, Gv), 'arrays')
    eq(EM.SC(p, K, G, 10), R.sc(p, K, G, 10), '10 iterations')


def ob_sc_long(K: '20..60', G: '10..45', p: '0.4..0.5', pv: '0.4..0.5[2]'):
    "self-consistent spherical pores near the percolation limit, where the iteration converges slowly"
    for n in (25, 60, 130):
        eq(EM.SC(p, K, G, n), R.sc(p, K, G, n), '%d iterations' % n)
    eq(EM.SC(pv, K, G, 60), each(lambda q: R.sc(q, K, G, 60), 2, pv), 'array')


def ob_dilute_crack(K: '0.5..300', G: '0.3..250', c: '0..0.99', cv: '0..0.99[3]'):
    "non-interacting random cracks"
    eq(EM.Dilute_crack(K, G, c), R.dilute_crack(K, G, c), 'scalar')
    eq(EM.Dilute_crack(K, G, cv), each(lambda x: R.dilute_crack(K, G, x), 3, cv), 'array')


def ob_ocb(K: '0.5..300', G: '0.3..250', c: '0..0.99', cv: '0..0.99[3]'):
    "O'Connell-Budiansky dry cracks"
    eq(EM.OConnell_Budiansky(K, G, c), R.ocb(K, G, c), 'scalar')
    eq(EM.OConnell_Budiansky(K, G, cv), each(lambda x: R.ocb(K, G, x), 3, cv), 'array')


def ob_ocr(v: '0.05..0.4', D: '0.3..1', crd: '0.01..0.4', v0: '0.05..0.4', w: '0..5'):
    "O'Connell-Budiansky soft-fluid system"
    eq(EM.OC_R_funcs((v, D), crd, v0, w), R.ocr(v, D, crd, v0, w), 'residual')


def ob_ocr_far(v: '-0.5..0.9', D: '1..3', crd: '0.01..0.9', v0: '0.05..0.45', w: '0..50'):
    "O'Connell-Budiansky soft-fluid system, where the solver may step"
    eq(EM.OC_R_funcs((v, D), crd, v0, w), R.ocr(v, D, crd, v0, w), 'residual')


def ob_ocb_fl(K: '20..50', G: '10..45', Kfl: '0.01..1', crd: '0.01..0.2', a: '0.005..0.05'):
    "O'Connell-Budiansky saturated cracks"
    v0 = R.poisson(K, G)
    w = Kfl/(a*K)
    v, D = fsolve(lambda p: R.ocr(p[0], p[1], crd, v0, w), (0.2, 0.9))
    eq(EM.OConnell_Budiansky_fl(K, G, Kfl, crd, a), (K*(1 - 16*(1 - v*v)*crd*D/(9*(1 - 2*v))), G*(1 - 32/45*(1 - v)*(D + 3/(2 - v))*crd)), 'moduli')


def ob_dem(k: '10..60', g: '5..50', Ki: '0.01..5', Gi: '0..5', a: '0.01..0.99', t: '0..0.8'):
    "differential effective medium: derivatives"
    P, Q = R.pq(k, g, Ki, Gi, a, 'oblate')
    eq(EM.DEM([k, g], t, [Gi, Ki, a]), [(Ki - k)*P/(1 - t), (Gi - g)*Q/(1 - t)], 'dK/dt, dG/dt')


def ob_berryman_dem(K: '20..60', G: '20..50', Ki: '0.01..5', Gi: '0..5', a: '0.01..0.99'):
    "differential effective medium: initial value problem"
    def rhs(y, s):
        P, Q = R.pq(y[0], y[1], Ki, Gi, a, 'oblate')
        return [(Ki - y[0])*P/(1 - s), (Gi - y[1])*Q/(1 - s)]
    for x, t in ((0.025, [0.0, 0.01, 0.02, 0.03]), (0.004, [0.0, 0.01]), (0.0001, [0.0, 0.01]), (0.015, [0.0, 0.01, 0.02]), (0.125, [0.01*i for i in range(14)])):
        ps = odeint(rhs, [K, G], np.array(t))
        k, g, tt = EM.Berryman_DEM(K, G, Ki, Gi, a, x)
        eq(tt, t, 'porosity steps up to %g' % x)
        eq(k, ps[:, 0], 'bulk')
        eq(g, ps[:, 1], 'shear')


def ob_sc_dilute(K: '0.5..300', G: '0.3..250', Ki: '0.1..4', Gi: '0.1..4', f: '0..0.99', fv: '0..0.99[3]'):
    "dilute spherical inclusions, prescribed stress / strain"
    for m in ('stress', 'strain'):
        eq(EM.SC_dilute(K, G, Ki, Gi, f, m), R.sc_dilute(K, G, Ki, Gi, f, m), m)
        eq(EM.SC_dilute(K, G, Ki, Gi, fv, m), each(lambda x: R.sc_dilute(K, G, Ki, Gi, x, m), 3, fv), m + ' array')


def ob_sc_dilute_stiff(K: '1..9', G: '1..9', Ki: '20..90', Gi: '20..90', f: '0..1'):
    "dilute spherical inclusions stiffer than the matrix"
    for m in ('stress', 'strain'):
        eq(EM.SC_dilute(K, G, Ki, Gi, f, m), R.sc_dilute(K, G, Ki, Gi, f, m), m)


def ob_sc_flex(K: '20..90', G: '20..60', Ki: '0.1..4', Gi: '0.1..4', f: '0..0.99', fv: '0..0.99[3]'):
    "self-consistent two-phase composite: fixed-point iteration"
    def r(x, n):
        # the shear update uses the bulk modulus already updated
        k, g = K, G
        for i in range(n):
            s1, s2 = R.sphere_s(k, g)
            k = K - x*(K - Ki)*k/(k - s1*(k - Ki))
            g = G - x*(G - Gi)*g/(g - s2*(g - Gi))
        return k, g
    for n in (0, 1, 2, 4, 15, 40, 64, 120):
        eq(EM.SC_flex(f, n, K, Ki, G, Gi), r(f, n), '%d iterations' % n)
    eq(EM.SC_flex(fv, 2, K, Ki, G, Gi), each(lambda x: r(x, 2), 3, fv), 'array')


def ob_mt(f: '0..1', Km: '0.3..250', Gm: '0.3..250', K1: '0.5..300', G1: '0.5..300', K2: '0.1..90', G2: '0.1..90', fv: '0..1[3]'):
    "modified Mori-Tanaka average"
    eq(EM.MT_average(f, Km, Gm, K1, G1, K2, G2), R.mt(f, Km, Gm, K1, G1, K2, G2), 'scalar')
    eq(EM.MT_average(fv, Km, Gm, K1, G1, K2, G2), each(lambda x: R.mt(x, Km, Gm, K1, G1, K2, G2), 3, fv), 'array')
