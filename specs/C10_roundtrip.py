"""Fluid substitution and conversions are invertible, path independent and mutually consistent."""
import numpy as np
from spec import eq
from rockphypy import Fluid, utils, Anisotropy, GM, EM, QI, BW
from specs.lib import vti6, hti6, svti6, each
from specs import ref_em as E


def ob_gassmann(Kd: '1..30', G: '1..40', K0: '31..80', a: '0.01..4', b: '0.01..4', c: '0.01..4', p: '0.01..0.5', Kv: '1..30[3]', Gv: '1..40[3]', pv: '0.01..0.5[3]'):
    "Gassmann in all its forms"
    s = lambda k, f: Fluid.Gassmann(k, G, K0, f, p)[0]
    ka, kb = s(Kd, a), s(Kd, b)
    eq(Fluid.Gassmann_sub(p, K0, ka, a, b), kb, 'substitution equals draining and saturating')
    eq(Fluid.Gassmann_sub(p, K0, kb, b, a), ka, 'and back')
    eq(Fluid.Gassmann_sub(p, K0, Fluid.Gassmann_sub(p, K0, ka, a, b), b, c), Fluid.Gassmann_sub(p, K0, ka, a, c), 'two steps equal one')
    eq(Fluid.Gassmann_sub(p, K0, ka, a, 0), Kd, 'substituting emptiness recovers the dry modulus')
    eq(Fluid.Gassmann_sub(p, K0, Kd, 0, b), kb, 'saturating the dry rock')
    eq(Fluid.Gassmann(Kd, G, K0, a, p)[1], G, 'shear modulus is not affected by fluid')
    va = Fluid.Gassmann(Kv, Gv, K0, a, pv)
    vb = Fluid.Gassmann(Kv, Gv, K0, b, pv)
    eq(Fluid.Gassmann_sub(pv, K0, va[0], a, b), vb[0], 'arrays')
    eq(va[1], Gv, 'shear modulus, arrays')
    eq(Fluid.Gassmann_approx(ka, K0, a, p, b), Fluid.Gassmann_sub(p, K0, ka, a, b), 'the P-modulus form is the same relation')


def ob_approx(M: '10..50', M0: '60..120', a: '0.01..4', b: '0.01..4', c: '0.01..4', p: '0.02..0.4', Mv: '10..50[3]'):
    "P-modulus substitution"
    g = lambda m, x, y: Fluid.Gassmann_approx(m, M0, x, p, y)
    eq(g(g(M, a, b), b, a), M, 'round trip')
    eq(g(g(M, a, b), b, c), g(M, a, c), 'two steps equal one')
    eq(g(g(Mv, a, b), b, a), Mv, 'round trip, arrays')


def ob_gvels(Kd: '4..15', G: '4..20', K0: '36..80', D: '2.5..2.8', a: '0.1..4', b: '0.1..4', ra: '0.1..1.2', rb: '0.1..1.2', p: '0.3..0.4', vp: '3.2..4', vs: '1..1.5', r: '2..2.6', c: '0.1..4', rc: '0.1..1.2', Kv: '4..15[3]', pv: '0.05..0.4[3]'):
    "velocity forms"
    x = Fluid.vels(Kd, G, K0, D, a, ra, p)
    y = Fluid.vels(Kd, G, K0, D, b, rb, p)
    eq(Fluid.Gassmann_vels(x[0]/1000, x[1]/1000, x[2], ra, a, rb, b, K0, p), (y[0]/1000, y[1]/1000), 'substituting in velocities equals modelling each fluid')
    x = Fluid.vels(Kv, G, K0, D, a, ra, pv)
    y = Fluid.vels(Kv, G, K0, D, b, rb, pv)
    eq(Fluid.Gassmann_vels(x[0]/1000, x[1]/1000, x[2], ra, a, rb, b, K0, pv), (y[0]/1000, y[1]/1000), 'arrays')
    g = lambda v, w, d, f1, k1, f2, k2: Fluid.Gassmann_vels(v, w, d, f1, k1, f2, k2, K0 + 20, p)
    v2, w2 = g(vp, vs, r, ra, a, rb, b)
    r2 = r - p*ra + p*rb
    eq(g(v2, w2, r2, rb, b, ra, a), (vp, vs), 'round trip')
    eq(g(v2, w2, r2, rb, b, rc, c), g(vp, vs, r, ra, a, rc, c), 'two steps equal one')
    eq(r2*w2**2, r*vs**2, 'shear modulus is not affected by fluid')
    eq(Fluid.vels(Kd, G, K0, D, a, ra, p)[2], D*(1 - p) + ra*p, 'mass balance')
    k, m = utils.M_from_V(*[Fluid.vels(Kd, G, K0, D, a, ra, p)[i] for i in (2, 0, 1)])
    eq((k, m), Fluid.Gassmann(Kd, G, K0, a, p), 'moduli recovered from the velocities')


def ob_bk(m: '0.02..0.05[3]', o: '-0.01..-0.001[3]', d: '0.05..0.1[3]', q: '-0.004..0.004[3]', K0: '60..80', G0: '20..50', a: '0.5..4', b: '0.5..4', p: '0.05..0.3'):
    "Brown-Korringa with a monoclinic frame"
    S = np.array([[m[0], o[0], o[1], q[0], 0, 0], [o[0], m[1], o[2], q[1], 0, 0], [o[1], o[2], m[2], q[2], 0, 0],
                  [q[0], q[1], q[2], d[0], 0, 0], [0, 0, 0, 0, d[1], 0], [0, 0, 0, 0, 0, d[2]]])
    sat = lambda x, f: Fluid.Brown_Korringa_dry2sat(x, K0, G0, f, p)
    dry = lambda x, f: Fluid.Brown_Korringa_sat2dry(x, K0, G0, f, p)
    eq(dry(sat(S, a), a), S, 'saturate and drain')
    eq(sat(dry(S, a), a), S, 'drain and saturate')
    eq(sat(dry(sat(S, a), a), b), sat(S, b), 'path independent')


def ob_bk_sub(C11: '30..45', C33: '28..40', C13: '6..10', C44: '8..11', C66: '9..12', K0: '60..80', G0: '20..50', a: '0.5..4', b: '0.5..4', c: '0.5..4', p: '0.05..0.3'):
    "Brown-Korringa substitution in stiffness"
    C = vti6(C11, C33, C13, C44, C66)
    f = lambda x, u, v: Fluid.Brown_Korringa_sub(x, K0, G0, u, v, p)
    C2, S2 = f(C, a, b)
    eq(f(C2, b, a)[0], C, 'round trip')
    eq(f(C2, b, c)[0], f(C, a, c)[0], 'two steps equal one')
    eq(S2, Fluid.Brown_Korringa_dry2sat(Fluid.Brown_Korringa_sat2dry(np.linalg.inv(C), K0, G0, a, p), K0, G0, b, p), 'composition of draining and saturating')
    eq(np.linalg.inv(S2), C2, 'stiffness and compliance are inverse')


def ob_bk_iso(Kd: '5..20', Gd: '5..20', K0: '36..80', G0: '20..50', a: '0.5..4', p: '0.05..0.3'):
    "Brown-Korringa of an isotropic frame is Gassmann"
    S = np.linalg.inv(E.iso6(Kd, Gd))
    T = Fluid.Brown_Korringa_dry2sat(S, K0, G0, a, p)
    Ks = Fluid.Gassmann(Kd, Gd, K0, a, p)[0]
    eq(sum([T[i, j] for i in range(3) for j in range(3)]), 1/Ks, 'bulk compliance')
    eq((T[3, 3], T[4, 4], T[5, 5]), (1/Gd, 1/Gd, 1/Gd), 'shear compliance')
    eq(T, np.linalg.inv(E.iso6(Ks, Gd)), 'whole compliance')


def ob_elastic(K: '0.1..300', G: '0.1..250', r: '0.3..8', Kv: '0.1..300[3]', Gv: '0.1..250[3]', rv: '0.3..8[3]', p: '2000..9000', s: '50..1700', pv: '2000..9000[3]', sv: '50..1700[3]'):
    "moduli to velocities and back"
    vp, vs = utils.V(K, G, r)
    eq(utils.M_from_V(r, vp, vs), (K, G), 'moduli')
    vp, vs = utils.V(Kv, Gv, rv)
    eq(utils.M_from_V(rv, vp, vs), (Kv, Gv), 'moduli, arrays')
    k, g = utils.M_from_V(r, p, s)
    eq(utils.V(k, g, r), (p, s), 'velocities')
    k, g = utils.M_from_V(rv, pv, sv)
    eq(utils.V(k, g, rv), (pv, sv), 'velocities, arrays')
    nu = utils.poi(K, G)
    lam = utils.lame(K, G)
    eq(lam/(2*(lam + G)), nu, 'Poisson ratio from Lame parameters')
    eq(3*K*(1 - 2*nu)/(2*(1 + nu)), G, 'shear modulus from Poisson ratio')
    eq(2*G*nu/(1 - 2*nu), lam, 'Lame parameter from Poisson ratio')
    C = utils.write_iso(K, G)
    eq((C[0, 0] - 4*C[3, 3]/3, C[3, 3]), (K, G), 'moduli in the stiffness matrix')
    k, g = utils.M_from_V(r, p, s)
    eq(utils.poi(k, g), (p*p - 2*s*s)/(2*(p*p - s*s)), 'Poisson ratio of velocities')


def ob_vti(C11: '30..60', C33: '28..50', C13: '6..12', C44: '8..12', C66: '8..14', D: '2..3', v: '0.1..1[3]', vp: '3..5[3]', vs: '1..1.5[3]', h: '1..50[3]', den: '2..2.8[3]'):
    "anisotropic conversions"
    C = vti6(C11, C33, C13, C44, C66)
    a, b, q = Anisotropy.vel_azi_VTI(C, D, 0), Anisotropy.vel_azi_VTI(C, D, 90), Anisotropy.vel_azi_VTI(C, D, 45)
    eq(utils.v_to_c_VTI(a[0], q[0], b[0], a[1], b[1], D), C, 'stiffness from directional velocities')
    Z = np.array([0.0, h[0], h[0] + h[1], h[0] + h[1] + h[2]])
    r = Anisotropy.Backus_log(vp, vs, den, Z)
    eq(r[:5], Anisotropy.Backus(h, den*(vp**2 - 2*vs**2), den*vs**2), 'a log is the average of its layers')
    H = hti6(C11, C33, C13, C44, C66)
    x, y = Anisotropy.vel_azi_HTI(H, D, 0), Anisotropy.vel_azi_HTI(H, D, 90)
    eq((D*x[0]**2, D*y[0]**2, D*y[2]**2, D*x[1]**2), (C11, C33, C44, C66), 'HTI stiffness from directional velocities')


def ob_vti_neg(C11: '30..60', C33: '28..50', C13: '-4..15', C44: '8..12', C66: '8..14', D: '2..3'):
    "stiffness from directional velocities, any sign of C13"
    C = vti6(C11, C33, C13, C44, C66)
    a, b, q = Anisotropy.vel_azi_VTI(C, D, 0), Anisotropy.vel_azi_VTI(C, D, 90), Anisotropy.vel_azi_VTI(C, D, 45)
    eq(utils.v_to_c_VTI(a[0], q[0], b[0], a[1], b[1], D), C, 'round trip')


def ob_workflow(Kd: '4..15', G: '4..20', K0: '36..80', D: '2.5..2.8', a: '0.1..4', ra: '0.1..1.2', p: '0.05..0.4'):
    "velocity modelling equals saturation followed by conversion"
    k, g = Fluid.Gassmann(Kd, G, K0, a, p)
    eq(Fluid.vels(Kd, G, K0, D, a, ra, p)[:2], utils.V(k, g, D*(1 - p) + ra*p), 'velocities')
