"""Fluid substitution and dispersion models against the published equations."""
import numpy as np
from spec import eq
from rockphypy import Fluid
from specs import ref_fluid as R
from specs.lib import each


def ob_brie(Kw: '1.5..4', Kg: '0.01..0.5', S: '0..1', e: '1..40', Sv: '0..1[3]'):
    "Brie mixing law"
    b = lambda s: Kg + (Kw - Kg)*s**e
    eq(Fluid.Brie(Kw, Kg, S, e), b(S), 'scalar')
    eq(Fluid.Brie(Kw, Kg, Sv, e), each(b, 3, Sv), 'array')
    eq(Fluid.Brie(Kw, Kg, S, 3), Kg + (Kw - Kg)*S*S*S, 'integer exponent')


def ob_biot_mid(Kd: '1..30', Gd: '1..30', K0: '31..120', Kf: '0.01..5', r0: '2..4', rf: '0.05..2', phi: '0.01..0.6', al: '1..10', fv: '0.2..1000[2]'):
    "Biot dispersion, Bessel range of the viscodynamic operator"
    r = lambda f: R.biot(Kd, Gd, K0, Kf, r0, rf, 1, phi, 1, 1, al, f, 'mid')
    eq(Fluid.Biot(Kd, Gd, K0, Kf, r0, rf, 1, phi, 1, 1, al, fv), each(r, 2, fv), 'all outputs', tol=1e-7)
    eq(Fluid.Biot(Kd, Gd, K0, Kf, r0, rf, 1, phi, 1, 1, al, fv[0]), each(r, 1, fv), 'one frequency', tol=1e-7)


def ob_biot_mid2(Kd: '1..30', Gd: '1..30', K0: '31..120', Kf: '0.01..5', r0: '2..4', rf: '0.9..1.1', eta: '0.01..5', phi: '0.01..0.6', kap: '0.01..5', a: '0.5..2', al: '1..10', fv: '1..3[2]'):
    "Biot dispersion, all parameters symbolic"
    r = lambda f: R.biot(Kd, Gd, K0, Kf, r0, rf, eta, phi, kap, a, al, f, 'mid')
    eq(Fluid.Biot(Kd, Gd, K0, Kf, r0, rf, eta, phi, kap, a, al, fv), each(r, 2, fv), 'all outputs', tol=1e-7)
    eq(Fluid.Biot(Kd, Gd, K0, Kf, r0, rf, eta, phi, kap, a, al, fv[0]), each(r, 1, fv), 'one frequency', tol=1e-7)


def ob_biot_high(Kd: '1..30', Gd: '1..30', K0: '31..120', Kf: '0.01..5', r0: '2..4', rf: '0.05..2', eta: '0.00001..0.0001', phi: '0.01..0.6', kap: '0.01..5', a: '1..2', al: '1..10', fv: '1000..3000[2]'):
    "Biot dispersion, high-frequency asymptote of the operator"
    r = lambda f: R.biot(Kd, Gd, K0, Kf, r0, rf, eta, phi, kap, a, al, f, 'high')
    eq(Fluid.Biot(Kd, Gd, K0, Kf, r0, rf, eta, phi, kap, a, al, fv), each(r, 2, fv), 'all outputs', tol=1e-7)
    eq(Fluid.Biot(Kd, Gd, K0, Kf, r0, rf, eta, phi, kap, a, al, fv[0]), each(r, 1, fv), 'one frequency', tol=1e-7)


def ob_biot_low(Kd: '1..30', Gd: '1..30', K0: '31..120', Kf: '0.01..5', r0: '2..4', rf: '0.05..2', eta: '1..10', phi: '0.01..0.6', kap: '0.01..5', a: '0.01..0.02', al: '1..10', fv: '0.1..1[2]'):
    "Biot dispersion, low-frequency limit of the operator"
    r = lambda f: R.biot(Kd, Gd, K0, Kf, r0, rf, eta, phi, kap, a, al, f, 'low')
    eq(Fluid.Biot(Kd, Gd, K0, Kf, r0, rf, eta, phi, kap, a, al, fv), each(r, 2, fv), 'all outputs', tol=1e-7)
    eq(Fluid.Biot(Kd, Gd, K0, Kf, r0, rf, eta, phi, kap, a, al, fv[0]), each(r, 1, fv), 'one frequency', tol=1e-7)


def ob_biot_hf(Kd: '1..30', Gd: '1..30', K0: '31..120', Kf: '0.01..5', r0: '2..4', rf: '0.05..2', phi: '0.01..0.6', al: '1..10', Kv: '1..30[3]', Gv: '1..30[3]'):
    "Biot high-frequency velocities"
    eq(Fluid.Biot_HF(Kd, Gd, K0, Kf, r0, rf, phi, al), R.biot_hf(Kd, Gd, K0, Kf, r0, rf, phi, al), 'scalar')
    eq(Fluid.Biot_HF(Kv, Gv, K0, Kf, r0, rf, phi, al), each(lambda k, g: R.biot_hf(k, g, K0, Kf, r0, rf, phi, al), 3, Kv, Gv), 'array')


def ob_gs_hf(Kd: '1..30', Gd: '1..30', K0: '31..120', Kf: '0.01..5', r0: '2..4', rf: '0.05..2', phi: '0.01..0.6', al: '1..10', Kv: '1..30[3]', Gv: '1..30[3]'):
    "Geertsma-Smit high-frequency approximation"
    eq(Fluid.Geertsma_Smit_HF(Kd, Gd, K0, Kf, r0, rf, phi, al), R.gs_hf(Kd, Gd, K0, Kf, r0, rf, phi, al), 'scalar')
    eq(Fluid.Geertsma_Smit_HF(Kv, Gv, K0, Kf, r0, rf, phi, al), each(lambda k, g: R.gs_hf(k, g, K0, Kf, r0, rf, phi, al), 3, Kv, Gv), 'array')


def ob_gs_lf(V0: '2..4', Vi: '2..5', f: '1..1000', phi: '0.01..0.7', rf: '0.5..1.2', kap: '0.1..3', eta: '0.1..3', fv: '1..1000[3]'):
    "Geertsma-Smit low and middle frequency approximation"
    eq(Fluid.Geertsma_Smit_LF(V0, Vi, f, phi, rf, kap, eta), R.gs_lf(V0, Vi, f, phi, rf, kap, eta), 'scalar')
    eq(Fluid.Geertsma_Smit_LF(V0, Vi, fv, phi, rf, kap, eta), each(lambda x: R.gs_lf(V0, Vi, x, phi, rf, kap, eta), 3, fv), 'array')


def ob_gs_lf_slow(V0: '2..4', Vi: '2..5', f: '0.000001..0.001', phi: '0.01..0.7', rf: '0.5..1.2', kap: '0.1..3', eta: '0.1..3', g: '1000000..1000000000'):
    "Geertsma-Smit far below and above the reference frequency"
    eq(Fluid.Geertsma_Smit_LF(V0, Vi, f, phi, rf, kap, eta), R.gs_lf(V0, Vi, f, phi, rf, kap, eta), 'low')
    eq(Fluid.Geertsma_Smit_LF(V0, Vi, g, phi, rf, kap, eta), R.gs_lf(V0, Vi, g, phi, rf, kap, eta), 'high')


def ob_gassmann(Kd: '1..30', G: '0..40', K0: '31..80', Kf: '0.01..4', phi: '0.01..0.5', Kv: '1..30[3]', Gv: '1..40[3]', pv: '0.01..0.5[3]'):
    "Gassmann, compressibility-ratio form"
    r = lambda k, g, p: (R.gassmann(k, K0, Kf, p), g)
    eq(Fluid.Gassmann(Kd, G, K0, Kf, phi), r(Kd, G, phi), 'scalar')
    eq(Fluid.Gassmann(Kv, Gv, K0, Kf, pv), each(r, 3, Kv, Gv, pv), 'arrays')
    eq(Fluid.Gassmann(Kd, G, K0, Kf, pv)[0], each(lambda p: R.gassmann(Kd, K0, Kf, p), 3, pv), 'porosity array')
    eq(Fluid.Gassmann(Kv, Gv, K0, Kf, phi), each(r, 3, Kv, Gv, phi), 'moduli arrays')


def ob_gassmann_sub(phi: '0.01..0.5', K0: '31..80', Ks: '5..30', f1: '0.01..4', f2: '0.01..4', pv: '0.01..0.5[3]', Kv: '5..30[3]'):
    "Gassmann substitution of one fluid by another"
    eq(Fluid.Gassmann_sub(phi, K0, Ks, f1, f2), R.sub(phi, K0, Ks, f1, f2), 'scalar')
    eq(Fluid.Gassmann_sub(pv, K0, Kv, f1, f2), each(lambda p, k: R.sub(p, K0, k, f1, f2), 3, pv, Kv), 'arrays')


def ob_gassmann_approx(Ms: '10..50', M0: '60..120', f1: '0.01..4', phi: '0.02..0.4', f2: '0.01..4', Mv: '10..50[3]'):
    "substitution with the P-wave modulus only"
    eq(Fluid.Gassmann_approx(Ms, M0, f1, phi, f2), R.sub(phi, M0, Ms, f1, f2), 'scalar')
    eq(Fluid.Gassmann_approx(Mv, M0, f1, phi, f2), each(lambda m: R.sub(phi, M0, m, f1, f2), 3, Mv), 'array')


def ob_vels(Kd: '1..30', G: '1..40', K0: '31..80', D0: '2.4..3', Kf: '0.01..4', Df: '0.1..1.2', phi: '0.01..0.5', pv: '0.01..0.5[3]', Kv: '1..30[3]', Gv: '1..40[3]'):
    "saturated velocities and density"
    def r(k, g, p):
        rho = (1 - p)*D0 + p*Df
        a, b = R.vel(R.gassmann(k, K0, Kf, p), g, rho)
        return a, b, rho
    eq(Fluid.vels(Kd, G, K0, D0, Kf, Df, phi), r(Kd, G, phi), 'scalar')
    eq(Fluid.vels(Kv, Gv, K0, D0, Kf, Df, pv), each(r, 3, Kv, Gv, pv), 'arrays')


def ob_gassmann_vels(Vp: '2.9..4', Vs: '1..2', r1: '2..2.6', rf1: '0.1..1.2', f1: '0.01..4', rf2: '0.1..1.2', f2: '0.01..4', K0: '45..80', phi: '0.02..0.4', Vv: '2.9..4[3]', Sv: '1..2[3]', pv: '0.02..0.4[3]'):
    "substitution from velocities"
    def r(a, b, p):
        G = r1*b**2
        K = R.sub(p, K0, r1*a**2 - 4*G/3, f1, f2)
        rho = r1 + p*(rf2 - rf1)
        return np.sqrt((K + 4*G/3)/rho), np.sqrt(G/rho)
    eq(Fluid.Gassmann_vels(Vp, Vs, r1, rf1, f1, rf2, f2, K0, phi), r(Vp, Vs, phi), 'scalar')
    eq(Fluid.Gassmann_vels(Vv, Sv, r1, rf1, f1, rf2, f2, K0, pv), each(r, 3, Vv, Sv, pv), 'arrays')


def tri(S11: 'x', S12, S13, S33, S44, S15, S26, S34, S55, S66, S22):
    """a compliance without symmetry assumptions beyond S = S^T"""
    return np.array([[S11, S12, S13, 0, S15, 0], [S12, S22, S12, 0, 0, S26], [S13, S12, S33, S34, 0, 0],
                     [0, 0, S34, S44, 0, 0], [S15, 0, 0, 0, S55, 0], [0, S26, 0, 0, 0, S66]])


def ob_bk(S11: '0.05..0.08', S22: '0.04..0.07', S33: '0.05..0.09', S12: '-0.01..-0.001', S13: '-0.01..-0.001', S44: '0.08..0.2', S55: '0.08..0.2', S66: '0.08..0.2', S15: '-0.003..0.003', S26: '-0.003..0.003', S34: '-0.003..0.003', K0: '30..80', G0: '20..50', Kf: '0.01..4', phi: '0.02..0.4'):
    "Brown-Korringa dry to saturated and saturated to dry"
    S = tri(S11, S12, S13, S33, S44, S15, S26, S34, S55, S66, S22)
    eq(Fluid.Brown_Korringa_dry2sat(S, K0, G0, Kf, phi), R.bk_dry2sat(S, K0, G0, Kf, phi), 'dry to saturated')
    eq(Fluid.Brown_Korringa_sat2dry(S, K0, G0, Kf, phi), R.bk_sat2dry(S, K0, G0, Kf, phi), 'saturated to dry')


def ob_bk_sub(C11: '40..60', C33: '35..55', C13: '8..14', C44: '10..20', C66: '10..20', K0: '30..80', G0: '20..50', f1: '0.5..4', f2: '0.5..4', phi: '0.05..0.3'):
    "Brown-Korringa substitution"
    C12 = C11 - 2*C66
    C = np.array([[C11, C12, C13, 0, 0, 0], [C12, C11, C13, 0, 0, 0], [C13, C13, C33, 0, 0, 0], [0, 0, 0, C44, 0, 0], [0, 0, 0, 0, C44, 0], [0, 0, 0, 0, 0, C66]])
    Sd = R.bk_sat2dry(np.linalg.inv(C), K0, G0, f1, phi)
    S2 = R.bk_dry2sat(Sd, K0, G0, f2, phi)
    C2, T2 = Fluid.Brown_Korringa_sub(C, K0, G0, f1, f2, phi)
    eq(T2, S2, 'compliance')
    eq(C2, np.linalg.inv(S2), 'stiffness')


def ob_mj(Vph: '4500..5500', Vsh: '2800..3200', Vp: '3000..4400[3]', Vs: '1800..2600[3]', K0: '70..90', rd: '2..2.5', rf: '0.5..1.2', Kf: '0.1..4', phi: '0.02..0.3', a: '3000..4400', b: '1800..2600'):
    "Mavko-Jizba squirt"
    r = lambda x, y: R.mavko_jizba(Vph, Vsh, x, y, K0, rd, rf, Kf, phi)
    g = Fluid.Mavko_Jizba(Vph, Vsh, Vp, Vs, K0, rd, rf, Kf, phi)
    w = each(r, 3, Vp, Vs)
    eq(g[0], w[0][0], 'bulk modulus')
    eq(g[1:], w[1:], 'shear modulus and velocities')
    eq(Fluid.Mavko_Jizba(Vph, Vsh, a, b, K0, rd, rf, Kf, phi), r(a, b), 'scalars')


def ob_squirt(S: '0.02..0.1[5]', H: '0.005..0.019[5]'):
    "anisotropic squirt compliances"
    eq(Fluid.Squirt_anisotropic(S, H), R.squirt(S, H), 'arrays')
    eq(Fluid.Squirt_anisotropic([x for x in S], [x for x in H]), R.squirt(S, H), 'lists')


def ob_white(Kd: '5..10', Gd: '5..10', K0: '31..120', phi: '0.2..0.3', r0: '2.5..2.7', rf1: '0.05..0.2', rf2: '0.9..1.1', f1: '0.05..0.2', f2: '2..3', e1: '0.01..0.6', e2: '0.8..1.2', kap: '0.8..1.2', a: '0.8..1.2', sg: '0.1..0.6', fv: '0.05..0.3[2]', f: '0.05..0.3'):
    "White-Dutta-Ode patchy saturation"
    r = lambda x: R.white(Kd, Gd, K0, phi, r0, rf1, rf2, f1, f2, e1, e2, kap, a, sg, x)
    eq(Fluid.White_Dutta_Ode(Kd, Gd, K0, phi, r0, rf1, rf2, f1, f2, e1, e2, kap, a, sg, f), r(f), 'scalar', tol=1e-7)
    eq(Fluid.White_Dutta_Ode(Kd, Gd, K0, phi, r0, rf1, rf2, f1, f2, e1, e2, kap, a, sg, fv), each(r, 2, fv), 'array', tol=1e-7)


def ob_white_si(Kd: '2e9..12e9', Gd: '2e9..12e9', K0: '31e9..60e9', phi: '0.1..0.35', r0: '2500..2700', rf1: '50..300', rf2: '700..1100', f1: '1e7..2e8', f2: '1e9..3e9', e1: '1e-5..3e-5', e2: '5e-4..2e-3', kap: '1e-15..2e-12', a: '0.05..1', sg: '0.01..0.95', f: '0.5..2000', u: '1..1'):
    "White-Dutta-Ode patchy saturation, SI units"
    r = lambda x, s: R.white(Kd, Gd, K0, phi, r0, rf1, rf2, f1, f2, e1, e2, kap, a, s, x)
    eq(Fluid.White_Dutta_Ode(Kd, Gd, K0, phi, r0, rf1, rf2, f1, f2, e1, e2, kap, a, sg, f), r(f, sg), 'scalar', tol=1e-7)
    eq(Fluid.White_Dutta_Ode(Kd, Gd, K0, phi, r0, rf1, rf2, f1, f2, e1, e2, kap, a, u, f), r(f, u), 'full saturation', tol=1e-7)
