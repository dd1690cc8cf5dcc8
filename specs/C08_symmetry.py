"""Stiffness and compliance matrices have the symmetry of their class."""
import numpy as np
from spec import eq
from rockphypy import EM, GM, Fluid, Anisotropy, utils
from specs import ref_avo as R
from specs import ref_em as E
from specs.lib import vti6, hti6, svti6


def shaped(C, label):
    "a 6x6 matrix, symmetric, normal and shear parts uncoupled"
    eq(C.shape, (6, 6), label + ': shape')
    eq([C[i, j] for i in range(6) for j in range(i)], [C[j, i] for i in range(6) for j in range(i)], label + ': symmetric')
    eq([C[i, j] for i in range(6) for j in range(6) if i != j and (i > 2 or j > 2)], [0]*24, label + ': uncoupled')


def vti(C, label):
    shaped(C, label)
    eq((C[1, 1], C[1, 2], C[4, 4]), (C[0, 0], C[0, 2], C[3, 3]), label + ': axis 3')
    eq(C[0, 1], C[0, 0] - 2*C[5, 5], label + ': C12 = C11 - 2 C66')


def hti(C, label):
    shaped(C, label)
    eq((C[2, 2], C[0, 2], C[5, 5]), (C[1, 1], C[0, 1], C[4, 4]), label + ': axis 1')
    eq(C[1, 2], C[1, 1] - 2*C[3, 3], label + ': C23 = C33 - 2 C44')


def iso(C, label):
    vti(C, label)
    hti(C, label)
    eq((C[0, 0], C[3, 3]), (C[2, 2], C[5, 5]), label + ': isotropic')


def svti(S, label):
    "compliance: S66 = 2 (S11 - S12)"
    shaped(S, label)
    eq((S[1, 1], S[1, 2], S[4, 4]), (S[0, 0], S[0, 2], S[3, 3]), label + ': axis 3')
    eq(S[5, 5], 2*(S[0, 0] - S[0, 1]), label + ': S66 = 2 (S11 - S12)')


def ob_writers(C11: '-60..60', C33: '-60..60', C13: '-60..60', C44: '-60..60', C66: '-60..60', C12: '-60..60', C22: '-60..60', C23: '-60..60', C55: '-60..60', K: '0.1..300', G: '0.1..250'):
    "matrix writers"
    vti(utils.write_VTI_matrix(C11, C33, C13, C44, C66), 'write_VTI_matrix')
    hti(utils.write_HTI_matrix(C11, C33, C13, C44, C55), 'write_HTI_matrix')
    svti(utils.write_VTI_compliance(C11, C12, C13, C33, C44), 'write_VTI_compliance')
    shaped(utils.write_matrix(C11, C22, C33, C12, C13, C23, C44, C55, C66), 'write_matrix')
    iso(utils.write_iso(K, G), 'write_iso')


def ob_v_to_c(V0: '3..5', V45: '3.2..5', V90: '3.5..5', S0: '1..2', S90: '1..2.2', den: '0.5..5'):
    "VTI stiffness from directional velocities"
    vti(utils.v_to_c_VTI(V0, V45, V90, S0, S90, den), 'v_to_c_VTI')


def ob_hudson(K: '0.5..300', G: '0.3..250', Ki: '0..60', Gi: '0..50', a: '0.0001..0.999', crd: '0..1'):
    "aligned cracks"
    for order in (1, 2):
        vti(EM.hudson(K, G, Ki, Gi, a, crd, order=order), 'order ' + str(order))
        vti(EM.hudson(K, G, Ki, Gi, a, crd, order=order, axis=3), 'order ' + str(order) + ' axis 3')
        hti(EM.hudson(K, G, Ki, Gi, a, crd, order=order, axis=1), 'order ' + str(order) + ' axis 1')


def ob_ortho(K: '0.5..300', G: '0.3..250', Ki: '0..60', Gi: '0..50', a: '0.0001..0.999[3]', crd: '0..1[3]', x: '0..1', y: '0.0001..0.999'):
    "three perpendicular crack sets"
    shaped(EM.hudson_ortho(K, G, Ki, Gi, a, crd), 'any sets')
    # equal sets normal to 1 and 2: fourfold symmetry about axis 3
    C = EM.hudson_ortho(K, G, Ki, Gi, np.array([y, y, a[2]]), np.array([x, x, crd[2]]))
    eq((C[0, 0], C[0, 2], C[3, 3]), (C[1, 1], C[1, 2], C[4, 4]), 'equal sets 1 and 2')
    C = EM.hudson_ortho(K, G, Ki, Gi, np.array([a[0], y, y]), np.array([crd[0], x, x]))
    eq((C[1, 1], C[0, 1], C[4, 4]), (C[2, 2], C[0, 2], C[5, 5]), 'equal sets 2 and 3')
    C = EM.hudson_ortho(K, G, Ki, Gi, np.array([y, y, y]), np.array([x, x, x]))
    eq((C[0, 0], C[0, 1], C[3, 3], C[0, 2], C[4, 4]), (C[1, 1], C[1, 2], C[4, 4], C[1, 2], C[5, 5]), 'equal sets: cubic')
    vti(EM.hudson_ortho(K, G, Ki, Gi, a, np.array([0, 0, x])), 'one set: axis 3')
    hti(EM.hudson_ortho(K, G, Ki, Gi, a, np.array([x, 0, 0])), 'one set: axis 1')


def ob_cone(K: '0.5..300', G: '0.3..250', Ki: '0.01..60', Gi: '0.01..50', a: '0.0001..0.999', crd: '0.001..1', th: '1..89'):
    "cone of crack normals: transversely isotropic"
    C = EM.hudson_cone(K, G, Ki, Gi, a, crd, th)
    shaped(C, 'cone')
    eq((C[1, 1], C[1, 2], C[4, 4]), (C[0, 0], C[0, 2], C[3, 3]), 'axis 3')
    U3 = E.crack_u(K, G, Ki, Gi, a)[1]
    s = np.sin(R.rad(th))
    eq(C[0, 1] + 2*C[5, 5] - C[0, 0], 0, 'C12 = C11 - 2 C66', dev=-3*crd*G*U3*s**4, finding='F01')
    C0 = EM.hudson_cone(K, G, Ki, Gi, a, crd, 0)
    vti(C0, 'vertical normals')


def ob_eshelby(K: '0.5..300', G: '0.3..250', phi: '0..0.9', a: '0.0001..0.999', Kf: '0..60'):
    "Eshelby-Cheng"
    vti(EM.Eshelby_Cheng(K, G, phi, a, Kf, mat=True), 'matrix')
    v = EM.Eshelby_Cheng(K, G, phi, a, Kf)
    C = EM.Eshelby_Cheng(K, G, phi, a, Kf, mat=True)
    eq((C[0, 0], C[2, 2], C[0, 2], C[3, 3], C[5, 5]), (v[0], v[1], v[2], v[3], v[4]), 'vector holds C11, C33, C13, C44, C66')


def ob_johnson(K0: '20..60', G0: '20..60', n: '4..12', phi: '0.3..0.45', e: '-0.05..-0.001', ea: '-0.1..-0.002'):
    "stress-induced anisotropy of a grain pack"
    for path in ('together', 'uni_iso', 'iso_uni'):
        vti(GM.johnson(K0, G0, n, phi, e, ea, path=path)[0], path)


def ob_bk(a: '0.02..0.05', b: '0.02..0.05', c: '-0.01..-0.001', d: '0.05..0.1', e: '0.05..0.1', K0: '60..80', G0: '20..50', K1: '0.5..4', K2: '0.5..4', phi: '0.05..0.3', x: '0.5..40', g: '1..40'):
    "Brown-Korringa keeps the symmetry of the frame"
    S = svti6(a, b, c, d, e)
    svti(Fluid.Brown_Korringa_dry2sat(S, K0, G0, K1, phi), 'dry to saturated')
    svti(Fluid.Brown_Korringa_sat2dry(S, K0, G0, K1, phi), 'saturated to dry')
    C2, S2 = Fluid.Brown_Korringa_sub(vti6(30 + x/8, 30 + g/8, 9, 9, 10), K0, G0, K1, K2, phi)
    vti(C2, 'substitution, stiffness')
    svti(S2, 'substitution, compliance')
    J = svti6(a, a, (a - d/2), d, d)
    T = Fluid.Brown_Korringa_dry2sat(J, K0, G0, K1, phi)
    svti(T, 'isotropic frame')
    eq((T[2, 2], T[3, 3], T[0, 1]), (T[0, 0], T[5, 5], T[0, 2]), 'isotropic frame stays isotropic')
    # a frame whose symmetry axis lies along 1
    H = hti6(b, a, c, e, d)
    W = Fluid.Brown_Korringa_dry2sat(H, K0, G0, K1, phi)
    shaped(W, 'horizontal axis')
    eq((W[2, 2], W[0, 2], W[5, 5]), (W[1, 1], W[0, 1], W[4, 4]), 'horizontal axis')


def ob_bk_full(m: '0.02..0.05[3]', o: '-0.01..-0.001[3]', d: '0.05..0.1[3]', q: '-0.004..0.004[3]', K0: '60..80', G0: '20..50', K1: '0.5..4', phi: '0.05..0.3'):
    "Brown-Korringa with a monoclinic frame stays symmetric"
    S = np.array([[m[0], o[0], o[1], q[0], 0, 0], [o[0], m[1], o[2], q[1], 0, 0], [o[1], o[2], m[2], q[2], 0, 0],
                  [q[0], q[1], q[2], d[0], 0, 0], [0, 0, 0, 0, d[1], 0], [0, 0, 0, 0, 0, d[2]]])
    for T in (Fluid.Brown_Korringa_dry2sat(S, K0, G0, K1, phi), Fluid.Brown_Korringa_sat2dry(S, K0, G0, K1, phi)):
        eq(T, T.T, 'symmetric')
        eq([T[i, j] for i in range(4) for j in (4, 5)], [0]*8, 'mirror plane kept')


def ob_bond(C11: '25..60', C33: '30..60', C13: '5..14', C44: '5..12', C66: '5..12', C12: '5..14', C22: '30..60', C23: '5..12', C55: '5..12', K: '20..60', G: '10..40', th: '1..89'):
    "rotations keep symmetry and invariants"
    C = np.array([[C11, C12, C13, 0, 0, 0], [C12, C22, C23, 0, 0, 0], [C13, C23, C33, 0, 0, 0],
                  [0, 0, 0, C44, 0, 0], [0, 0, 0, 0, C55, 0], [0, 0, 0, 0, 0, C66]])
    I = np.array([[K + 4*G/3, K - 2*G/3, K - 2*G/3, 0, 0, 0], [K - 2*G/3, K + 4*G/3, K - 2*G/3, 0, 0, 0],
                  [K - 2*G/3, K - 2*G/3, K + 4*G/3, 0, 0, 0], [0, 0, 0, G, 0, 0], [0, 0, 0, 0, G, 0], [0, 0, 0, 0, 0, G]])
    for ax in (3, 1):
        T = Anisotropy.Bond_trans(C, th, axis=ax)
        eq(T.shape, (6, 6), 'shape')
        eq(T, T.T, 'symmetric')
        z = [(i, j) for i in range(6) for j in range(6)]
        odd = (3, 4) if ax == 3 else (4, 5)
        eq([T[i, j] for i, j in z if (i in odd) != (j in odd)], [0]*16, 'mirror plane normal to the axis')
        k = 2 if ax == 3 else 0
        eq(T[k, k], C[k, k], 'stiffness along the axis')
        D = R.bond(C, th, ax, 1)
        inv = lambda T: sum([T[i, j] for i in range(3) for j in range(3)])
        eq(inv(T), inv(C), 'bulk invariant', dev=inv(D), finding='F07')
        tr = lambda T: T[0, 0] + T[1, 1] + T[2, 2] + 2*(T[3, 3] + T[4, 4] + T[5, 5])
        eq(tr(T), tr(C), 'trace invariant', dev=tr(D), finding='F07')
        eq(Anisotropy.Bond_trans(I, th, axis=ax), I, 'isotropic stays isotropic', dev=R.bond(I, th, ax, 1), finding='F07')
    V = vti6(C11, C33, C13, C44, C66)
    eq(Anisotropy.Bond_trans(V, th, axis=3), V, 'VTI is invariant about its axis', dev=R.bond(V, th, 3, 1), finding='F07')
    H = hti6(C33, C11, C13, C66, C44)
    eq(Anisotropy.Bond_trans(H, th, axis=1), H, 'HTI is invariant about its axis', dev=R.bond(H, th, 1, 1), finding='F07')
