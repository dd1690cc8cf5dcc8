"""functions documented to return a table: one row per material, one column per porosity or angle"""
import numpy as np
from spec import eq, fact
from rockphypy import EM, AVO
from specs.lib import lens


def hti(C11, C13, C33, C44, C66):
    C23 = C33 - 2*C44
    return np.array([[C11, C13, C13, 0, 0, 0], [C13, C33, C23, 0, 0, 0], [C13, C23, C33, 0, 0, 0],
                     [0, 0, 0, C44, 0, 0], [0, 0, 0, 0, C66, 0], [0, 0, 0, 0, 0, C66]])


def ob_swiss_table(Ks: '5..80[2]', Gs: '5..60[2]', phi: '0.01..0.4[3]'):
    """EM.Swiss_cheese with arrays of minerals: row i is mineral i, column j porosity j"""
    K, G = EM.Swiss_cheese(Ks, Gs, phi)
    fact(K.shape == (2, 3) and G.shape == (2, 3), "one row per mineral")
    for i in range(2):
        k, g = EM.Swiss_cheese(Ks[i], Gs[i], phi)
        eq(K[i], k, "bulk row %d" % i)
        eq(G[i], g, "shear row %d" % i)


def ob_ei_table(Vp: '2000..4000[2]', Vs: '1000..1900[2]', rho: '2..2.6[2]', theta: '1..40[3]', SP: '0.45..0.55'):
    """AVO.EI_ref with logs: row i is sample i, column j angle j (normalisation uses the means of the logs)"""
    r = AVO.EI_ref(Vp, Vs, rho, theta, SP, False)
    for m in range(5):
        fact(r[m].shape == (2, 3), "one row per sample, result %d" % m)
    for i in range(2):
        s = AVO.EI_ref(Vp[i], Vs[i], rho[i], theta, SP, False)
        for m in range(5):
            eq(r[m][i], s[m], "result %d row %d" % (m, i))


def ob_aki_table(p1: '2500..4000[5]', p2: '2800..5000[5]', s1: '900..2000[5]', s2: '900..2500[5]', r1: '1900..2500[5]', r2: '2000..2800[5]', th: '1..40[5]'):
    """AVO.Aki_Richards with layers: row i is interface i, column j angle j, whatever the numbers of both"""
    for n, m in ((1, 1), (1, 3), (3, 1), (3, 3), (2, 2), (2, 5), (5, 2)):
        r = AVO.Aki_Richards(th[:m], p1[:n], p2[:n], s1[:n], s2[:n], r1[:n], r2[:n])
        for i in range(n):
            s = AVO.Aki_Richards(th[:m], p1[i], p2[i], s1[i], s2[i], r1[i], r2[i])
            eq((r[0][i], r[1][i], r[2][i], r[3][i]), (s[0], s[1], [s[2]], [s[3]]), "interface %d of %d, %d angles" % (i, n, m))


def ob_ei_sizes(Vp: '2000..4000[5]', Vs: '1000..1900[5]', rho: '2..2.6[5]', th: '1..40[5]', K: '0.45..0.55'):
    """AVO.EI_ref: row i is sample i, column j angle j, whatever the numbers of both; normalised by the means of the logs"""
    for n, m in ((1, 1), (1, 3), (3, 1), (3, 3), (2, 2), (4, 2), (5, 5)):
        r = AVO.EI_ref(Vp[:n], Vs[:n], rho[:n], th[:m], K, False)
        for i in range(n):
            s = AVO.EI_ref(Vp[i], Vs[i], rho[i], th[:m], K, False)
            eq([x[i] for x in r], [s[0], s[1], s[2], s[3], s[4]], "sample %d of %d, %d angles" % (i, n, m))


def ob_hti_table(th: '1..40[4]', az: '-90..90[4]', D1: '2..2.6', D2: '2..2.8', a11: '25..35', a33: '36..45', a13: '5..9', a44: '11..14', a66: '6..10', b11: '35..45', b33: '46..60', b13: '8..11', b44: '14..20', b66: '8..13'):
    """AVO.AVO_HTI: row i is azimuth i, column j incidence j, whatever the numbers of both"""
    C1 = hti(a11, a13, a33, a44, a66)
    C2 = hti(b11, b13, b33, b44, b66)
    for n, m in ((1, 1), (1, 3), (3, 1), (3, 3), (2, 2), (2, 4), (4, 2)):
        r = AVO.AVO_HTI(D1, D2, C1, C2, th[:m], az[:n])
        fact(r.shape == (n, m), "%d azimuths, %d incidences" % (n, m))
        for i in range(n):
            for j in range(m):
                eq(r[i, j], AVO.AVO_HTI(D1, D2, C1, C2, th[j:j + 1], az[i:i + 1])[0, 0], "azimuth %d of %d, incidence %d of %d" % (i, n, j, m))


def ob_swiss_sizes(Ks: '5..80[4]', Gs: '5..60[4]', phi: '0.01..0.4[4]'):
    """EM.Swiss_cheese: row i is mineral i, column j porosity j, whatever the numbers of both"""
    for n, m in ((1, 3), (3, 3), (2, 2), (4, 2)):
        K, G = EM.Swiss_cheese(Ks[:n], Gs[:n], phi[:m])
        for i in range(n):
            eq((K[i], G[i]), EM.Swiss_cheese(Ks[i], Gs[i], phi[:m]), "mineral %d of %d, %d porosities" % (i, n, m))


def ob_vrh_rows(f: '0.05..0.45[4]', g: '0.02..0.4[4]', a: '1..300', b: '1..300', c: '1..300'):
    """EM.VRH with a table of fractions: one row per sample, one column per phase, whatever the numbers of both"""
    M = np.array([a, b, c])
    for n in (1, 2, 3, 4):
        T = np.array([[f[i], g[i], 1 - f[i] - g[i]] for i in range(n)])
        V, R, H = EM.VRH(T, M)
        for i in range(n):
            eq((V[i], R[i], H[i]), EM.VRH(T[i], M), "row %d of %d" % (i, n))
    T = np.array([[f[i], 1 - f[i]] for i in range(2)])
    V, R, H = EM.VRH(T, M[:2])
    for i in range(2):
        eq((V[i], R[i], H[i]), EM.VRH(T[i], M[:2]), "two phases, row %d" % i)
