"""Quantitative-interpretation workflows compose the models as the theory prescribes."""
import numpy as np
from spec import eq, fact, drawn
from rockphypy import QI
from specs import ref_qi as R
from specs.lib import each


def ob_matrix(vsh: '0.02..0.3', pc: '0.38..0.42', p: '0.02..0.3', a: '5..25', b: '30..40', c: '30..80', pv: '0.02..0.3[3]', da: '2.3..2.6', db: '2.6..2.7', dc: '2.6..2.9'):
    "matrix moduli and density during cementation"
    eq(QI.matrix_modulus(vsh, pc, p, a, b, c), [R.matrix(vsh, pc, p, a, b, c)], 'shaly, one porosity')
    eq(QI.matrix_modulus(vsh, pc, pv, a, b, c), each(lambda q: R.matrix(vsh, pc, q, a, b, c), 3, pv), 'shaly')
    eq(QI.matrix_modulus(0, pc, pv, a, b, c), each(lambda q: R.matrix(0, pc, q, a, b, c), 3, pv), 'clean')
    eq(QI.den_matrix(vsh, pc, pv, da, db, dc), each(lambda q: R.matden(vsh, pc, q, da, db, dc), 3, pv), 'density')
    eq(QI.den_matrix(0, pc, pv, da, db, dc), each(lambda q: R.matden(0, pc, q, da, db, dc), 3, pv), 'density, clean')


def ob_screening(Dq: '2.6..2.7', Kq: '35..40', Gq: '40..45', Ds: '2.3..2.6', Ks: '15..25', Gs: '6..10', Dc: '2.6..2.8', Kc: '35..40', Gc: '40..45', Db: '0.9..1.1', Kb: '2..3', sg: '5..40', vsh: '0.02..0.3', f: '0..1', Cn: '6..9'):
    "elastic bounds: porosity grid, three lines, validity masks"
    for scheme in (1, 2):
        phi, p1, p2, p3, s1, s2, s3 = QI.screening(Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, 0.3, 0.4, sg, vsh, scheme, f, Cn)
        fact(phi.shape == (100,), 'hundred porosities')
        K0, G0 = R.solid(vsh, Ks, Kq), R.solid(vsh, Gs, Gq)
        D0 = vsh*Ds + (1 - vsh)*Dq
        for j in (0, 1, 37, 74, 75, 76, 98):
            q = 1e-7 + j*(0.4 - 1e-7)/99
            eq(phi[j], q, 'porosity grid')
            a = R.soft_line(K0, G0, D0, Kb, Db, q, 0.4, Cn, sg, f)
            eq((p1[j], s1[j]), a, 'friable sand line')
            if q < 0.3:
                eq((p3[j], s3[j]), (np.nan, np.nan), 'contact cement masked below its range')
                eq((p2[j], s2[j]), R.inc_line(K0, G0, D0, Kc, Gc, Kb, Db, q, 0.3, 0.4, Cn, scheme), 'increasing cement line')
            else:
                Km, Dm = R.matrix(vsh, 0.4, q, Ks, Kq, Kc), R.matden(vsh, 0.4, q, Ds, Dq, Dc)
                eq((p3[j], s3[j]), R.cem_line(K0, G0, Kc, Gc, Km, Dm, Kb, Db, q, 0.4, Cn, scheme), 'contact cement line')
                eq((p2[j], s2[j]), (np.nan, np.nan), 'increasing cement masked above its range')


def ob_const(K0: '25..40', G0: '20..45', D0: '2.5..2.7', Kc: '35..40', Gc: '40..45', Db: '0.9..1.1', Kb: '2..3', vsh: '0.02..0.3', Cn: '6..9', Ds: '2.3..2.6', Dq: '2.6..2.7', Dc: '2.6..2.8', a: '0.02..0.29', b: '0.31..0.38'):
    "constant cement velocities and their mask"
    pv = np.array([a, b, 0.3])
    D = R.matden(vsh, 0.4, 0.3, Ds, Dq, Dc)
    for scheme in (1, 2):
        vp, vs = QI.cst_vels(0.3, K0, D0, G0, pv, 0.4, Cn, Kc, Gc, Db, Kb, scheme, vsh, Ds, Dq, Dc)
        for j, q in ((0, a), (2, 0.3)):
            eq((vp[j], vs[j]), R.const_line(0.3, K0, G0, D, Kc, Gc, Kb, Db, q, 0.4, Cn, scheme), 'velocities')
        eq((vp[1], vs[1]), (np.nan, np.nan), 'masked above the cemented porosity')


def ob_cal(Dq: '2.6..2.7', Kq: '35..40', Gq: '40..45', Ds: '2.3..2.6', Ks: '15..25', Gs: '6..10', Dc: '2.6..2.8', Kc: '35..40', Gc: '40..45', Db: '0.9..1.1', Kb: '2..3', vsh: '0.02..0.3', pb: '0.25..0.35', pc: '0.38..0.42', pv: '0.02..0.24[3]', Cn: '6..9'):
    "constant cement velocities of real data"
    K0, G0 = R.solid(vsh, Ks, Kq), R.solid(vsh, Gs, Gq)
    D0 = vsh*Ds + (1 - vsh)*Dq
    for scheme in (1, 2):
        eq(QI.cal_v_const(Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, pb, pc, vsh, pv, scheme),
           each(lambda q: R.const_line(pb, K0, G0, D0, Kc, Gc, Kb, Db, q, pc, 20 - 34*pc + 14*pc*pc, scheme), 3, pv), 'Murphy coordination number')
        eq(QI.cal_v_const(Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, pb, pc, vsh, pv, scheme, Cn),
           each(lambda q: R.const_line(pb, K0, G0, D0, Kc, Gc, Kb, Db, q, pc, Cn, scheme), 3, pv), 'given coordination number')


def ob_normalize(d: '0.1..5[2,3]'):
    "density map scaled by its maximum"
    m = d.max()
    eq(QI.normalize(d), [[d[i, j]/m for j in range(3)] for i in range(2)], 'scaled')


def rock(scheme, phi, vc, Cn):
    return QI.cal_v_const(2.65, 37, 44, 2.55, 21, 7, 2.7, 38, 43, 1.05, 2.6, 0.4 - vc, 0.4, 0.1, phi, scheme, Cn)[0]


def ob_estimate(t: '0.0005..0.9995', u: '0.0005..0.9995', lo: '100..1000', hi: '8000..9000'):
    "cement estimate: interpolation between neighbouring constant-cement lines, clamped at the first and last"
    phi = np.array([0.2, 0.12, 0.15, 0.22, 0.2])
    for scheme, Cn, sd in ((2, 8.5, [0.01, 0.03, 0.06, 0.12]), (1, 7.0, [0.01, 0.02, 0.03, 0.05])):
        for seeds in (np.array(sd), sd):
            L = [rock(scheme, phi, s, Cn) for s in sd]
            V = [L[0][0] + t*(L[1][0] - L[0][0]), L[2][1] + u*(L[3][1] - L[2][1]), lo, hi, L[2][4]]
            q = QI(np.array(V), phi)
            r = q.estimate_cem(seeds, 37, 44, 21, 7, 0.4, Cn, 38, 43, 1.05, 2.6, scheme, 0.1, 2.55, 2.65, 2.7)
            eq(r, [sd[0] + t*(sd[1] - sd[0]), sd[2] + u*(sd[3] - sd[2]), 0, sd[3], sd[2]], 'estimates', tol=1e-7)


def ob_estimate_near(d: '0.001..0.9', e: '0.001..0.9'):
    "cement estimate of samples within a metre per second of a line"
    phi = np.array([0.2, 0.12, 0.15, 0.2, 0.12])
    for scheme, Cn, sd in ((2, 8.5, [0.01, 0.03, 0.06, 0.12]), (1, 7.0, [0.01, 0.02, 0.03, 0.05])):
        L = [rock(scheme, phi, s, Cn) for s in sd]
        V = [L[0][0] + d, L[1][1] - d, L[2][2] + e, L[3][3] - e, L[2][4] - d]
        r = QI(np.array(V), phi).estimate_cem(np.array(sd), 37, 44, 21, 7, 0.4, Cn, 38, 43, 1.05, 2.6, scheme, 0.1, 2.55, 2.65, 2.7)
        eq(r, [sd[i] + (V[k] - L[i][k])/(L[i+1][k] - L[i][k])*(sd[i+1] - sd[i]) for k, i in ((0, 0), (1, 0), (2, 2), (3, 2), (4, 1))], 'estimates', tol=1e-7)
        r = QI(np.array([L[0][0] - d, L[3][1] + e]), phi[:2]).estimate_cem(np.array(sd), 37, 44, 21, 7, 0.4, Cn, 38, 43, 1.05, 2.6, scheme, 0.1, 2.55, 2.65, 2.7)
        eq(r, [0, sd[3]], 'just outside the lines', tol=1e-7)


def ob_estimate_fine(t: '0.01..0.99', u: '0.01..0.99'):
    "cement estimate between closely spaced lines, and among many lines"
    phi = np.array([0.2, 0.12, 0.15])
    for scheme, Cn, sd in ((2, 8.5, [0.02, 0.0203, 0.0206, 0.05]), (1, 7.0, [0.01, 0.0104, 0.03, 0.0302]), (2, 8.5, [0.004*k for k in range(1, 27)])):
        n = len(sd) - 1
        L = [rock(scheme, phi, s, Cn) for s in sd]
        V = [L[0][0] + t*(L[1][0] - L[0][0]), L[n-1][1] + u*(L[n][1] - L[n-1][1]), L[1][2] + t*(L[2][2] - L[1][2])]
        r = QI(np.array(V), phi).estimate_cem(np.array(sd), 37, 44, 21, 7, 0.4, Cn, 38, 43, 1.05, 2.6, scheme, 0.1, 2.55, 2.65, 2.7)
        eq(r, [sd[0] + t*(sd[1] - sd[0]), sd[n-1] + u*(sd[n] - sd[n-1]), sd[1] + t*(sd[2] - sd[1])], 'estimates', tol=1e-7)


def ob_estimate_on(x: '0.05..0.2', y: '0.05..0.2', z: '0.05..0.2'):
    "cement estimate of samples exactly on a line"
    phi = np.array([x, y, z])
    for scheme, Cn, sd in ((2, 8.5, [0.01, 0.03, 0.06, 0.12]), (1, 7.0, [0.01, 0.02, 0.03, 0.05])):
        L = [rock(scheme, phi, s, Cn) for s in sd]
        for i in range(4):
            q = QI(np.array([L[i][0], L[3][1], L[0][2]]), phi)
            r = q.estimate_cem(np.array(sd), 37, 44, 21, 7, 0.4, Cn, 38, 43, 1.05, 2.6, scheme, 0.1, 2.55, 2.65, 2.7)
            eq(r, [0 if i == 0 else sd[i], sd[3], 0], 'line %d, last line, first line' % i, tol=1e-7)


def ob_data(V: '1000..6000[4]', S: '500..3000[4]', q: '0.01..0.4[4]', sh: '0..1[4]', d: '1.8..2.7[4]', e: '1..80[4]', t: '500..5000[4]'):
    "the object carries the data it was given"
    z = QI(V, q, Vsh=sh, Vs=S, den=d, eff_stress=e, TVD=t)
    eq((z.Vp, z.phi, z.Vsh, z.Vs, z.den, z.eff_stress, z.TVD), (V, q, sh, S, d, e, t), 'samples by their names')
    y = QI(phi=q, Vp=V, TVD=t)
    eq((y.Vp, y.phi, y.TVD), (V, q, t), 'keyword construction')
    fact(y.Vsh is None and y.Vs is None and y.den is None and y.eff_stress is None, 'absent samples are None')
    eq((z.Vp, z.phi, z.Vsh, z.Vs, z.den, z.eff_stress, z.TVD), (V, q, sh, S, d, e, t), 'another object leaves them alone')


def ob_plots(p: '0..0.4[3]', a: '1000..6000[3]', b: '1000..6000[3]', c: '1000..6000[3]', V: '1000..6000[4]', S: '500..3000[4]', q: '0.01..0.4[4]', sh: '0..1[4]'):
    "crossplots show the given lines and the given samples"
    z = QI(V, q, Vsh=sh, Vs=S)
    z.screening_plot(p, a, b, c)
    for nm, v in (('friable', a), ('increasing cement', b), ('contact cement', c)):
        drawn('plot', 'screening: ' + nm, p, v)
    drawn('scatter', 'screening: samples coloured by sand fraction', q, V, c=1 - sh)
    z.screening_plot(p, a, b, c, 'viridis')
    drawn('scatter', 'screening: requested colour map', q, V, cmap='viridis')


def ob_kde(p: '0..0.4[3]', a: '1000..6000[3]', b: '1000..6000[3]', c: '1000..6000[3]', V: '1000..6000[4]', S: '500..3000[4]', q: '0.01..0.4[4]'):
    "density plot of the samples in the bounds"
    z = QI(V, q, Vs=S)
    z.kde_plot(p, a, b, c)
    for nm, v in (('friable', a), ('increasing cement', b), ('contact cement', c)):
        drawn('plot', 'kde: ' + nm, p, v)
    drawn('kde2d', 'density of porosity and Vp by default, 64 cells', q, V, n=64)


def ob_kde_map(p: '0..0.4[3]', a: '1000..6000[3]', b: '1000..6000[3]', c: '1000..6000[3]', V: '1000..6000[4]', S: '500..3000[4]', q: '0.01..0.4[4]'):
    "the map drawn is the estimated density, porosity across and velocity up, relative to its maximum with the negligible part cleared"
    from kde_diffusion import kde2d
    for vels, w in (('Vp', V), ('Vs', S)):
        z = QI(V, q, Vs=S)
        z.kde_plot(p, a, b, c, 'viridis', vels, 4)
        d, g, h = kde2d(q, w, n=4, limits=None)
        r = d/np.max(d)
        r = np.where(r < 0.0001, 0, r)
        m = np.array([[r[i, j] for i in range(4)] for j in range(4)])
        drawn('pcolormesh', vels + ': map', g[0], g[1], m)
        drawn('contour', vels + ': contours', g[0], g[1], m)


def ob_kde_vs(p: '0..0.4[3]', a: '1000..6000[3]', b: '1000..6000[3]', c: '1000..6000[3]', V: '1000..6000[4]', S: '500..3000[4]', q: '0.01..0.4[4]'):
    "density plot of shear velocities"
    z = QI(V, q, Vs=S)
    z.kde_plot(p, a, b, c, 'viridis', 'Vs', 32)
    for nm, v in (('friable', a), ('increasing cement', b), ('contact cement', c)):
        drawn('plot', 'kde: ' + nm, p, v)
    drawn('kde2d', 'density of porosity and Vs, requested cells', q, S, n=32)
    drawn('pcolormesh', 'requested colour map', cmap='viridis')


def ob_diag(Dq: '2.6..2.7', Kq: '35..40', Gq: '40..45', Ds: '2.3..2.6', Ks: '15..25', Gs: '6..10', Dc: '2.6..2.8', Kc: '35..40', Gc: '40..45', Db: '0.9..1.1', Kb: '2..3', sg: '5..40', vsh: '0.02..0.3', f: '0..1', Cn: '6..9', V: '1000..6000[4]', q: '0.01..0.4[4]', vc: '0..0.1[4]'):
    "cement diagnostics: bounding lines, one constant-cement line per seed, samples coloured by cement volume"
    phi, p1, p2, p3, s1, s2, s3 = QI.screening(Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, 0.3, 0.4, sg, vsh, 2, f, Cn)
    K0, G0 = R.solid(vsh, Ks, Kq), R.solid(vsh, Gs, Gq)
    z = QI(V, q)
    z.cement_diag_plot(vc, Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, 0.3, [0.3, 0.35], 0.4, sg, vsh, Cn, 2, f)
    drawn('plot', 'contact cement line', phi, p3)
    drawn('plot', 'friable line', phi, p1)
    for pb in (0.3, 0.35):
        drawn('plot', 'constant cement line', phi, QI.cst_vels(pb, K0, vsh*Ds + (1 - vsh)*Dq, G0, phi, 0.4, Cn, Kc, Gc, Db, Kb, 2, vsh, Ds, Dq, Dc)[0])
    drawn('scatter', 'samples coloured by cement volume', q, V, c=vc)


def ob_rpt(K: '3..20[2]', G: '3..20[2]', K0: '35..40', D0: '2.5..2.7', Kb: '2..3', Db: '0.9..1.1', Kh: '0.02..1', Dh: '0.1..0.8', p: '0.05..0.4[2]', s: '0..1[3]'):
    "rock physics template: impedance and velocity ratio of every porosity and saturation"
    QI.plot_rpt(K, G, K0, D0, Kb, Db, Kh, Dh, p, s)
    A, B = [], []
    for j in range(3):
        Kf = 1/(s[j]/Kb + (1 - s[j])/Kh)
        Df = s[j]*Db + (1 - s[j])*Dh
        r = [R.satvel(K[i], G[i], K0, D0, Kf, Df, p[i]) for i in range(2)]
        A.append([r[i][0]*((1 - p[i])*D0 + p[i]*Df) for i in range(2)])
        B.append([r[i][0]/r[i][1] for i in range(2)])
    for i in range(2):
        drawn('plot', 'saturation line of each porosity', np.array([A[j][i] for j in range(3)]), np.array([B[j][i] for j in range(3)]))
    drawn('plot', 'brine line', np.array(A[2]), np.array(B[2]))


def ob_screening_any(Dq: '2.5..2.75', Kq: '30..45', Gq: '30..50', Ds: '2.2..2.7', Ks: '10..28', Gs: '5..15', Dc: '2.5..2.9', Kc: '25..60', Gc: '20..60', Db: '0.7..1.15', Kb: '1..4', pb: '0.22..0.34', pc: '0.36..0.46', sg: '1..60', vsh: '0.01..0.4', f: '0..1', Cn: '5..12'):
    "elastic bounds for any cemented and critical porosity"
    for scheme in (1, 2):
        phi, p1, p2, p3, s1, s2, s3 = QI.screening(Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, pb, pc, sg, vsh, scheme, f, Cn)
        K0, G0 = R.solid(vsh, Ks, Kq), R.solid(vsh, Gs, Gq)
        D0 = vsh*Ds + (1 - vsh)*Dq
        for j in (1, 20, 50, 60, 70, 80, 98):
            q = 1e-7 + j*(pc - 1e-7)/99
            eq(phi[j], q, 'porosity grid')
            eq((p1[j], s1[j]), R.soft_line(K0, G0, D0, Kb, Db, q, pc, Cn, sg, f), 'friable sand line')
            Km, Dm = R.matrix(vsh, pc, q, Ks, Kq, Kc), R.matden(vsh, pc, q, Ds, Dq, Dc)
            a = R.cem_line(K0, G0, Kc, Gc, Km, Dm, Kb, Db, q, pc, Cn, scheme)
            b = R.inc_line(K0, G0, D0, Kc, Gc, Kb, Db, q, pb, pc, Cn, scheme)
            for k in (0, 1):
                eq((p3, s3)[k][j], np.where(q < pb, np.nan, a[k]), 'contact cement line and mask')
                eq((p2, s2)[k][j], np.where(q > pb, np.nan, b[k]), 'increasing cement line and mask')


def ob_const_any(K0: '20..60', G0: '15..60', D0: '2.4..2.8', Kc: '20..60', Gc: '15..60', Db: '0.7..1.15', Kb: '1..4', vsh: '0.01..0.4', Cn: '5..12', Ds: '2.2..2.7', Dq: '2.5..2.75', Dc: '2.5..2.9', pb: '0.22..0.34', pc: '0.36..0.46', pv: '0.01..0.4[3]'):
    "constant cement velocities for any cemented and critical porosity"
    D = R.matden(vsh, pc, pb, Ds, Dq, Dc)
    for scheme in (1, 2):
        vp, vs = QI.cst_vels(pb, K0, D0, G0, pv, pc, Cn, Kc, Gc, Db, Kb, scheme, vsh, Ds, Dq, Dc)
        for j in range(3):
            a = R.const_line(pb, K0, G0, D, Kc, Gc, Kb, Db, pv[j], pc, Cn, scheme)
            eq(vp[j], np.where(pv[j] > pb, np.nan, a[0]), 'Vp and mask')
            eq(vs[j], np.where(pv[j] > pb, np.nan, a[1]), 'Vs and mask')


def ob_const_tight(K0: '20..60', G0: '15..60', D0: '2.4..2.8', Kc: '20..60', Gc: '15..60', Db: '0.7..1.15', Kb: '1..4', vsh: '0.01..0.4', Cn: '5..12', Ds: '2.2..2.7', Dq: '2.5..2.75', Dc: '2.5..2.9', pb: '0.005..0.05', pc: '0.36..0.46', pv: '0.001..0.1[3]'):
    "constant cement velocities for strongly cemented rock"
    D = R.matden(vsh, pc, pb, Ds, Dq, Dc)
    for scheme in (1, 2):
        vp, vs = QI.cst_vels(pb, K0, D0, G0, pv, pc, Cn, Kc, Gc, Db, Kb, scheme, vsh, Ds, Dq, Dc)
        for j in range(3):
            a = R.const_line(pb, K0, G0, D, Kc, Gc, Kb, Db, pv[j], pc, Cn, scheme)
            eq(vp[j], np.where(pv[j] > pb, np.nan, a[0]), 'Vp and mask')
            eq(vs[j], np.where(pv[j] > pb, np.nan, a[1]), 'Vs and mask')


def ob_screening_tight(Dq: '2.5..2.75', Kq: '30..45', Gq: '30..50', Ds: '2.2..2.7', Ks: '10..28', Gs: '5..15', Dc: '2.5..2.9', Kc: '25..60', Gc: '20..60', Db: '0.7..1.15', Kb: '1..4', pb: '0.002..0.2', pc: '0.3..0.9', sg: '1..60', vsh: '0.01..0.4', f: '0..1', Cn: '5..12'):
    "elastic bounds for strongly cemented rock and high critical porosity"
    for scheme in (1, 2):
        phi, p1, p2, p3, s1, s2, s3 = QI.screening(Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, pb, pc, sg, vsh, scheme, f, Cn)
        K0, G0 = R.solid(vsh, Ks, Kq), R.solid(vsh, Gs, Gq)
        D0 = vsh*Ds + (1 - vsh)*Dq
        for j in (0, 1, 5, 10, 30, 50, 98):
            q = 1e-7 + j*(pc - 1e-7)/99
            eq(phi[j], q, 'porosity grid')
            eq((p1[j], s1[j]), R.soft_line(K0, G0, D0, Kb, Db, q, pc, Cn, sg, f), 'friable sand line')
            Km, Dm = R.matrix(vsh, pc, q, Ks, Kq, Kc), R.matden(vsh, pc, q, Ds, Dq, Dc)
            a = R.cem_line(K0, G0, Kc, Gc, Km, Dm, Kb, Db, q, pc, Cn, scheme)
            b = R.inc_line(K0, G0, D0, Kc, Gc, Kb, Db, q, pb, pc, Cn, scheme)
            for k in (0, 1):
                eq((p3, s3)[k][j], np.where(q < pb, np.nan, a[k]), 'contact cement line and mask')
                eq((p2, s2)[k][j], np.where(q > pb, np.nan, b[k]), 'increasing cement line and mask')


def ob_screening_edge(Dq: '2.5..2.75', Kq: '30..45', Gq: '30..50', Ds: '2.2..2.7', Ks: '10..28', Gs: '5..15', Dc: '2.5..2.9', Kc: '25..60', Gc: '20..60', Db: '0.7..1.15', Kb: '1..4', pc: '0.36..0.46', sg: '1..60', vsh: '0.01..0.4', f: '0..1', Cn: '5..12'):
    "cemented porosity at the ends of the porosity grid"
    K0, G0 = R.solid(vsh, Ks, Kq), R.solid(vsh, Gs, Gq)
    D0 = vsh*Ds + (1 - vsh)*Dq
    phi, p1, p2, p3, s1, s2, s3 = QI.screening(Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, pc, pc, sg, vsh, 2, f, Cn)
    eq((p3[98], s3[98]), (np.nan, np.nan), 'no contact cement line below the critical porosity')
    Km, Dm = R.matrix(vsh, pc, pc, Ks, Kq, Kc), R.matden(vsh, pc, pc, Ds, Dq, Dc)
    eq((p3[99], s3[99]), R.cem_line(K0, G0, Kc, Gc, Km, Dm, Kb, Db, pc, pc, Cn, 2), 'its end point is kept')
    eq((p2[99], s2[99]), R.inc_line(K0, G0, D0, Kc, Gc, Kb, Db, pc, pc, pc, Cn, 2), 'increasing cement line up to the critical porosity')
    phi, p1, p2, p3, s1, s2, s3 = QI.screening(Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, 1e-7, pc, sg, vsh, 2, f, Cn)
    Km, Dm = R.matrix(vsh, pc, 1e-7, Ks, Kq, Kc), R.matden(vsh, pc, 1e-7, Ds, Dq, Dc)
    eq((p3[0], s3[0]), R.cem_line(K0, G0, Kc, Gc, Km, Dm, Kb, Db, 1e-7, pc, Cn, 2), 'contact cement over the whole grid')
    eq((p2[0], s2[0]), R.inc_line(K0, G0, D0, Kc, Gc, Kb, Db, 1e-7, 1e-7, pc, Cn, 2), 'increasing cement line starts at the grid')
    eq((p2[1], s2[1]), (np.nan, np.nan), 'and ends there')


def ob_rpt_ends(K: '3..20[2]', G: '3..20[2]', K0: '35..40', D0: '2.5..2.7', Kb: '2..3', Db: '0.9..1.1', Kh: '0.02..1', Dh: '0.1..0.8', p: '0.05..0.4[2]', u: '0.1..0.9'):
    "rock physics template between pure hydrocarbon and pure brine"
    s = np.array([0, u, 1])
    QI.plot_rpt(K, G, K0, D0, Kb, Db, Kh, Dh, p, s)
    A, B = [], []
    for Kf, Df in ((Kh, Dh), (1/(u/Kb + (1 - u)/Kh), u*Db + (1 - u)*Dh), (Kb, Db)):
        r = [R.satvel(K[i], G[i], K0, D0, Kf, Df, p[i]) for i in range(2)]
        A.append([r[i][0]*((1 - p[i])*D0 + p[i]*Df) for i in range(2)])
        B.append([r[i][0]/r[i][1] for i in range(2)])
    for i in range(2):
        drawn('plot', 'saturation line of each porosity', np.array([A[j][i] for j in range(3)]), np.array([B[j][i] for j in range(3)]))
    drawn('plot', 'brine line', np.array(A[2]), np.array(B[2]))


def ob_lines(Dq: '2.6..2.7', Kq: '35..40', Gq: '40..45', Ds: '2.3..2.6', Ks: '15..25', Gs: '6..10', Dc: '2.6..2.8', Kc: '35..40', Gc: '40..45', Db: '0.9..1.1', Kb: '2..3', sg: '5..40', vsh: '0.02..0.3', f: '0..1', Cn: '6..9'):
    "one constant-cement line for every requested porosity"
    phi, p1, p2, p3, s1, s2, s3 = QI.screening(Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, 0.3, 0.4, sg, vsh, 1, f, Cn)
    K0, G0 = R.solid(vsh, Ks, Kq), R.solid(vsh, Gs, Gq)
    ps = [0.37, 0.3, 0.32, 0.39, 0.34, 0.36, 0.38, 0.31]
    QI.cst_plot(Dq, Kq, Gq, Ds, Ks, Gs, Dc, Kc, Gc, Db, Kb, 0.3, ps, 0.4, sg, vsh, Cn, 1, f)
    drawn('plot', 'contact cement line', phi, p3)
    drawn('plot', 'friable line', phi, p1)
    for pb in ps:
        drawn('plot', 'constant cement line %g' % pb, phi, QI.cst_vels(pb, K0, vsh*Ds + (1 - vsh)*Dq, G0, phi, 0.4, Cn, Kc, Gc, Db, Kb, 1, vsh, Ds, Dq, Dc)[0])


def ob_rpt_sizes(K: '3..20[4]', G: '3..20[4]', K0: '35..40', D0: '2.5..2.7', Kb: '2..3', Db: '0.9..1.1', Kh: '0.02..1', Dh: '0.1..0.8', p: '0.05..0.4[4]', s: '0..1[4]'):
    "rock physics template: every porosity has its saturation line, whatever the numbers of porosities and saturations"
    for n, m in ((1, 3), (3, 3), (2, 2), (4, 2), (2, 4)):
        QI.plot_rpt(K[:n], G[:n], K0, D0, Kb, Db, Kh, Dh, p[:n], s[:m])
        A, B = [], []
        for j in range(m):
            Kf = 1/(s[j]/Kb + (1 - s[j])/Kh)
            Df = s[j]*Db + (1 - s[j])*Dh
            r = [R.satvel(K[i], G[i], K0, D0, Kf, Df, p[i]) for i in range(n)]
            A.append([r[i][0]*((1 - p[i])*D0 + p[i]*Df) for i in range(n)])
            B.append([r[i][0]/r[i][1] for i in range(n)])
        for i in range(n):
            drawn('plot', 'porosity %d of %d, %d saturations' % (i, n, m), np.array([A[j][i] for j in range(m)]), np.array([B[j][i] for j in range(m)]))
