"""Workflow objects: data handed over are never modified."""
import numpy as np
from spec import eq, copy
from rockphypy import QI


def ob_object(V: '1500..6000[4]', q: '0.05..0.35[4]', S: '500..3000[4]', sh: '0..1[4]', p: '0..0.4[3]', a: '1000..6000[3]', b: '1000..6000[3]', c: '1000..6000[3]', vc: '0..0.1[4]'):
    "crossplots and cement estimation leave samples, lines and seeds as they were"
    ks = [copy(x) for x in (V, q, S, sh, p, a, b, c, vc)]
    z = QI(V, q, Vs=S, Vsh=sh)
    seeds = np.array([0.06, 0.01, 0.03])
    lst = [0.06, 0.01, 0.03]
    pb = [0.35, 0.3]
    z.screening_plot(p, a, b, c)
    z.kde_plot(p, a, b, c)
    z.kde_plot(p, a, b, c, vels='Vs')
    z.estimate_cem(seeds, 37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, 0.1, 2.55, 2.65, 2.7)
    z.estimate_cem(lst, 37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, 0.1, 2.55, 2.65, 2.7)
    z.cement_diag_plot(vc, 2.65, 37, 44, 2.55, 21, 7, 2.7, 38, 43, 1.05, 2.6, 0.3, pb, 0.4, 20, 0.1, 8.5, 2, 0.5)
    for x, k, n in ((V, 0, 'Vp'), (q, 1, 'porosity'), (S, 2, 'Vs'), (sh, 3, 'Vsh'), (p, 4, 'line porosity'), (a, 5, 'line 1'), (b, 6, 'line 2'), (c, 7, 'line 3'), (vc, 8, 'cement')):
        eq(x, ks[k], n + ' unchanged', tol=0.0)
    eq(seeds, [0.06, 0.01, 0.03], 'seed array unchanged', tol=0.0)
    eq(lst, [0.06, 0.01, 0.03], 'seed list unchanged', tol=0.0)
    eq(pb, [0.35, 0.3], 'line list unchanged', tol=0.0)
    eq((z.Vp, z.phi, z.Vs, z.Vsh), (ks[0], ks[1], ks[2], ks[3]), 'object keeps its samples', tol=0.0)


def ob_rpt(K: '3..20[2]', G: '3..20[2]', p: '0.05..0.4[2]', s: '0..1[3]'):
    "the template plot leaves its arrays as they were"
    ks = [copy(x) for x in (K, G, p, s)]
    QI.plot_rpt(K, G, 37, 2.65, 2.5, 1.0, 0.1, 0.2, p, s)
    for x, k, n in ((K, 0, 'Kdry'), (G, 1, 'Gdry'), (p, 2, 'porosity'), (s, 3, 'saturation')):
        eq(x, ks[k], n + ' unchanged', tol=0.0)


def ob_rpt_any(K: '-10..60[2]', G: '-10..60[2]', p: '-0.5..1.5[2]', s: '-0.5..1.5[3]'):
    "the template plot leaves its arrays as they were, whatever they hold"
    ks = [copy(x) for x in (K, G, p, s)]
    try:
        QI.plot_rpt(K, G, 37, 2.65, 2.5, 1.0, 0.1, 0.2, p, s)
    except Exception:
        pass
    for x, k, n in ((K, 0, 'Kdry'), (G, 1, 'Gdry'), (p, 2, 'porosity'), (s, 3, 'saturation')):
        eq(x, ks[k], n + ' unchanged', tol=0.0)


def ob_object_any(V: '-1000..9000[4]', q: '-0.2..0.9[4]', S: '-1000..5000[4]', sh: '-0.5..1.5[4]', p: '-0.5..1.5[3]', a: '-1000..9000[3]', b: '-1000..9000[3]', c: '-1000..9000[3]', vc: '-0.5..1.5[4]'):
    "crossplots and cement estimation leave samples, lines and seeds as they were, whatever they hold"
    ks = [copy(x) for x in (V, q, S, sh, p, a, b, c, vc)]
    z = QI(V, q, Vs=S, Vsh=sh)
    z.screening_plot(p, a, b, c)
    z.kde_plot(p, a, b, c)
    z.kde_plot(p, a, b, c, vels='Vs')
    z.estimate_cem(np.array([0.06, 0.01, 0.03]), 37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, 0.1, 2.55, 2.65, 2.7)
    z.cement_diag_plot(vc, 2.65, 37, 44, 2.55, 21, 7, 2.7, 38, 43, 1.05, 2.6, 0.3, [0.35, 0.3], 0.4, 20, 0.1, 8.5, 2, 0.5)
    for x, k, n in ((V, 0, 'Vp'), (q, 1, 'porosity'), (S, 2, 'Vs'), (sh, 3, 'Vsh'), (p, 4, 'line porosity'), (a, 5, 'line 1'), (b, 6, 'line 2'), (c, 7, 'line 3'), (vc, 8, 'cement')):
        eq(x, ks[k], n + ' unchanged', tol=0.0)
    eq((z.Vp, z.phi, z.Vs, z.Vsh), (ks[0], ks[1], ks[2], ks[3]), 'object keeps its samples', tol=0.0)


def ob_object_gap(v: '1500..6000[3]', w: '0.05..0.35[3]', x: '500..3000[3]', y: '0..1[3]', p: '0..0.4[3]', a: '1000..6000[3]', b: '1000..6000[3]', c: '1000..6000[3]', vc: '0..0.1[4]'):
    "gaps in the logs and in the lines stay gaps, other samples stay as they were"
    V = np.array([v[0], np.nan, v[1], v[2]])
    q = np.array([np.nan, w[0], w[1], w[2]])
    S = np.array([x[0], x[1], np.nan, x[2]])
    sh = np.array([y[0], y[1], y[2], np.nan])
    a = np.array([a[0], np.nan, a[2]])
    ks = [copy(x) for x in (V, q, S, sh, p, a, b, c, vc)]
    z = QI(V, q, Vs=S, Vsh=sh)
    z.screening_plot(p, a, b, c)
    z.kde_plot(p, a, b, c)
    z.kde_plot(p, a, b, c, vels='Vs')
    try:
        z.estimate_cem(np.array([0.01, 0.03, 0.06]), 37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, 0.1, 2.55, 2.65, 2.7)
    except Exception:
        pass
    z.cement_diag_plot(vc, 2.65, 37, 44, 2.55, 21, 7, 2.7, 38, 43, 1.05, 2.6, 0.3, [0.35, 0.3], 0.4, 20, 0.1, 8.5, 2, 0.5)
    for x, k, n in ((V, 0, 'Vp'), (q, 1, 'porosity'), (S, 2, 'Vs'), (sh, 3, 'Vsh'), (p, 4, 'line porosity'), (a, 5, 'line 1'), (b, 6, 'line 2'), (c, 7, 'line 3'), (vc, 8, 'cement')):
        eq(x, ks[k], n + ' unchanged', tol=0.0)
    eq((z.Vp, z.phi, z.Vs, z.Vsh), (ks[0], ks[1], ks[2], ks[3]), 'object keeps its samples', tol=0.0)


def ob_cst(pb: '0.25..0.35[2]'):
    "the constant-cement plot leaves its porosities as they were"
    k = copy(pb)
    QI.cst_plot(2.65, 37, 44, 2.55, 21, 7, 2.7, 38, 43, 1.05, 2.6, 0.3, pb, 0.4, 20, 0.1, 8.5, 2, 0.5)
    eq(pb, k, 'line porosities unchanged', tol=0.0)
