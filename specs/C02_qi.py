"""Workflow objects: results depend on the object's samples and the arguments only."""
import numpy as np
from spec import eq, copy, statesame, noeffects
from rockphypy import QI


def line(q, s):
    return QI.cal_v_const(2.65, 37, 44, 2.55, 21, 7, 2.7, 38, 43, 1.05, 2.6, 0.4 - s, 0.4, 0.1, q, 2, 8.5)[0]


def ob_estimate(t: '0.05..0.95', u: '0.05..0.95'):
    "cement estimates do not depend on earlier estimates or other objects"
    q, r = np.array([0.2, 0.15]), np.array([0.22, 0.1])
    V = line(q, 0.01) + t*(line(q, 0.03) - line(q, 0.01))
    W = line(r, 0.02) + u*(line(r, 0.05) - line(r, 0.02))
    a = (37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, 0.1, 2.55, 2.65, 2.7)
    z, y = QI(V, q), QI(W, r)
    e = z.estimate_cem([0.01, 0.03, 0.06], *a)
    k = copy(e)
    f = y.estimate_cem([0.02, 0.05], *a)
    kf = copy(f)
    eq(z.estimate_cem([0.01, 0.03, 0.06], *a), k, 'same object, same estimate')
    eq(e, k, 'earlier estimate untouched')
    eq(f, kf, 'interleaved estimate untouched')
    eq(QI(V, q).estimate_cem([0.01, 0.03, 0.06], *a), k, 'equal object, same estimate')
    eq((z.Vp, z.phi, y.Vp, y.phi), (V, q, W, r), 'objects keep their own samples')
    statesame()
    noeffects()


def ob_objects(V: '1500..6000[2]', q: '0.05..0.35[2]', S: '500..3000[2]', h: '0..1[2]', d: '2..3[2]', t: '0..5000[2]', e: '1..80[2]'):
    "an object holds the samples it was given, and nothing of another object"
    a = QI(V, q, Vs=S, Vsh=h, den=d, TVD=t, eff_stress=e)
    b = QI(q, V)
    eq((a.Vp, a.phi, a.Vs, a.Vsh, a.den, a.TVD, a.eff_stress), (V, q, S, h, d, t, e), 'samples stored under their names')
    eq((b.Vp, b.phi), (q, V), 'second object')
    eq((b.Vs, b.Vsh, b.den, b.TVD, b.eff_stress), (None, None, None, None, None), 'absent samples are absent')
    statesame()


def ob_plots(V: '1500..6000[4]', q: '0.05..0.35[4]', S: '500..3000[4]', sh: '0..1[4]', p: '0..0.4[3]', a: '1000..6000[3]', b: '1000..6000[3]', c: '1000..6000[3]'):
    "plotting leaves no state behind"
    z = QI(V, q, Vs=S, Vsh=sh)
    z.screening_plot(p, a, b, c)
    z.kde_plot(p, a, b, c)
    z.kde_plot(p, a, b, c, vels='Vs')
    z.cement_diag_plot(sh, 2.65, 37, 44, 2.55, 21, 7, 2.7, 38, 43, 1.05, 2.6, 0.3, [0.3, 0.35], 0.4, 20, 0.1, 8.5, 2, 0.5)
    eq((z.Vp, z.phi, z.Vs, z.Vsh), (V, q, S, sh), 'object keeps its samples')
    statesame()
    noeffects()


def ob_estimate_other(t: '0.05..0.95', u: '0.05..0.95', v: '0.05..0.95'):
    "an estimate with other lines, other rocks or another brine leaves nothing behind on the object"
    q = np.array([0.2, 0.15])
    V = line(q, 0.01) + t*(line(q, 0.03) - line(q, 0.01))
    z = QI(V, q)
    a = (37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, 0.1, 2.55, 2.65, 2.7)
    b = (36, 40, 20, 8, 0.38, 9, 60, 30, 1.0, 2.2, 1, 0.2, 2.5, 2.6, 2.8)
    s = [0.01, 0.03, 0.06]
    k = copy(QI(V, q).estimate_cem(s, *a))
    z.estimate_cem([0.005, 0.02], *a)
    eq(z.estimate_cem(s, *a), k, 'after an estimate with fewer lines')
    z.estimate_cem([0.005, 0.02, 0.04, 0.08], *a)
    eq(z.estimate_cem(s, *a), k, 'after an estimate with more lines')
    z.estimate_cem(s, *b)
    eq(z.estimate_cem(s, *a), k, 'after an estimate for another rock')
    z.Vp = V*0.9
    eq(z.estimate_cem(s, *a), QI(V*0.9, q).estimate_cem(s, *a), 'samples replaced on the object')
    statesame()
    noeffects()
