"""Workflow methods: every argument influences the estimate."""
import numpy as np
from spec import differs
from rockphypy import QI


def est(V, q, seeds, a):
    return QI(V, q).estimate_cem(seeds, *a)


def ob_estimate(t: '0.2..0.8'):
    "every argument of the cement estimation"
    q = np.array([0.2, 0.15])
    a = [37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, 0.1, 2.55, 2.65, 2.7]
    L = [QI.cal_v_const(2.65, 37, 44, 2.55, 21, 7, 2.7, 38, 43, 1.05, 2.6, 0.4 - s, 0.4, 0.1, q, 2, 8.5)[0] for s in (0.02, 0.06)]
    V = L[0] + t*(L[1] - L[0])
    r = est(V, q, [0.02, 0.06], a)
    for k, v in ((0, 37.5), (1, 44.5), (2, 22), (3, 7.5), (4, 0.401), (5, 8.4), (6, 39), (7, 42), (8, 1.04), (9, 2.5), (11, 0.11), (12, 2.5), (13, 2.64)):
        differs(r, est(V, q, [0.02, 0.06], a[:k] + [v] + a[k + 1:]), 'argument %d' % (k + 2))
    differs(r, est(V, q, [0.02, 0.07], a), 'seeds')
    differs(r, est(V + 1, q, [0.02, 0.06], a), 'Vp')
    differs(r, est(V, q + 0.0001, [0.02, 0.06], a), 'porosity')
