"""arrays whose elements lie in different regimes: every element is evaluated as if it were alone"""
import numpy as np
from spec import eq, fact
from rockphypy import Fluid, EM
from specs.lib import lens


def ob_biot_mixed(f: '0.0001..0.001', g: '0.1..1', h: '500000..5000000', Kd: '5..20', G: '5..20', K0: '35..40', Kf: '0.5..3'):
    "frequencies far below, around and far above the Biot frequency in one array"
    a = (2.65, 1, 1, 0.2, 1, 1, 2)
    for o in ((f, g, h), (h, g, f), (g, h, g), (g, f, g)):
        r = Fluid.Biot(Kd, G, K0, Kf, *a, np.array(o))
        for k in range(3):
            s = Fluid.Biot(Kd, G, K0, Kf, *a, np.array([o[k]]))
            for m in range(6):
                eq(r[m][k], s[m][0], 'result %d element %d' % (m, k))


def ob_aspect_int(Km: '20..60', Gm: '15..50', Ki: '0.1..40[3]', Gi: '0.1..30[3]'):
    "aspect ratios given as integers"
    eq(EM.PQ_vectorize(Km, Gm, Ki, Gi, np.array([1, 1, 1])), EM.PQ_vectorize(Km, Gm, Ki, Gi, np.array([1.0, 1.0, 1.0])), 'spheres')
    eq(EM.PQ_vectorize(Km, Gm, Ki, Gi, np.array([2, 1, 3])), EM.PQ_vectorize(Km, Gm, Ki, Gi, np.array([2.0, 1.0, 3.0])), 'spheres and needles')
