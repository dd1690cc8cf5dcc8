"""Workflow methods: keyword and positional calls."""
import numpy as np
from spec import eq
from rockphypy import QI


def ob_estimate(t: '0.05..0.95'):
    "cement estimation by keyword"
    q = np.array([0.2, 0.15])
    L = [QI.cal_v_const(2.65, 37, 44, 2.55, 21, 7, 2.7, 38, 43, 1.05, 2.6, 0.4 - s, 0.4, 0.1, q, 2, 8.5)[0] for s in (0.01, 0.03)]
    V = L[0] + t*(L[1] - L[0])
    z = QI(Vp=V, phi=q)
    r = z.estimate_cem([0.01, 0.03, 0.06], 37, 44, 21, 7, 0.4, 8.5, 38, 43, 1.05, 2.6, 2, 0.1, 2.55, 2.65, 2.7)
    eq(z.estimate_cem(vcem_seeds=[0.01, 0.03, 0.06], Kqz=37, Gqz=44, Ksh=21, Gsh=7, phi_c=0.4, Cn=8.5, Kc=38, Gc=43, Db=1.05, Kb=2.6, scheme=2, vsh=0.1, Dsh=2.55, Dqz=2.65, Dc=2.7), r, 'by keyword')


def ob_plots(V: '1500..6000[2]', q: '0.05..0.35[2]', S: '500..3000[2]', h: '0..1[2]', p: '0..0.4[3]', a: '1000..6000[3]', s: '0..1[3]'):
    "plots accept their documented keywords"
    z = QI(V, q, Vsh=h, Vs=S)
    z.screening_plot(phi=p, vp1=a, vp2=a, vp3=a, cmap='viridis')
    z.kde_plot(phi=p, v1=a, v2=a, v3=a, cmap='viridis', vels='Vp', n=64)
    k = dict(Dqz=2.65, Kqz=37, Gqz=44, Dsh=2.55, Ksh=21, Gsh=7, Dc=2.7, Kc=38, Gc=43, Db=1.05, Kb=2.6, phib=0.3, phib_p=[0.3], phi_c=0.4, sigma=20, vsh=0.1, Cn=8.5, scheme=2, f=0.5)
    QI.cst_plot(**k)
    z.cst_plot(**k)
    z.cement_diag_plot(vcem=h, **k)
    QI.plot_rpt(Kdry=a, Gdry=a, K0=37, D0=2.65, Kb=2.5, Db=1.0, Khc=0.1, Dhc=0.2, phi=p, sw=s)
