"""Empirical trends and permeability relations against their published forms."""
import numpy as np
from spec import eq
from rockphypy import Empirical, Permeability
from specs import ref_emp as R
from specs.lib import each


def ob_krief(phi: '0.001..0.95', K: '1..200', G: '1..150', pv: '0.001..0.95[3]'):
    "Krief"
    eq(Empirical.krief(phi, K, G), R.krief(phi, K, G), 'scalar')
    eq(Empirical.krief(pv, K, G), each(lambda p: R.krief(p, K, G), 3, pv), 'array')


def ob_vs(Vp: '300..9000', v: '0..1', Vv: '300..9000[3]', vv: '0..1[3]', Vi: 'int 300..9000'):
    "Greenberg-Castagna shear velocity"
    eq(Empirical.esti_VS(Vp, v), R.gc(Vp, v), 'scalar')
    eq(Empirical.esti_VS(Vv, vv), each(R.gc, 3, Vv, vv), 'array')
    eq(Empirical.esti_VS(Vi, v), R.gc(Vi, v), 'integer')


def ob_han(p: '0..1', C: '0..1', pv: '0..1[3]', Cv: '0..1[3]'):
    "Han's porosity-clay regression"
    eq(Empirical.han(p, C), R.han(p, C), 'scalar')
    eq(Empirical.han(pv, Cv), each(R.han, 3, pv, Cv), 'array')


def ob_linear(Z: '0..9000', Zv: '0..9000[3]', Zi: 'int 0..9000'):
    "single-segment depth trends"
    eb = lambda z: 0.4802422 - 0.092200747e-3*z
    rt = lambda z: 0.464 - 0.000085*z
    rf = lambda z: 0.427 - 0.000069*z
    sch = lambda z: 2325 + 0.51*z
    sto = lambda z: 2600 + z/1.76
    hil = lambda z: 304800/(135.9 - 0.02022*z)
    hj = lambda z: 1870 + 0.55*z
    eq(Empirical.ehrenberg(Z), eb(Z), 'Ehrenberg')
    eq(Empirical.ehrenberg(Zv), each(eb, 3, Zv), 'Ehrenberg, array')
    eq(Empirical.ramm_porosity(Z), rt(Z), 'Ramm, default area')
    eq(Empirical.ramm_porosity(Z, HB=True), rt(Z), 'Ramm, Haltenbanken')
    eq(Empirical.ramm_porosity(Z, HB=False), rf(Z), 'Ramm, all data')
    eq(Empirical.ramm_porosity(Zv), each(rt, 3, Zv), 'Ramm, array')
    eq(Empirical.ramm_porosity(Zv, False), each(rf, 3, Zv), 'Ramm, all data, array')
    eq(Empirical.Scherbaum(Z), sch(Z), 'Scherbaum')
    eq(Empirical.Scherbaum(Zv), each(sch, 3, Zv), 'Scherbaum, array')
    eq(Empirical.Storvoll(Z), sto(Z), 'Storvoll')
    eq(Empirical.Storvoll(Zv), each(sto, 3, Zv), 'Storvoll, array')
    eq(Empirical.Hillis(Z), hil(Z), 'Hillis')
    eq(Empirical.Hillis(Zv), each(hil, 3, Zv), 'Hillis, array')
    eq(Empirical.hjelstuen(Z), hj(Z), 'Hjelstuen')
    eq(Empirical.hjelstuen(Zv), each(hj, 3, Zv), 'Hjelstuen, array')
    eq(Empirical.Storvoll(Zi), sto(Zi), 'Storvoll, integer')
    eq(Empirical.Hillis(Zi), hil(Zi), 'Hillis, integer')


def ob_yu(lo: '0..2630', hi: '2630.000001..9000', l2: '0..2630'):
    "two-segment velocity trend; order of the depths is kept"
    f = lambda z: 1707.998 + 0.66*z
    g = lambda z: 1200.84 + 0.853*z
    eq(Empirical.yu_segment_trend(lo), f(lo), 'shallow')
    eq(Empirical.yu_segment_trend(hi), g(hi), 'deep')
    eq(Empirical.yu_segment_trend(2630), f(2630), 'at the break')
    eq(Empirical.yu_segment_trend(np.array([hi, lo, l2])), [g(hi), f(lo), f(l2)], 'unsorted depths')
    eq(Empirical.yu_segment_trend(np.array([lo, hi])), [f(lo), g(hi)], 'sorted depths')


def ob_japsen(a: '0..1392.999999', b: '1393..1999.999999', c: '2000..3499.999999', d: '3500..5299.999999', e: '5300..20000'):
    "four-segment velocity trend; order of the depths is kept"
    f = [lambda z: 1550 + 0.6*z, lambda z: 2*z - 400, lambda z: 2600 + 0.5*z, lambda z: 3475 + 0.25*z]
    eq(Empirical.Japsen(a), f[0](a), 'first')
    eq(Empirical.Japsen(b), f[1](b), 'second')
    eq(Empirical.Japsen(c), f[2](c), 'third')
    eq(Empirical.Japsen(d), f[3](d), 'fourth')
    eq(Empirical.Japsen(np.array([d, b, a, c])), [f[3](d), f[1](b), f[0](a), f[2](c)], 'unsorted depths')
    eq(Empirical.Japsen(np.array([a, b, c, d])), [f[0](a), f[1](b), f[2](c), f[3](d)], 'sorted depths')
    eq(Empirical.Japsen(np.array([1393., 2000., 3500.])), [f[1](1393), f[2](2000), f[3](3500)], 'at the breaks')
    eq(Empirical.Japsen(np.array([5300., 5300])), [np.nan, np.nan], 'end of the published range')
    eq(Empirical.Japsen(np.array([e, a])), [np.nan, f[0](a)], 'beyond the published range')


def ob_ramm_segment(lo: '10..2550', hi: '2750..4200', Zv: '10..4200[3]'):
    "mechanical then chemical compaction"
    a = lambda z: 45*np.exp(-0.00025*z)
    b = lambda z: 25 - 0.013*(z - 2500)
    eq(Empirical.ramm_porosity_segment(lo), a(lo), 'shallow')
    eq(Empirical.ramm_porosity_segment(hi), b(hi), 'deep')
    eq(Empirical.ramm_porosity_segment(np.array([hi, lo])), [b(hi), a(lo)], 'unsorted depths')
    eq(Empirical.ramm_porosity_segment(Zv), each(lambda z: np.minimum(a(z), b(z)), 3, Zv), 'array')


def ob_other(Pe: '0..5', Pv: '0..5[3]', phi: '0.001..0.95', pv: '0.001..0.95[3]'):
    "pressure trends, Sclater-Christie, coordination number"
    eq(Empirical.empirical_StPeter(Pe), R.stpeter(Pe, 1), 'default sample')
    for k in (1, 2):
        eq(Empirical.empirical_StPeter(Pe, sample=k), R.stpeter(Pe, k), 'St Peter')
        eq(Empirical.empirical_StPeter(Pv, k), each(lambda p: R.stpeter(p, k), 3, Pv), 'St Peter, array')
    s = lambda p: 3.7*np.log(0.49/p)
    c = lambda p: 20 - 34*p + 14*p*p
    eq(Empirical.Sclater(phi), s(phi), 'Sclater')
    eq(Empirical.Sclater(pv), each(s, 3, pv), 'Sclater, array')
    eq(Empirical.Cp(phi), c(phi), 'coordination number')
    eq(Empirical.Cp(pv), each(c, 3, pv), 'coordination number, array')


def ob_kozeny(phi: '0.001..0.95', d: '1e-9..5000', pc: '0..0.05', B: '0.001..0.1', pv: '0.06..0.45[3]'):
    "Kozeny-Carman, plain and with percolation threshold"
    k = lambda p: d*d*p**3/(180*(1 - p)**2)
    kp = lambda p: B*d*d*(p - pc)**3/(1 + pc - p)**2
    eq(Permeability.Kozeny_Carman(phi, d), k(phi), 'plain')
    eq(Permeability.Kozeny_Carman(pv, d), each(k, 3, pv), 'plain, array')
    eq(Permeability.Kozeny_Carman_Percolation(phi, pc, d, B), kp(phi), 'percolation')
    eq(Permeability.Kozeny_Carman_Percolation(pv, pc, d, B), each(kp, 3, pv), 'percolation, array')


def ob_logs(phi: '0.001..0.95', S: '0.01..1', pv: '0.001..0.95[3]', Sv: '0.01..1[3]'):
    "permeability from porosity and irreducible water saturation"
    o = lambda p, s: (307 + 26552*p*p - 34540*(p*s)**2, 30.7 + 2655*p*p - 3454*(p*s)**2)
    q = lambda p, s: ((250*p**3/s)**2, 10000*p**4.5/s**2, (100*p*p*(1 - s)/s)**2, 352*(p/s)**4)
    eq(Permeability.Owolabi(phi, S), o(phi, S), 'Owolabi')
    eq(Permeability.Owolabi(pv, Sv), each(o, 3, pv, Sv), 'Owolabi, array')
    eq(Permeability.Perm_logs(phi, S), q(phi, S), 'Tixier, Timur, Coates, Coates-Dumanoir')
    eq(Permeability.Perm_logs(pv, Sv), each(q, 3, pv, Sv), 'Tixier, Timur, Coates, Coates-Dumanoir, array')


def ob_grain(d: '1e-9..5000', C: '0.01..3', S: '-3..3', tau: '1..20', phi: '0.01..0.9', b: '1..5', pv: '0.01..0.9[3]'):
    "grain-size and pore-geometry relations"
    pl = lambda p: R.panda(d, C, S, tau, p)
    pc = lambda p: 3.34*d*d*p**3/(1 - p)**2
    rv = lambda p: 1000*d*d*p**4.5/24
    fr = lambda p: p/(2.5*b)*(p*d/(6*(1 - p)))**2
    eq(Permeability.Panda_Lake(d, C, S, tau, phi), pl(phi), 'Panda-Lake')
    eq(Permeability.Panda_Lake(d, C, S, tau, pv), each(pl, 3, pv), 'Panda-Lake, array')
    eq(Permeability.Panda_Lake_cem(phi, d), pc(phi), 'Panda-Lake cemented')
    eq(Permeability.Panda_Lake_cem(pv, d), each(pc, 3, pv), 'Panda-Lake cemented, array')
    eq(Permeability.Revil(phi, d), rv(phi), 'Revil')
    eq(Permeability.Revil(pv, d), each(rv, 3, pv), 'Revil, array')
    eq(Permeability.Fredrich(phi, d, b), fr(phi), 'Fredrich')
    eq(Permeability.Fredrich(pv, d, b), each(fr, 3, pv), 'Fredrich, array')


def ob_bloch(S: '1.1..3', C: '30..100', D: '0.05..1', phi: '0.001..0.95', crf: '0..1', w: '0.1..10', r: '0.5..50', pv: '0.001..0.95[3]'):
    "Bloch, Bernabe"
    eq(Permeability.Bloch(S, C, D), (9.8/S + 0.17*C - 6.1, 10**(1.34*D + 4.08/S + 0.0342*C - 4.67)), 'Bloch')
    f = lambda p: p*(crf*w*w/30 + (1 - crf)*r*r/20)
    eq(Permeability.Bernabe(phi, crf, w, r), f(phi), 'Bernabe')
    eq(Permeability.Bernabe(pv, crf, w, r), each(f, 3, pv), 'Bernabe, array')
