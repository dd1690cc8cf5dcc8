"""Granular-medium models against the published equations."""
import numpy as np
from spec import eq
from rockphypy import GM
from specs import ref_gm as R
from specs.lib import each


def ob_thomas_stieber(a: '0..0.7', b: '0..0.7', v: '0..1', vv: '0..1[4]'):
    "Thomas-Stieber porosity lines"
    t = lambda x: (np.maximum(a - (1 - b)*x, b*x), a + (b - a)*x)
    eq(GM.ThomasStieber(a, b, v), t(v), 'scalar')
    eq(GM.ThomasStieber(a, b, vv), each(t, 4, vv), 'array')


def ob_silty(C: '0..1', Cv: '0..1[4]', Kq: '2..150', Gq: '2..120', Ks: '0.5..100', Gs: '0.5..100'):
    "silty shale: lower bound with shale as the reference medium"
    eq(GM.silty_shale(C, Kq, Gq, Ks, Gs), R.silty(C, Kq, Gq, Ks, Gs), 'scalar')
    eq(GM.silty_shale(Cv, Kq, Gq, Ks, Gs), each(lambda c: R.silty(c, Kq, Gq, Ks, Gs), 4, Cv), 'array')


def ob_shaly(p: '0.3..0.7', C: '0..0.3', Cv: '0..0.3[4]', Ks: '0.5..100', Gs: '0.5..100', Kc: '0.5..100', Gc: '0.5..100'):
    "shaly sand: bound with clean sand as the reference medium"
    eq(GM.shaly_sand(p, C, Ks, Gs, Kc, Gc), R.shaly(p, C, Ks, Gs, Kc, Gc), 'scalar')
    eq(GM.shaly_sand(p, Cv, Ks, Gs, Kc, Gc), each(lambda c: R.shaly(p, c, Ks, Gs, Kc, Gc), 4, Cv), 'array')


def ob_contactcement(K0: '5..150', G0: '3..120', Kc: '1..150', Gc: '0.5..120', phi: '0..0.34', pc: '0.35..0.7', Cn: '1..20', pv: '0..0.34[3]'):
    "contact cement, both schemes"
    for s in (1, 2):
        eq(GM.contactcement(K0, G0, Kc, Gc, phi, pc, Cn, s), R.contactcement(K0, G0, Kc, Gc, phi, pc, Cn, s), 'scheme %d' % s)
        eq(GM.contactcement(K0, G0, Kc, Gc, phi, pc, Cn, scheme=s), R.contactcement(K0, G0, Kc, Gc, phi, pc, Cn, s), 'scheme %d' % s)
        eq(GM.contactcement(K0, G0, Kc, Gc, pv, pc, Cn, s), each(lambda p: R.contactcement(K0, G0, Kc, Gc, p, pc, Cn, s), 3, pv), 'scheme %d array' % s)


def ob_contactcement_soft(K0: '5..150', G0: '3..120', Kc: '0.5..9', Gc: '0.2..7', phi: '0.01..0.34', pc: '0.35..0.7', Cn: '1..20'):
    "contact cement softer than the grains"
    for s in (1, 2):
        eq(GM.contactcement(K0, G0, Kc, Gc, phi, pc, Cn, s), R.contactcement(K0, G0, Kc, Gc, phi, pc, Cn, s), 'scheme %d' % s)


def ob_hm(K0: '5..150', G0: '3..120', pc: '0.2..0.7', Cn: '1..20', s: '0.001..500', f: '0..1', sv: '0.001..500[3]'):
    "Hertz-Mindlin"
    eq(GM.hertzmindlin(K0, G0, pc, Cn, s, f), R.hm(K0, G0, pc, Cn, s, f), 'scalar')
    eq(GM.hertzmindlin(K0, G0, pc, Cn, sv, f), each(lambda x: R.hm(K0, G0, pc, Cn, x, f), 3, sv), 'array')


def ob_walton(K0: '5..150', G0: '3..120', pc: '0.2..0.7', Cn: '1..20', s: '0.001..500', f: '0..1', sv: '0.001..500[3]'):
    "Walton"
    eq(GM.Walton(K0, G0, pc, Cn, s, f), R.walton(K0, G0, pc, Cn, s, f), 'scalar')
    eq(GM.Walton(K0, G0, pc, Cn, sv, f), each(lambda x: R.walton(K0, G0, pc, Cn, x, f), 3, sv), 'array')


def ob_softsand(K0: '5..150', G0: '3..120', phi: '0..0.7', pc: '0.2..0.7', Cn: '1..20', s: '0.001..500', f: '0..1', pv: '0..0.7[3]', sv: '0.001..500[3]'):
    "soft sand"
    r = lambda p, x: R.softsand(K0, G0, p, pc, Cn, x, f)
    eq(GM.softsand(K0, G0, phi, pc, Cn, s, f), r(phi, s), 'scalar')
    eq(GM.softsand(K0, G0, pv, pc, Cn, s, f), each(r, 3, pv, s), 'porosity array')
    eq(GM.softsand(K0, G0, phi, pc, Cn, sv, f), each(r, 3, phi, sv), 'stress array')
    eq(GM.softsand(K0, G0, pv, pc, Cn, sv, f), each(r, 3, pv, sv), 'arrays')


def ob_stiffsand(K0: '5..150', G0: '3..120', phi: '0..0.7', pc: '0.2..0.7', Cn: '1..20', s: '0.001..500', f: '0..1', pv: '0..0.7[3]', sv: '0.001..500[3]'):
    "stiff sand"
    r = lambda p, x: R.stiffsand(K0, G0, p, pc, Cn, x, f)
    eq(GM.stiffsand(K0, G0, phi, pc, Cn, s, f), r(phi, s), 'scalar')
    eq(GM.stiffsand(K0, G0, pv, pc, Cn, s, f), each(r, 3, pv, s), 'porosity array')
    eq(GM.stiffsand(K0, G0, pv, pc, Cn, sv, f), each(r, 3, pv, sv), 'arrays')


def ob_constantcement(K0: '5..150', G0: '3..120', Kc: '1..150', Gc: '0.5..120', phi: '0..0.3', pb: '0.02..0.349', pc: '0.35..0.7', Cn: '1..20', pv: '0..0.3[3]'):
    "constant cement"
    for s in (1, 2):
        r = lambda p: R.constantcement(pb, K0, G0, Kc, Gc, p, pc, Cn, s)
        eq(GM.constantcement(pb, K0, G0, Kc, Gc, phi, pc, Cn, s), r(phi), 'scheme %d' % s)
        eq(GM.constantcement(pb, K0, G0, Kc, Gc, pv, pc, Cn, scheme=s), each(r, 3, pv), 'scheme %d array' % s)


def ob_muhs(K0: '5..150', G0: '3..120', Kc: '1..150', Gc: '0.5..120', phi: '0..0.3', pb: '0.02..0.349', pc: '0.35..0.7', Cn: '1..20', pv: '0..0.3[3]'):
    "increasing cement"
    for s in (1, 2):
        r = lambda p: R.muhs(K0, G0, Kc, Gc, p, pb, pc, Cn, s)
        eq(GM.MUHS(K0, G0, Kc, Gc, phi, pb, pc, Cn, s), r(phi), 'scheme %d' % s)
        eq(GM.MUHS(K0, G0, Kc, Gc, pv, pb, pc, Cn, scheme=s), each(r, 3, pv), 'scheme %d array' % s)


def ob_pcm_below(f: '0.001..0.999', s: '0.001..500', K0: '10..150', G0: '8..120', phi: '0..0.3', pc: '0.35..0.7', vc: '0.001..0.12', vi: '0.121..0.3', Kc: '2..150', Gc: '1..120', Cn: '1..20', f_: '0..1', pv: '0..0.3[3]', sv: '0.001..500[3]'):
    "patchy cement below the cement threshold"
    for m in ('stiff', 'soft'):
        for c in (1, 2):
            r = lambda p, x: R.pcm(f, x, K0, G0, p, pc, vc, vi, Kc, Gc, Cn, m, c, f_, False)
            eq(GM.pcm(f, s, K0, G0, phi, pc, vc, vi, Kc, Gc, Cn, m, c, f_), r(phi, s), '%s scheme %d' % (m, c))
        eq(GM.pcm(f, s, K0, G0, pv, pc, vc, vi, Kc, Gc, Cn, m, 2, f_), each(r, 3, pv, s), '%s porosity array' % m)
        eq(GM.pcm(f, sv, K0, G0, phi, pc, vc, vi, Kc, Gc, Cn, mode=m, scheme=2, f_=f_), each(r, 3, phi, sv), '%s stress array' % m)


def ob_pcm_weak(f: '0.001..0.999', s: '300..3000', K0: '30..90', G0: '30..80', phi: '0..0.3', pc: '0.35..0.7', vc: '0.0001..0.002', vi: '0.121..0.3', Kc: '0.5..2', Gc: '0.05..0.2', Cn: '8..10', f_: '0..1', pv: '0..0.3[3]', sv: '300..3000[3]'):
    "patchy cement with a cement softer than the compacted grain pack"
    for m in ('stiff', 'soft'):
        for c in (1, 2):
            r = lambda p, x: R.pcm(f, x, K0, G0, p, pc, vc, vi, Kc, Gc, Cn, m, c, f_, False)
            eq(GM.pcm(f, s, K0, G0, phi, pc, vc, vi, Kc, Gc, Cn, m, c, f_), r(phi, s), '%s scheme %d' % (m, c))
        eq(GM.pcm(f, s, K0, G0, pv, pc, vc, vi, Kc, Gc, Cn, m, 2, f_), each(r, 3, pv, s), '%s porosity array' % m)
        eq(GM.pcm(f, sv, K0, G0, phi, pc, vc, vi, Kc, Gc, Cn, mode=m, scheme=2, f_=f_), each(r, 3, phi, sv), '%s stress array' % m)


def ob_pcm_above(f: '0.001..0.999', s: '0.001..500', K0: '10..150', G0: '8..120', phi: '0..0.3', pc: '0.35..0.7', vc: '0.181..0.3', vi: '0.005..0.18', Kc: '2..150', Gc: '1..120', Cn: '1..20', f_: '0..1', pv: '0..0.3[3]'):
    "patchy cement above the cement threshold"
    for m in ('stiff', 'soft'):
        for c in (1, 2):
            r = lambda p, x: R.pcm(f, x, K0, G0, p, pc, vc, vi, Kc, Gc, Cn, m, c, f_, True)
            eq(GM.pcm(f, s, K0, G0, phi, pc, vc, vi, Kc, Gc, Cn, m, c, f_), r(phi, s), '%s scheme %d' % (m, c))
        eq(GM.pcm(f, s, K0, G0, pv, pc, vc, vi, Kc, Gc, Cn, m, 2, f_), each(r, 3, pv, s), '%s porosity array' % m)


def ob_pcm_at(f: '0.001..0.999', s: '0.001..500', K0: '10..150', G0: '8..120', phi: '0..0.3', pc: '0.35..0.7', v: '0.005..0.3', Kc: '2..150', Gc: '1..120', Cn: '1..20', f_: '0..1'):
    "patchy cement at the threshold"
    eq(GM.pcm(f, s, K0, G0, phi, pc, v, v, Kc, Gc, Cn, 'stiff', 2, f_), R.pcm(f, s, K0, G0, phi, pc, v, v, Kc, Gc, Cn, 'stiff', 2, f_, False), 'contact cement')


def ob_diluting(k: '0..5', s0: '1..100', sv: '0..200[4]', m: '0.1..6'):
    "diluting parameter, zero where the power is undefined"
    a = [k*(1 - x/s0)**m for x in sv]
    eq(GM.diluting(k, s0, sv, m), [np.where(np.isnan(x), 0, x) for x in a], 'array')


def ob_diluting_in(k: '0..5', s0: '201..400', sv: '0..200[4]', m: '0.1..6'):
    "diluting parameter below the reference stress"
    eq(GM.diluting(k, s0, sv, m), [k*((s0 - x)/s0)**m for x in sv], 'array')


def ob_vpcm(a: '0..1', f: '0.001..0.999', s: '0.001..500', K0: '10..150', G0: '8..120', phi: '0..0.3', pc: '0.35..0.7', vc: '0.001..0.12', vi: '0.121..0.3', Kc: '2..150', Gc: '1..120', Cn: '1..20', f_: '0..1', av: '0..1[3]', sv: '0.001..500[3]'):
    "varying patchiness cement, below the threshold"
    for c in (1, 2):
        r = lambda b, x: R.vpcm(b, f, x, K0, G0, phi, pc, vc, vi, Kc, Gc, Cn, c, f_, False)
        eq(GM.vpcm(a, f, s, K0, G0, phi, pc, vc, vi, Kc, Gc, Cn, c, f_), r(a, s), 'scheme %d' % c)
        eq(GM.vpcm(av, f, sv, K0, G0, phi, pc, vc, vi, Kc, Gc, Cn, scheme=c, f_=f_), each(r, 3, av, sv), 'scheme %d arrays' % c)


def ob_vpcm_above(a: '0..1', f: '0.001..0.999', s: '0.001..500', K0: '10..150', G0: '8..120', phi: '0..0.3', pc: '0.35..0.7', vc: '0.181..0.3', vi: '0.005..0.18', Kc: '2..150', Gc: '1..120', Cn: '1..20', f_: '0..1'):
    "varying patchiness cement, above the threshold"
    for c in (1, 2):
        eq(GM.vpcm(a, f, s, K0, G0, phi, pc, vc, vi, Kc, Gc, Cn, c, f_), R.vpcm(a, f, s, K0, G0, phi, pc, vc, vi, Kc, Gc, Cn, c, f_, True), 'scheme %d' % c)


def ob_johnson(K0: '5..150', G0: '3..120', n: '1..20', phi: '0.05..0.7', e: '-0.05..-0.001', ea: '-0.1..-0.002'):
    "strained sphere pack"
    for p in ('together', 'uni_iso', 'iso_uni'):
        C, s3, s1 = GM.johnson(K0, G0, n, phi, e, ea, path=p)
        rC, r3, r1 = R.johnson(K0, G0, n, phi, e, ea, p, True, True)
        dC, d3, d1 = R.johnson(K0, G0, n, phi, e, ea, p, False, False)
        eq(C, rC, p + ' stiffness', dev=dC, finding='F05')
        eq((s3, s1), (r3, r1), p + ' stress', dev=(d3, d1), finding='F05')
    eq(GM.johnson(K0, G0, n, phi, e, ea), R.johnson(K0, G0, n, phi, e, ea, 'together', True, True), 'default path',
       dev=R.johnson(K0, G0, n, phi, e, ea, 'together', False, False), finding='F05')


def ob_johnson_iso(K0: '5..150', G0: '3..120', n: '1..20', phi: '0.05..0.7', e: '-0.05..-0.01', ea: '-0.0001..-0.000001'):
    "strained sphere pack, strain close to isotropic"
    for p in ('together', 'uni_iso', 'iso_uni'):
        C, s3, s1 = GM.johnson(K0, G0, n, phi, e, ea, path=p)
        rC, r3, r1 = R.johnson(K0, G0, n, phi, e, ea, p, True, True)
        dC, d3, d1 = R.johnson(K0, G0, n, phi, e, ea, p, False, False)
        eq(C, rC, p + ' stiffness', dev=dC, finding='F05')
        eq((s3, s1), (r3, r1), p + ' stress', dev=(d3, d1), finding='F05')
    eq(GM.johnson(K0, G0, n, phi, e, ea), R.johnson(K0, G0, n, phi, e, ea, 'together', True, True), 'default path',
       dev=R.johnson(K0, G0, n, phi, e, ea, 'together', False, False), finding='F05')


def ob_johnson_uni(K0: '5..150', G0: '3..120', n: '1..20', phi: '0.05..0.7', e: '-0.0001..-0.00001', ea: '-0.1..-0.05'):
    "strained sphere pack, strain close to uniaxial"
    for p in ('together', 'uni_iso', 'iso_uni'):
        C, s3, s1 = GM.johnson(K0, G0, n, phi, e, ea, path=p)
        rC, r3, r1 = R.johnson(K0, G0, n, phi, e, ea, p, True, True)
        dC, d3, d1 = R.johnson(K0, G0, n, phi, e, ea, p, False, False)
        eq(C, rC, p + ' stiffness', dev=dC, finding='F05')
        eq((s3, s1), (r3, r1), p + ' stress', dev=(d3, d1), finding='F05')
    eq(GM.johnson(K0, G0, n, phi, e, ea), R.johnson(K0, G0, n, phi, e, ea, 'together', True, True), 'default path',
       dev=R.johnson(K0, G0, n, phi, e, ea, 'together', False, False), finding='F05')


def ob_digby(K0: '5..150', G0: '3..120', phi: '0.05..0.7', Cn: '1..20', s: '0.01..300', a: '0.001..0.5', sv: '0.01..300[2]'):
    "Digby bonded spheres"
    v = R.poisson(K0, G0)
    def digby(x):
        rs = np.roots(np.array([1, 0, 1.5*a**2, -3*np.pi*(1 - v)*x/1000/(2*Cn*(1 - phi)*G0)]))
        d = rs.real[rs.real >= 0][0]
        b = np.sqrt(d*d + a*a)
        K = Cn*(1 - phi)*G0*b/(3*np.pi*(1 - v))
        return K, 0.6*K + 0.6*Cn*(1 - phi)*G0*a/(np.pi*(2 - v))
    k, g = digby(s)
    eq(GM.Digby(K0, G0, phi, Cn, s, a), (k, g), 'scalar stress')
    eq(GM.Digby(K0, G0, phi, Cn, sv, a), each(digby, 2, sv), 'stress array')


def ob_diluting_above(k: '0.2..5', s0: '1..50', sv: '60..200[4]', m: '0.1..0.9', j: '1.1..1.9', w: '0.1..0.9'):
    "no patches left above the reference stress, intact below"
    eq(GM.diluting(k, s0, sv, m), [0, 0, 0, 0], 'exponent below one')
    eq(GM.diluting(k, s0, sv, j), [0, 0, 0, 0], 'exponent above one')
    eq(GM.diluting(k, s0, np.array([w*s0, sv[0], 0.5*s0, sv[1], s0]), m), [k*(1 - w)**m, 0, k*0.5**m, 0, 0], 'stresses on both sides')
