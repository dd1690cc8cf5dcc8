"""Pore-fluid properties against the Batzle-Wang and Xu equations."""
import numpy as np
from spec import eq
from rockphypy import BW
from specs import ref_bw as R
from specs.lib import each


def ob_reduced(P: '0.2..150', T: '-10..350', G: '0.5..2', Pv: '0.2..150[3]', Tv: '-10..350[3]', Pr: '0.01..30', Tr: '1.05..3', Prv: '0.01..30[3]', Trv: '1.05..3[3]'):
    "reduced pressure and temperature, slope of the compressibility factor"
    eq(BW.pseudo_p_t(P, T, G), R.pseudo(P, T, G), 'scalar')
    eq(BW.pseudo_p_t(Pv, Tv, G), each(lambda p, t: R.pseudo(p, t, G), 3, Pv, Tv), 'array')
    eq(BW.dz_dp(Pr, Tr), R.dz(Pr, Tr), 'slope')
    eq(BW.dz_dp(Prv, Trv), each(R.dz, 3, Prv, Trv), 'slope, array')


def ob_gas(P: '0.2..150', T: '-10..350', G: '0.5..2', Pv: '0.2..150[3]', Tv: '-10..350[3]'):
    "gas density and modulus"
    eq(BW.rho_K_gas(P, T, G), R.gas(P, T, G), 'scalar')
    eq(BW.rho_K_gas(Pv, Tv, G), each(lambda p, t: R.gas(p, t, G), 3, Pv, Tv), 'array')
    eq(BW.rho_K_gas(P, Tv, G), each(lambda t: R.gas(P, t, G), 3, Tv), 'temperature array')


def ob_co2(P: '8..60', T: '32..150', G: '1.4..1.6', Pv: '8..60[3]', Tv: '32..150[3]'):
    "CO2 density and modulus"
    eq(BW.rho_K_co2(P, T, G), R.co2(P, T, G), 'scalar', dev=R.co2(P, T, G, 273.5), finding='F08')
    eq(BW.rho_K_co2(Pv, Tv, G), each(lambda p, t: R.co2(p, t, G), 3, Pv, Tv), 'array', dev=each(lambda p, t: R.co2(p, t, G, 273.5), 3, Pv, Tv), finding='F08')


def ob_oil(P: '0.2..150', T: '-10..350', d: '0.5..1.05', Pv: '0.2..150[3]', Tv: '-10..350[3]'):
    "dead oil"
    eq(BW.rho_K_oil(P, T, d), R.oil(P, T, d), 'scalar')
    eq(BW.rho_K_oil(Pv, Tv, d), each(lambda p, t: R.oil(p, t, d), 3, Pv, Tv), 'array')


def ob_live(P: '0.2..120', T: '1..300', d: '0.8..0.95', G: '0.5..2', Rg: '-4..350', Pv: '0.2..120[3]', Tv: '1..300[3]'):
    "live oil, given gas ratio and at saturation"
    eq(BW.rho_K_go(P, T, d, G, Rg), R.live(P, T, d, G, Rg), 'given ratio')
    eq(BW.rho_K_go(Pv, Tv, d, G, Rg), each(lambda p, t: R.live(p, t, d, G, Rg), 3, Pv, Tv), 'given ratio, array')
    eq(BW.rho_K_go(P, T, d, G, None), R.live(P, T, d, G, R.max_ratio(P, T, d, G)), 'saturated')
    eq(BW.rho_K_go(Pv, Tv, d, G, None), each(lambda p, t: R.live(p, t, d, G, R.max_ratio(p, t, d, G)), 3, Pv, Tv), 'saturated, array')


def ob_water(T: '0..350', P: '0.1..100', Ph: '100.000001..150', Tv: '0..350[3]', Pv: '0.1..99[3]', Ti: 'int 5..150', Pi: 'int 1..99'):
    "pure water"
    eq(BW.v_water(T, P), R.vwater(T, P), 'speed')
    eq(BW.v_water(T, Ph), R.vwater(T, Ph), 'speed above the range that warns')
    eq(BW.v_water(Tv, Pv), each(R.vwater, 3, Tv, Pv), 'speed, array')
    eq(BW.rho_K_water(T, P), R.water(T, P), 'density and modulus')
    eq(BW.rho_K_water(Tv, Pv), each(R.water, 3, Tv, Pv), 'density and modulus, array')
    eq(BW.rho_K_water(Ti, Pi), R.water(Ti, Pi), 'integers')


def ob_brine(T: '0..350', P: '0.1..100', S: '0..0.5', Tv: '0..350[3]', Pv: '0.1..99[3]', Ti: 'int 5..150', Pi: 'int 1..99'):
    "brine"
    eq(BW.v_brine(T, P, S), R.vbrine(T, P, S), 'speed')
    eq(BW.v_brine(Tv, Pv, S), each(lambda t, p: R.vbrine(t, p, S), 3, Tv, Pv), 'speed, array')
    eq(BW.rho_K_brine(T, P, S), R.brine(T, P, S), 'density and modulus')
    eq(BW.rho_K_brine(Tv, Pv, S), each(lambda t, p: R.brine(t, p, S), 3, Tv, Pv), 'density and modulus, array')
    eq(BW.rho_K_brine(Ti, Pi, S), R.brine(Ti, Pi, S), 'integers')
    eq(BW.rho_K_brine(T, P, 0), R.water(T, P), 'fresh water')


def ob_mix(T: '35..120', P: '8..50', S: '0..0.5', Sg: '0..1', e: '0.5..60', Tv: '35..120[3]', Pv: '8..50[3]', Sv: '0..1[3]'):
    "CO2-brine mixture, uniform and patchy, by Xu and by Batzle-Wang gas"
    g = 1.5349
    b = R.brine(T, P, S)
    eq(BW.co2_brine(T, P, S, Sg), R.mix(R.co2(P, T, g), b, Sg, None), 'uniform', dev=R.mix(R.co2(P, T, g, 273.5), b, Sg, None), finding='F08')
    eq(BW.co2_brine(T, P, S, Sg, None, False), R.mix(R.co2(P, T, g), b, Sg, None), 'uniform, explicit', dev=R.mix(R.co2(P, T, g, 273.5), b, Sg, None), finding='F08')
    eq(BW.co2_brine(T, P, S, Sg, bw=True), R.mix(R.gas(P, T, g), b, Sg, None), 'uniform, gas equations')
    eq(BW.co2_brine(T, P, S, Sg, e, True), R.mix(R.gas(P, T, g), b, Sg, e), 'patchy, gas equations')
    eq(BW.co2_brine(T, P, S, Sg, brie_component=e), R.mix(R.co2(P, T, g), b, Sg, e), 'patchy', dev=R.mix(R.co2(P, T, g, 273.5), b, Sg, e), finding='F08')
    for k in (0, 0.0, 1):
        eq(BW.co2_brine(T, P, S, Sg, k, True), R.mix(R.gas(P, T, g), b, Sg, k), 'patchy, exponent %g' % k)
    f = lambda t, p, s: R.mix(R.gas(p, t, g), R.brine(t, p, S), s, None)
    eq(BW.co2_brine(Tv, Pv, S, Sv, bw=True), each(f, 3, Tv, Pv, Sv), 'arrays')
    f = lambda s: R.mix(R.gas(P, T, g), b, s, 3)
    eq(BW.co2_brine(T, P, S, Sv, 3, True), each(f, 3, Sv), 'saturation array, patchy')
