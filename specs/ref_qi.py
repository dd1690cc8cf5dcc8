"""Reference compositions for the quantitative-interpretation workflows."""
import numpy as np
from specs import ref_gm as G
from specs import ref_fluid as F


def hill(fr, m):
    v = sum([fr[i]*m[i] for i in range(len(m))])
    r = 1/sum([fr[i]/m[i] for i in range(len(m))])
    return (v + r)/2


def matrix(vsh, phic, phi, Msh, Mg, Mc):
    """Hill average over shale, grains and cement, as fractions of the solid"""
    s = 1 - phi
    return hill([vsh/s, (1 - phic - vsh)/s, (phic - phi)/s], [Msh, Mg, Mc])


def matden(vsh, phic, phi, Dsh, Dg, Dc):
    return (vsh*Dsh + (1 - phic - vsh)*Dg + (phic - phi)*Dc)/(1 - phi)


def solid(vsh, Msh, Mqz):
    return hill([vsh, 1 - vsh], [Msh, Mqz])


def satvel(Kd, Gd, K0, D0, Kf, Df, phi):
    return F.vel(F.gassmann(Kd, K0, Kf, phi), Gd, (1 - phi)*D0 + phi*Df)


def soft_line(K0, G0, D0, Kb, Db, phi, phic, Cn, sigma, f):
    k, g = G.softsand(K0, G0, phi, phic, Cn, sigma, f)
    return satvel(k, g, K0, D0, Kb, Db, phi)


def inc_line(K0, G0, D0, Kc, Gc, Kb, Db, phi, phib, phic, Cn, scheme):
    k, g = G.muhs(K0, G0, Kc, Gc, phi, phib, phic, Cn, scheme)
    return satvel(k, g, K0, D0, Kb, Db, phi)


def cem_line(K0, G0, Kc, Gc, Km, Dm, Kb, Db, phi, phic, Cn, scheme):
    k, g = G.contactcement(K0, G0, Kc, Gc, phi, phic, Cn, scheme)
    return satvel(k, g, Km, Dm, Kb, Db, phi)


def const_line(phib, K0, G0, D, Kc, Gc, Kb, Db, phi, phic, Cn, scheme):
    k, g = G.constantcement(phib, K0, G0, Kc, Gc, phi, phic, Cn, scheme)
    return satvel(k, g, K0, D, Kb, Db, phi)
