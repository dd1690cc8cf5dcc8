"""Reference forms: empirical trends and permeability relations."""
import numpy as np


def krief(phi, Kg, Gg):
    m = (1 - phi)**(3/(1 - phi))
    return m*(Kg - 2*Gg/3), m*Gg, m*Kg


def gc(Vp, vsh):
    """Greenberg and Castagna, sandstone and shale"""
    a = 0.80416*Vp - 855.88
    b = 0.76969*Vp - 867.35
    return ((1 - vsh)*a + vsh*b + 1/((1 - vsh)/a + vsh/b))/2


def han(phi, C):
    """Han (1986), 40 MPa"""
    return 5590 - 6930*phi - 2180*C, 3520 - 4910*phi - 1890*C


def stpeter(Pe, k):
    c = [(4210, 187, 746, 24, 2580, 160, 781, 20), (4550, 298, 800, 19, 2830, 195, 741, 16)][k - 1]
    return c[0] + c[1]*Pe - c[2]*np.exp(-c[3]*Pe), c[4] + c[5]*Pe - c[6]*np.exp(-c[7]*Pe)


def panda(d, C, S, tau, phi):
    g = (C**3*S + 3*C**2 + 1)/(1 + C**2)
    return d**2*phi**3*g*g/(72*tau*(1 - phi)**2)
