"""Reference forms: Batzle and Wang (1992) fluid properties, Xu (2006) CO2."""
import numpy as np

W = [[1402.85, 1.524, 3.437e-3, -1.197e-5],
     [4.871, -0.0111, 1.739e-4, -1.628e-6],
     [-0.04783, 2.747e-4, -2.135e-6, 1.237e-8],
     [1.487e-4, -6.503e-7, -1.455e-8, 1.327e-10],
     [-2.197e-7, 7.987e-10, 5.230e-11, -4.614e-13]]


def steep(Tr):
    """the coefficient of Ppr^1.2 in the exponent of the compressibility factor"""
    return (0.45 + 8*(0.56 - 1/Tr)**2)/Tr


def zfac(Pr, Tr):
    a = 0.03 + 0.00527*(3.5 - Tr)**3
    k = steep(Tr)
    return a*Pr + 0.642*Tr - 0.007*Tr**4 - 0.52 + 0.109*(3.85 - Tr)**2*np.exp(-k*Pr**1.2)


def dz(Pr, Tr):
    k = steep(Tr)
    return 0.03 + 0.00527*(3.5 - Tr)**3 - 0.109*(3.85 - Tr)**2*1.2*k*Pr**0.2*np.exp(-k*Pr**1.2)


def gas_state(P, Ta, G, Pr, Tr):
    Z = zfac(Pr, Tr)
    rho = 28.8*G*P/(Z*8.3145*Ta)
    g0 = 0.85 + 5.6/(Pr + 2) + 27.1/(Pr + 3.5)**2 - 8.7*np.exp(-0.65*(Pr + 1))
    return rho, P*g0/(1 - Pr/Z*dz(Pr, Tr))/1000


def pseudo(P, T, G):
    Ta = T + 273.15
    return Ta, P/(4.892 - 0.4048*G), Ta/(94.72 + 170.75*G)


def gas(P, T, G):
    Ta, Pr, Tr = pseudo(P, T, G)
    return gas_state(P, Ta, G, Pr, Tr)


def co2(P, T, G, zero=273.15):
    """critical point of CO2: 7.4 MPa, 31.1 degrees Celsius"""
    Ta = T + 273.15
    return gas_state(P, Ta, G, P/7.4, Ta/(31.1 + zero))


def oil_speed(d, T, P):
    return 2096*np.sqrt(d/(2.6 - d)) - 3.7*T + 4.64*P + 0.0115*(4.12*np.sqrt(1.08/d - 1) - 1)*T*P


def oil(P, T, d):
    rp = d + (0.00277*P - 1.71e-7*P**3)*(d - 1.15)**2 + 3.49e-4*P
    rho = rp/(0.972 + 3.81e-4*(T + 17.78)**1.175)
    v = oil_speed(d, T, P)/1000
    return rho, rho*v*v


def max_ratio(P, T, d, G):
    return 0.02123*G*(P*np.exp(4.072/d - 0.00377*T))**1.205


def live(P, T, d, G, Rg):
    B = 0.972 + 0.00038*(2.4*Rg*np.sqrt(G/d) + T + 17.8)**1.175
    v = oil_speed(d/(B*(1 + 0.001*Rg)), T, P)/1000
    rho = (d + 0.0012*G*Rg)/B
    return rho, rho*v*v


def vwater(T, P):
    return sum([W[i][j]*T**i*P**j for i in range(5) for j in range(4)])


def rwater(T, P):
    return 1 + (-80*T - 3.3*T*T + 0.00175*T**3 + 489*P - 2*T*P + 0.016*T*T*P - 1.3e-5*T**3*P - 0.333*P*P - 0.002*T*P*P)/1000000


def water(T, P):
    rho = rwater(T, P)
    return rho, rho*(vwater(T, P)/1000)**2


def vbrine(T, P, S):
    return (vwater(T, P) + S*(1170 - 9.6*T + 0.055*T*T - 8.5e-5*T**3 + 2.6*P - 0.0029*T*P - 0.0476*P*P)
            + S**1.5*(780 - 10*P + 0.16*P*P) - 820*S*S)


def brine(T, P, S):
    rho = rwater(T, P) + S*(0.668 + 0.44*S + (300*P - 2400*P*S + T*(80 + 3*T - 3300*S - 13*P + 47*P*S))/1000000)
    return rho, rho*(vbrine(T, P, S)/1000)**2


def mix(gasprops, brineprops, Sg, e):
    """(density, modulus) of a CO2-brine mixture; e is None for a uniform mixture"""
    rg, Kg = gasprops
    rb, Kb = brineprops
    rho = (1 - Sg)*rb + Sg*rg
    if e is None:
        return rho, 1/((1 - Sg)/Kb + Sg/Kg)
    return rho, Kg + (Kb - Kg)*(1 - Sg)**e
