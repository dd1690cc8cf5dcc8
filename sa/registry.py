"""Public API table: documented parameters, their admissible ranges and kinds.

kinds:  s  scalar            v  float or array, elementwise      e  array required, elementwise
        a  array consumed as a whole          l  list or array consumed as a whole
        =  option values (first one is used unless enumerated)   M  6x6 matrix (vti, hti, ortho, svti)
"""
TEXT = """
EM.VRH | volumes l 0.1..0.3[3] | M l 1..80[3]
EM.cripor | K0 v 5..80 | G0 v 5..60 | phi v 0..0.35 | phic s 0.36..0.6
EM.cripor_reuss | M0 s 5..80 | Mf s 0.01..4 | phic s 0.3..0.6 | den = False,True
EM.HS | f s 0.05..0.95 | K1 v 5..80 | K2 v 0.5..70 | G1 v 5..60 | G2 v 0.5..50 | bound = 'upper','lower'
EM.Eshelby_Cheng | K s 10..80 | G s 5..60 | phi s 0.001..0.2 | alpha s 0.001..0.5 | Kf s 0.01..4 | mat = False,True
EM.hudson | K s 10..80 | G s 5..60 | Ki s 0.01..4 | Gi s 0.01..3 | alpha s 0.001..0.5 | crd s 0.001..0.1 | order = 1,2 | axis = 3,1
EM.hudson_rand | K v 10..80 | G v 5..60 | Ki s 0.01..4 | Gi s 0.01..3 | alpha s 0.001..0.5 | crd s 0.001..0.1
EM.hudson_ortho | K s 10..80 | G s 5..60 | Ki s 0.01..4 | Gi s 0.01..3 | alpha a 0.001..0.5[3] | crd a 0.001..0.1[3]
EM.hudson_cone | K s 10..80 | G s 5..60 | Ki s 0.01..4 | Gi s 0.01..3 | alpha s 0.001..0.5 | crd s 0.001..0.1 | theta s 1..89
EM.Berryman_sc | K l 2..60[2] | G l 1..50[2] | X l 0.2..0.8[2] | Alpha l 0.01..1[2]
EM.PQ_vectorize | Km s 5..80 | Gm s 5..60 | Ki a 0.1..80[3] | Gi a 0.1..60[3] | alpha a 0.01..1[3]
EM.Berryman_func | params l 10..40[2] | K a 2..60[3] | G a 1..50[3] | X a 0.1..0.5[3] | Alpha a 0.01..1[3]
EM.Swiss_cheese | Ks s 5..80 | Gs s 5..60 | phi v 0.01..0.4
EM.SC | phi v 0.01..0.3 | Ks s 5..80 | Gs s 5..60 | iter_n = 3,1,2
EM.Dilute_crack | Ks s 5..80 | Gs s 5..60 | cd v 0.001..0.3
EM.OConnell_Budiansky | K0 s 5..80 | G0 s 5..60 | crd v 0.001..0.3
EM.OConnell_Budiansky_fl | K0 s 20..50 | G0 s 10..45 | Kfl s 0.01..1 | crd s 0.01..0.2 | alpha s 0.005..0.05
EM.OC_R_funcs | params l 0.1..0.4[2] | crd s 0.01..0.3 | nu_0 s 0.05..0.4 | w s 0.1..5
EM.PQ | Km s 5..80 | Gm s 5..60 | Ki s 0.1..80 | Gi s 0.1..60 | alpha s 0.001..10
EM.DEM | y a 10..60[2] | t s 0.01..0.8 | params l 0.01..0.9[3]
EM.Berryman_DEM | Km s 20..60 | Gm s 20..50 | Ki s 0.01..5 | Gi s 0.01..5 | alpha s 0.01..0.99 | phi = 0.2
EM.SC_dilute | Km s 5..80 | Gm s 5..60 | Ki s 0.1..4 | Gi s 0.1..4 | f v 0.01..0.4 | mode = 'stress','strain'
EM.SC_flex | f v 0.01..0.3 | iter_n = 2,1,3 | Km s 20..80 | Ki s 0.1..4 | Gm s 20..60 | Gi s 0.1..4
EM.MT_average | f v 0.01..0.99 | Kmat s 5..60 | Gmat s 5..60 | K1 s 5..80 | G1 s 5..80 | K2 s 0.1..80 | G2 s 0.1..80
GM.ThomasStieber | phi_sand s 0.2..0.4 | phi_sh s 0.05..0.19 | vsh v 0..1
GM.silty_shale | C v 0.01..0.99 | Kq s 20..60 | Gq s 20..60 | Ksh s 5..19 | Gsh s 2..19
GM.shaly_sand | phis s 0.3..0.5 | C v 0.01..0.29 | Kss s 2..40 | Gss s 2..40 | Kcc s 2..40 | Gcc s 2..40
GM.contactcement | K0 s 20..60 | G0 s 15..60 | Kc s 10..60 | Gc s 8..50 | phi v 0.2..0.34 | phic s 0.35..0.5 | Cn s 4..14 | scheme = 1,2
GM.hertzmindlin | K0 s 20..60 | G0 s 15..60 | phic s 0.3..0.5 | Cn s 3..14 | sigma v 1..100 | f s 0.01..0.99
GM.softsand | K0 s 20..60 | G0 s 15..60 | phi v 0.01..0.3 | phic s 0.31..0.5 | Cn s 3..14 | sigma v 1..100 | f s 0.01..0.99
GM.Walton | K0 s 20..60 | G0 s 15..60 | phic s 0.3..0.5 | Cn s 3..14 | sigma v 1..100 | f s 0.01..0.99
GM.johnson | K0 s 20..60 | G0 s 20..60 | n s 4..12 | phi s 0.3..0.45 | epsilon s -0.05..-0.001 | epsilon_axial s -0.1..-0.002 | path = 'together','uni_iso','iso_uni'
GM.stiffsand | K0 s 20..60 | G0 s 15..60 | phi v 0.01..0.3 | phic s 0.31..0.5 | Cn s 3..14 | sigma v 1..100 | f s 0.01..0.99
GM.constantcement | phi_b s 0.25..0.34 | K0 s 20..60 | G0 s 15..60 | Kc s 10..60 | Gc s 8..50 | phi v 0.01..0.24 | phic s 0.35..0.5 | Cn s 4..14 | scheme = 1,2
GM.MUHS | K0 s 20..60 | G0 s 15..60 | Kc s 10..60 | Gc s 8..50 | phi v 0.01..0.24 | phi_b s 0.25..0.34 | phic s 0.35..0.5 | Cn s 4..14 | scheme = 1,2
GM.Digby | K0 s 20..60 | G0 s 20..60 | phi s 0.3..0.45 | Cn s 4..12 | sigma v 1..60 | a_R s 0.02..0.3
GM.pcm | f s 0.05..0.95 | sigma v 0.1..60 | K0 s 30..60 | G0 s 30..60 | phi v 0.01..0.3 | phic s 0.35..0.5 | v_cem s 0.01..0.1 | v_ci s 0.01..0.1 | Kc s 20..60 | Gc s 15..50 | Cn s 4..14 | mode = 'stiff','soft' | scheme = 2,1 | f_ s 0.01..0.99
GM.diluting | k s 0.2..2 | sigma0 s 31..60 | sigma e 1..30 | m s 0.5..3
GM.vpcm | alpha v 0.01..0.99 | f s 0.05..0.95 | sigma v 0.1..60 | K0 s 30..60 | G0 s 30..60 | phi v 0.01..0.3 | phic s 0.35..0.5 | v_cem s 0.01..0.1 | v_ci s 0.01..0.1 | Kc s 20..60 | Gc s 15..50 | Cn s 4..14 | scheme = 2,1 | f_ s 0.01..0.99
Fluid.Brie | Kw s 1.5..4 | Kgas s 0.01..0.5 | Sw v 0.01..0.99 | e s 1..40
Fluid.Biot | Kdry v 5..20 | Gdry v 5..20 | K0 s 35..40 | Kfl s 0.5..3 | rho0 s 2.5..2.8 | rhofl s 0.7..1.1 | eta s 0.5..2 | phi s 0.1..0.3 | kapa s 0.5..3 | a s 0.5..2 | alpha s 1..3 | freq e 0.5..3
Fluid.Biot_HF | Kdry v 5..20 | Gdry v 5..20 | K0 s 35..40 | Kfl s 0.5..3 | rho0 s 2.5..2.8 | rhofl s 0.7..1.1 | phi s 0.1..0.3 | alpha s 1..3
Fluid.Geertsma_Smit_HF | Kdry v 5..20 | Gdry v 5..20 | K0 s 35..40 | Kfl s 0.5..3 | rho0 s 2.5..2.8 | rhofl s 0.7..1.1 | phi s 0.1..0.3 | alpha s 1..3
Fluid.Geertsma_Smit_LF | Vp0 s 2..4 | Vpinf s 2..5 | freq v 1..1000 | phi s 0.05..0.35 | rhofl s 0.5..1.2 | kapa s 0.1..3 | eta s 0.1..3
Fluid.Gassmann | K_dry v 1..30 | G_dry v 1..40 | K_mat s 31..80 | Kf s 0.01..4 | phi v 0.01..0.5
Fluid.Gassmann_sub | phi v 0.02..0.4 | K0 s 31..80 | Ksat1 v 5..30 | Kfl1 s 0.01..4 | Kfl2 s 0.01..4
Fluid.vels | K_dry v 1..30 | G_dry v 1..40 | K0 s 31..80 | D0 s 2.4..3 | Kf s 0.01..4 | Df s 0.1..1.2 | phi v 0.01..0.5
Fluid.Gassmann_vels | Vp1 v 2.9..4 | Vs1 v 1..2 | rho1 s 2..2.6 | rhofl1 s 0.1..1.2 | Kfl1 s 0.01..4 | rhofl2 s 0.1..1.2 | Kfl2 s 0.01..4 | K0 s 45..80 | phi v 0.02..0.4
Fluid.Gassmann_approx | Msat1 v 10..50 | M0 s 60..120 | Mfl1 s 0.01..4 | phi s 0.02..0.4 | Mfl2 s 0.01..4
Fluid.Brown_Korringa_dry2sat | Sdry M svti | K0 s 30..80 | G0 s 20..50 | Kfl s 0.1..4 | phi s 0.02..0.4
Fluid.Brown_Korringa_sat2dry | Ssat M svti | K0 s 30..80 | G0 s 20..50 | Kfl s 0.1..4 | phi s 0.02..0.4
Fluid.Brown_Korringa_sub | Csat M vti | K0 s 60..80 | G0 s 20..50 | Kfl1 s 0.5..4 | Kfl2 s 0.5..4 | phi s 0.05..0.3
Fluid.Mavko_Jizba | Vp_hs s 4500..5500 | Vs_hs s 2800..3200 | Vpdry e 3000..4400 | Vsdry e 1800..2600 | K0 s 70..90 | rhodry s 2..2.5 | rhofl s 0.5..1.2 | Kfl s 0.1..4 | phi s 0.02..0.3
Fluid.Squirt_anisotropic | Sdry l 0.05..0.1[5] | Sdry_hp l 0.005..0.02[5]
Fluid.White_Dutta_Ode | Kdry s 5..10 | Gdry s 5..10 | K0 s 35..40 | phi s 0.2..0.3 | rho0 s 2.5..2.7 | rhofl1 s 0.05..0.2 | rhofl2 s 0.9..1.1 | Kfl1 s 0.05..0.2 | Kfl2 s 2..3 | eta1 s 0.1..0.3 | eta2 s 0.8..1.2 | kapa s 0.8..1.2 | a s 0.8..1.2 | sg s 0.1..0.6 | freq v 0.05..0.3
AVO.AVO_HTI | D1 s 2..2.6 | D2 s 2..2.8 | C1 M hti | C2 M hti | theta a 1..40[3] | azimuth a 1..89[2]
AVO.Aki_Richards | theta v 1..40 | vp1 s 2500..4000 | vp2 s 2800..5000 | vs1 s 900..2000 | vs2 s 900..2500 | den1 s 1900..2500 | den2 s 2000..2800
AVO.zoeppritz | vp1 s 3000..5000 | vs1 s 1500..3200 | rho1 s 2000..2700 | vp2 s 1800..2900 | vs2 s 700..1700 | rho2 s 1900..2800 | theta v 1..40
AVO.AVO_abe | vp1 v 1500..4000 | vs1 v 600..1000 | d1 v 1.9..2.5 | vp2 v 1800..5000 | vs2 v 700..1200 | d2 v 2..2.8
AVO.EI_ref | Vp s 2000..4000 | Vs s 1000..1900 | rho s 2..2.6 | theta a 1..40[3] | SP s 0.45..0.55 | norm = False,True
AVO.AVO_ortho | a1 v 2..4 | b1 v 1..2 | e11 v -0.1..0.2 | d11 v -0.1..0.2 | e12 v -0.1..0.2 | d12 v -0.1..0.2 | g1 v -0.1..0.2 | rho1 v 2..2.6 | a2 v 2..5 | b2 v 1..2.5 | e21 v -0.1..0.2 | d21 v -0.1..0.2 | e22 v -0.1..0.2 | d22 v -0.1..0.2 | g2 v -0.1..0.2 | rho2 v 2..2.8 | the v 1..40
Anisotropy.Thomsen | C11 v 30..60 | C33 v 25..50 | C13 v 3..15 | C44 v 5..18 | C66 v 5..25 | den s 2..3 | theta v 1..89
Anisotropy.Thomsen_Tsvankin | C11 v 30..60 | C22 v 30..60 | C33 v 30..50 | C12 v 5..15 | C13 v 3..15 | C23 v 3..15 | C44 v 5..9 | C55 v 10..18 | C66 v 5..25
Anisotropy.Backus | V l 0.1..1[3] | lamda l 5..20[3] | G l 5..30[3]
Anisotropy.Backus_log | Vp l 2.5..5[3] | Vs l 1..1.5[3] | Den l 2..2.8[3] | Depth l 1000..1003,1004..1006,1007..1009,1010..1020
Anisotropy.vel_azi_HTI | C M hti | Den s 2..3 | azimuth v 1..89
Anisotropy.vel_azi_VTI | C M vti | Den s 2..3 | azimuth v 1..89
Anisotropy.Bond_trans | C M vti | theta s 1..89 | axis = 3,1
BW.dz_dp | P_pr v 0.2..10 | T_pr v 1.05..3
BW.pseudo_p_t | P v 1..60 | T v 10..150 | G s 0.56..1.6
BW.rho_K_co2 | P v 8..60 | T v 32..150 | G s 1.4..1.6
BW.rho_K_gas | P v 1..60 | T v 10..150 | G s 0.56..1.2
BW.rho_K_oil | P v 1..60 | T v 10..150 | den s 0.7..0.95
BW.rho_K_go | P v 5..40 | T v 20..100 | den s 0.8..0.95 | G s 0.6..1.2 | Rg s 10..150
BW.rho_K_water | T v 5..150 | P v 1..99
BW.v_water | T v 5..150 | P v 1..99
BW.rho_K_brine | T v 5..150 | P v 1..99 | S v 0.001..0.3
BW.v_brine | T v 5..150 | P v 1..99 | S v 0.001..0.3
BW.co2_brine | temperature v 35..120 | pressure v 8..50 | salinity v 0.01..0.3 | Sco2 v 0.01..0.99 | brie_component = None,3,5 | bw = False,True
Empirical.krief | phi v 0.01..0.5 | Kg s 20..80 | Gg s 10..60
Empirical.esti_VS | Vp v 1800..6000 | vsh v 0.01..0.99
Empirical.han | phi v 0.01..0.35 | C v 0.01..0.5
Empirical.ehrenberg | Z v 100..5000
Empirical.yu_segment_trend | Z v 100..5000
Empirical.ramm_porosity | Z v 100..5000 | HB = True,False
Empirical.ramm_porosity_segment | Z v 100..4500
Empirical.empirical_StPeter | Pe v 0.01..1 | sample = 1,2
Empirical.Scherbaum | Z v 100..5000
Empirical.Sclater | phi v 0.02..0.45
Empirical.Storvoll | Z v 100..5000
Empirical.Hillis | Z v 100..5000
Empirical.Japsen | Z v 100..5200
Empirical.hjelstuen | Z v 100..3700
Empirical.Cp | phi v 0.05..0.5
Permeability.Kozeny_Carman | phi v 0.02..0.45 | d s 0.1..500
Permeability.Kozeny_Carman_Percolation | phi v 0.06..0.45 | phic s 0.001..0.05 | d s 0.1..500 | B s 0.001..0.1
Permeability.Owolabi | phi v 0.02..0.4 | Swi v 0.05..0.9
Permeability.Perm_logs | phi v 0.02..0.4 | Swi v 0.05..0.9
Permeability.Panda_Lake | d s 1..500 | C s 0.1..1 | S s 0.1..1 | tau s 1..4 | phi v 0.05..0.45
Permeability.Panda_Lake_cem | phi v 0.05..0.45 | d s 1..500
Permeability.Revil | phi v 0.05..0.45 | d s 1..500
Permeability.Fredrich | phi v 0.05..0.45 | d s 1..500 | b s 2..3
Permeability.Bloch | S s 1.1..3 | C s 30..100 | D s 0.05..1
Permeability.Bernabe | phi v 0.02..0.4 | crf s 0.1..0.9 | w s 0.1..10 | r s 0.5..50
utils.V | K v 1..80 | G v 1..60 | rho v 1.5..3
utils.poi | K v 1..80 | G v 1..60
utils.lame | K v 1..80 | G v 1..60
utils.M_from_V | den v 1.5..3 | vp v 2000..6000 | vs v 500..1900
utils.write_HTI_matrix | C11 s 25..60 | C33 s 30..60 | C13 s 5..14 | C44 s 5..12 | C55 s 5..12
utils.write_VTI_compliance | S11 s 0.02..0.05 | S12 s -0.01..-0.001 | S13 s -0.01..-0.001 | S33 s 0.02..0.05 | S44 s 0.05..0.1
utils.write_VTI_matrix | C11 s 25..60 | C33 s 30..60 | C13 s 5..14 | C44 s 5..12 | C66 s 5..12
utils.write_matrix | C11 s 25..60 | C22 s 25..60 | C33 s 25..60 | C12 s 5..14 | C13 s 5..14 | C23 s 5..14 | C44 s 5..12 | C55 s 5..12 | C66 s 5..12
utils.write_iso | K s 1..80 | G s 1..60
utils.crack_por | crd v 0.001..0.1 | alpha v 0.001..0.5
utils.v_to_c_VTI | Vp0 s 3..5 | Vp45 s 3.2..5 | Vp90 s 3.5..5 | Vs0 s 1..2 | Vsh90 s 1..2.2 | den s 2..2.8
QI.matrix_modulus | vsh s 0.02..0.3 | phi_c s 0.38..0.42 | phi_0 e 0.02..0.3 | M_sh s 5..25 | M_g s 30..40 | M_c s 30..80
QI.den_matrix | vsh s 0.02..0.3 | phi_c s 0.38..0.42 | phi_0 v 0.02..0.3 | den_sh s 2.3..2.6 | den_g s 2.6..2.7 | den_c s 2.6..2.9
QI.screening | Dqz s 2.6..2.7 | Kqz s 35..40 | Gqz s 40..45 | Dsh s 2.3..2.6 | Ksh s 15..25 | Gsh s 6..10 | Dc s 2.6..2.8 | Kc s 35..40 | Gc s 40..45 | Db s 0.9..1.1 | Kb s 2..3 | phib_p = 0.3,0.25 | phi_c = 0.4,0.38 | sigma s 5..40 | vsh s 0.02..0.3 | scheme = 2,1 | f s 0.01..0.99 | Cn s 6..9
QI.normalize | density a 0.1..5[4]
QI.cst_vels | phi_b s 0.3..0.35 | K0 s 25..40 | D0 s 2.5..2.7 | G0 s 20..45 | phi v 0.02..0.29 | phi_c s 0.38..0.42 | Cn s 6..9 | Kc s 35..40 | Gc s 40..45 | Db s 0.9..1.1 | Kb s 2..3 | scheme = 2,1 | vsh s 0.02..0.3 | Dsh s 2.3..2.6 | Dqz s 2.6..2.7 | Dc s 2.6..2.8
QI.cal_v_const | Dqz s 2.6..2.7 | Kqz s 35..40 | Gqz s 40..45 | Dsh s 2.3..2.6 | Ksh s 15..25 | Gsh s 6..10 | Dc s 2.6..2.8 | Kc s 35..40 | Gc s 40..45 | Db s 0.9..1.1 | Kb s 2..3 | phi_b s 0.25..0.35 | phi_c s 0.38..0.42 | vsh s 0.02..0.3 | phi e 0.02..0.24 | scheme = 2,1 | Cn = None,8.5
"""


class Par:
    def __init__(self, name, kind, spec):
        self.name = name
        self.kind = kind
        self.spec = spec
        self.opts = [x.strip() for x in spec.split(",")] if kind == "=" else None

    def rng(self):
        return self.spec.split("[")[0]

    def n(self):
        return int(self.spec.split("[")[1][:-1]) if "[" in self.spec else None


class Entry:
    def __init__(self, name, pars):
        self.name = name
        self.cls, self.fn = name.split(".")
        self.pars = pars
        self.id = name.replace(".", "_")


def load():
    out = []
    for line in TEXT.strip().splitlines():
        cells = [c.strip() for c in line.split("|")]
        ps = []
        for c in cells[1:]:
            n, k, s = c.split(None, 2)
            ps.append(Par(n, k, s))
        out.append(Entry(cells[0], ps))
    return out
