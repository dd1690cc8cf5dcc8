From 74a49995e46b7df28470575e514db4f23636dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 01/19] fix: PQ_vectorize no longer overwrites the caller's
 aspect ratios

alpha_ was an alias of alpha, so a spherical phase (alpha == 1) was changed to
0.999 in the caller's array and the closed form for spheres was never used.
---
 rockphypy/EM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index eb34cc6..97bf622 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -492,7 +492,8 @@ class EM:
         P = np.empty(dim)
         Q = np.empty(dim)
         theta = np.empty(dim)
-        alpha_ = alpha # copy and modfiy
+        alpha = np.asanyarray(alpha)
+        alpha_ = alpha.astype(float) # copy and modfiy
         alpha_[alpha==1]=0.999 # when alpha_ is 1, the f is nan
 
         theta[alpha_<1]=alpha_[alpha_<1]/(1.0 - alpha_[alpha_<1]**2)**(3.0/2.0) * (np.arccos(alpha_[alpha_<1]) - alpha_[alpha_<1]*np.sqrt(1.0 - alpha_[alpha_<1]**2))
-- 
2.43.0


From 079344700853282bd88443dbab4325541d0b0da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 02/19] fix: PQ uses the inverse hyperbolic cosine for prolate
 inclusions

Berryman (1980) has cosh^-1(alpha), the inverse function; the code took the
reciprocal of cosh(alpha).
---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 97bf622..ed9541a 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -755,7 +755,7 @@ class EM:
             if alpha<1:
                 theta= alpha/(1.0 - alpha**2)**(3.0/2.0) * (np.arccos(alpha) - alpha*np.sqrt(1.0 - alpha**2))
             else:
-                theta= alpha/(alpha**2-1)**(3.0/2.0) * ( alpha*(alpha**2-1)**0.5 -np.cosh(alpha)**-1)
+                theta= alpha/(alpha**2-1)**(3.0/2.0) * ( alpha*(alpha**2-1)**0.5 -np.arccosh(alpha))
             f= alpha**2*(3.0*theta - 2.0)/(1.0 - alpha**2)
             A = Gi/Gm - 1.0
             B = (Ki/Km - Gi/Gm)/3.0
-- 
2.43.0


From cddf4f56b7a303c47aac8d6ce986cfdfec66725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 03/19] fix: SC_flex starts the shear modulus iteration from
 the matrix shear modulus

---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index ed9541a..33784fb 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -889,7 +889,7 @@ class EM:
         """    
         
         K_eff=Km
-        G_eff=Km
+        G_eff=Gm
         for i in range(iter_n):
             nu = 0.5* (3*K_eff- 2*G_eff)/(3*K_eff+G_eff) # Poisson's ratio
             S1 = 1/3 * (1+nu)/( 1-nu)
-- 
2.43.0


From c269797c80e4022a8c52ba90925e75c039f5dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 04/19] fix: silty_shale bulk modulus uses the shale as
 reference medium in both terms

The lower Hashin-Shtrikman bound adds 4/3 of the shale shear modulus to every
phase; with 4/3 Gq in the silt term the result did not reach Kq at C=0.
---
 rockphypy/GM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 2867e50..59cf319 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -66,7 +66,7 @@ class GM:
             K_sat, G_sat: elastic moduli of the saturated silty shale.
         """       
 
-        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gq/3) )**-1 -4*Gsh/3
+        K_sat = ( C/(Ksh+4*Gsh/3)+ (1-C)/(Kq+4*Gsh/3) )**-1 -4*Gsh/3
         Zsh = Gsh/6 *(9*Ksh+8*Gsh)/(Ksh+2*Gsh)
         G_sat = (C/(Gsh+Zsh) + (1-C)/(Gq+Zsh))**-1 -Zsh
         return K_sat,G_sat
-- 
2.43.0


From 9ac252abc25b2e2c9b0cae9bbda98715db69c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 05/19] fix: johnson accepts the documented path 'iso_uni'

The documented name fell through every branch and raised UnboundLocalError; the
normal-stiffness term of sigma11 on that path was inside the Ct bracket.
---
 rockphypy/GM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index 59cf319..c2a8585 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -347,9 +347,9 @@ class GM:
         elif path == 'uni_iso':
             sigma33 = 2*Temp*(1/12*Ct+Cn*(alpha**2*I2+I4))
             sigma11 =Temp*(-1/12*Ct+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
-        elif path == 'iso-uni':
+        elif path in ('iso_uni', 'iso-uni'):
             sigma33 = 2*Temp*(Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I2+I4))
-            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4)))
+            sigma11 = Temp*(-Ct*(alpha**2*I0+(1-alpha**2)*I2-I4-2*alpha**3/3)+Cn*(alpha**2*I0+(1-alpha**2)*I2-I4))
 
         return C, sigma33,sigma11
 
-- 
2.43.0


From a8fe3a5d2e20fe09c2192f43b7ff417204a0ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 06/19] fix: Digby handles an array of stresses as documented

---
 rockphypy/GM.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rockphypy/GM.py b/rockphypy/GM.py
index c2a8585..ed08ef2 100644
--- a/rockphypy/GM.py
+++ b/rockphypy/GM.py
@@ -511,12 +511,13 @@ class GM:
         - Digby, P.J., 1981. Journal of Applied Mechanics, 48, 803–808.
         """        
            
-        sigma =sigma/1000 # converts pressure unit to GPa
+        sigma =np.atleast_1d(sigma)/1000 # converts pressure unit to GPa
         nu=(3*K0-2*G0)/(6*K0+2*G0) # poisson's ratio of mineral mixture
         
-        coeff= np.array([1,0, 3/2* a_R**2, - 3*np.pi*(1-nu)*sigma/(2*Cn*(1-phi)*G0)]) # coeffs of cubic equation
-        roots= np.roots(coeff)
-        root= roots.real[roots.real>=0]
+        root= np.empty(sigma.size)
+        for i, val in enumerate(sigma):
+            coeff= np.array([1,0, 3/2* a_R**2, - 3*np.pi*(1-nu)*val/(2*Cn*(1-phi)*G0)]) # coeffs of cubic equation
+            root[i]= np.roots(coeff).real.max() # the only real root, complex roots have negative real part
         b_R= np.sqrt(root**2+a_R**2)
         Sn_R= 4*G0*b_R/(1-nu)
         St_R= 8*G0*a_R/(2-nu)
-- 
2.43.0


From a9176f66e192f5f3d7b0c692c4ec3e5a367d2a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 07/19] fix: Fredrich specific surface area is 6(1-phi)/d, not
 6(1-phi)*d

---
 rockphypy/Perm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Perm.py b/rockphypy/Perm.py
index 8b7b2fc..b218f64 100644
--- a/rockphypy/Perm.py
+++ b/rockphypy/Perm.py
@@ -216,7 +216,7 @@ class Permeability:
         # formation factor assuming tau^2=2.5
         F= 2.5/phi
         # pore surface area per unit sample volume
-        Sv= 6*(1-phi)*d
+        Sv= 6*(1-phi)/d
         # permeability
         k= 1/(b*F) * (phi/Sv)**2
         return k
-- 
2.43.0


From 7cbfaf6e3920ed906599ce11c9dd3986c68eb738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 08/19] fix: Han clay coefficient of Vp is 2.18

Digits were transposed (2.81); the coefficients are those of the 40 MPa regression.
---
 rockphypy/Emp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index c3a885d..01957fd 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -65,7 +65,7 @@ class Empirical:
 
     @staticmethod
     def han(phi,C):
-        """Han (1986) found empirical regressions relating ultrasonic (laboratory) velocities to porosity and clay content.effective pressure is 20Mpa
+        """Han (1986) found empirical regressions relating ultrasonic (laboratory) velocities to porosity and clay content.effective pressure is 40Mpa
 
         Parameters
         ----------
@@ -79,7 +79,7 @@ class Empirical:
             P and S wave velocities
         """        
              
-        vp=5.59-6.93*phi-2.81*C
+        vp=5.59-6.93*phi-2.18*C
         vs=3.52-4.91*phi-1.89*C
         return vp*1000,vs*1000
 ########################################################## to do 
-- 
2.43.0


From fe6203cc2170da970ca5966d9b1f6f966ca7c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 09/19] fix: yu_segment_trend keeps the order of the input
 depths and accepts a float

Stacking the shallow samples before the deep ones permuted unsorted input.
---
 rockphypy/Emp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index 01957fd..983f149 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -121,9 +121,10 @@ class Empirical:
             P wave velocities
         """        
         
-        V1=1707.998+0.66*Z[Z<=2630]
-        V2=1200.84+0.853*Z[Z>2630]
-        V= np.hstack((V1,V2))
+        Z= np.asanyarray(Z)
+        V1=1707.998+0.66*Z
+        V2=1200.84+0.853*Z
+        V= np.where(Z<=2630,V1,V2)
         return V
 
     @staticmethod
-- 
2.43.0


From 6d02aebd2de16f35e0177c50d17e024b40ae15a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 10/19] fix: Japsen keeps the order of the input depths and
 accepts a float

Unsorted input was permuted and depths of 5300 m and more were dropped from the
result; they are now NaN, the relation being defined above 5300 m only.
---
 rockphypy/Emp.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index 983f149..3d2697b 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -284,11 +284,12 @@ class Empirical:
             Vp m/s
         """        
         
-        V1=1550+0.6*Z[Z<1393]
-        V2= -400+2*Z[(Z>=1393)&(Z<2000)]
-        V3=2600+0.5*Z[(Z>=2000)&(Z<3500)]
-        V4=3475+0.25*Z[(Z>=3500)&(Z<5300)]
-        V= np.hstack((V1,V2,V3,V4))
+        Z= np.asanyarray(Z)
+        V1=1550+0.6*Z
+        V2= -400+2*Z
+        V3=2600+0.5*Z
+        V4=3475+0.25*Z
+        V= np.where(Z<1393,V1,np.where(Z<2000,V2,np.where(Z<3500,V3,np.where(Z<5300,V4,np.nan))))
         return V
 
     @staticmethod    
-- 
2.43.0


From e439176dc821c3d33edc47c5832f4a62c626dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 11/19] fix: ramm_porosity_segment accepts a float depth as
 documented

---
 rockphypy/Emp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rockphypy/Emp.py b/rockphypy/Emp.py
index 3d2697b..05de9f7 100644
--- a/rockphypy/Emp.py
+++ b/rockphypy/Emp.py
@@ -166,8 +166,7 @@ class Empirical:
         """        
         phi1= 45*np.exp(-0.00025*Z)
         phi2= 25-0.013*(Z-2500)
-        phi1[phi1>phi2]=phi2[phi2<phi1]
-        return phi1
+        return np.minimum(phi1,phi2)
 
     @staticmethod
     def empirical_StPeter(Pe, sample=1):
-- 
2.43.0


From 136b0e200b9524873ca4200cfa6c982d0c217fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 12/19] fix: kde_plot uses the colormap it is given

---
 rockphypy/QI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 99bf26e..24330a5 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -302,7 +302,7 @@ class QI:
             density=QI.normalize(density)
             # extremely low density is mapped to 0
             density[density<0.0001]=0
-            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap_kde,shading='auto')
+            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap,shading='auto')
             cbar=plt.colorbar()
             cbar.set_label('KDE Normalized')
             plt.contour(grid[0],grid[1], density.T,colors='white',linewidths=0.5)
@@ -314,7 +314,7 @@ class QI:
             density=QI.normalize(density)
             # extremely low density is mapped to 0
             density[density<0.0001]=0
-            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap_kde,shading='auto')
+            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap,shading='auto')
             cbar=plt.colorbar()
             cbar.set_label('KDE Normalized')
             plt.contour(grid[0],grid[1], density.T,colors='white',linewidths=0.5)
-- 
2.43.0


From 303fc5ee08218146e78dbf19f15739be6ae2c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:12 +0000
Subject: [PATCH 13/19] fix: estimate_cem returns an estimate again and
 respects its seeds

Writing through df.vcem.values raises with copy-on-write pandas, a list of seeds
could not be indexed by a mask, and data above the last constant cement line
were given 0.1 whatever the largest seed was.
---
 rockphypy/QI.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 24330a5..f19e322 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -550,6 +550,7 @@ class QI:
         _,_,K0=EM.VRH(np.array([vsh,1-vsh]),np.array([Ksh,Kqz]))
         _,_,G0=EM.VRH(np.array([vsh,1-vsh]),np.array([Gsh,Gqz])) # this is only two component sandstone, when sandstone is multimineralogy, vectorization should apply here
         D0=Dsh*vsh+Dqz*(1-vsh)
+        vcem_seeds=np.asarray(vcem_seeds)
         # create an empty dataframe 
         df = pd.DataFrame()
         # corresponding porosity is phi_c-vcem_seeds[i]
@@ -558,21 +559,18 @@ class QI:
             VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)
             df['vcem_vp'+str(i)]=VP
         # decide if Vcem is 0 or not, otherwise, interpolate between two closet velocities
-        df['vcem']=np.nan
+        vcem=np.full(len(df),np.nan)
         for i, val in enumerate(self.Vp):
-            array= np.array(df.iloc[i, :-1])
+            array= np.array(df.iloc[i])
             if val <= array[0]:
-                df.vcem.values[i]=0
-                #df.iloc[i]['vcem']=0
+                vcem[i]=0
             elif val >=array[-1]:
-                df.vcem.values[i]=0.1
-                #df.iloc[i]['vcem']=0.1
+                vcem[i]=vcem_seeds[-1]
             else:
                 big =  array[array<val].max()# the largest element of myArr less than myNumber
                 small = array[array>val].min()# the smallest element of myArr greater than myNumber
-                #df.vcem.values[i]
-                df.vcem.values[i]=(val-small)/(big-small)*(vcem_seeds[array==big]-vcem_seeds[array==small])+vcem_seeds[array==small]
-        return df.vcem.values
+                vcem[i]=(val-small)/(big-small)*(vcem_seeds[array==big][0]-vcem_seeds[array==small][0])+vcem_seeds[array==small][0]
+        return vcem
     def cement_diag_plot(self,vcem,Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phib,phib_p,phi_c,sigma,vsh,Cn, scheme,f):
         """_summary_
 
-- 
2.43.0


From 3e7e86552fc475931e35a9962953b1309aa012f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:12 +0000
Subject: [PATCH 14/19] fix: estimate_cem uses the coordination number it is
 given

The argument was ignored and recomputed from the critical porosity, so the lines
used for the estimate differed from those drawn by cement_diag_plot.
---
 rockphypy/QI.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index f19e322..7a7a8cd 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -447,7 +447,7 @@ class QI:
         #plt.legend()
         return fig,ax
     @staticmethod
-    def cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_b,phi_c,vsh,phi,scheme):
+    def cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_b,phi_c,vsh,phi,scheme,Cn=None):
         """input real data porosity and caculate the theoretical constant cement model velocity value.  Note: input porosity cannot be zero, otherwise the returned velocities are Nan.
 
         Parameters
@@ -486,6 +486,8 @@ class QI:
             Scheme of cement deposition
                     1=cement deposited at grain contacts
                     2=cement deposited at grain surfaces
+        Cn : float, optional
+            coordination number, by default computed from the critical porosity
 
         Returns
         -------
@@ -496,7 +498,8 @@ class QI:
         _,_,K0=EM.VRH(np.array([vsh,1-vsh]),np.array([Ksh,Kqz]))
         _,_,G0=EM.VRH(np.array([vsh,1-vsh]),np.array([Gsh,Gqz])) # this is only two component sandstone, when sandstone is multimineralogy, vectorization should apply here
         D0=Dsh*vsh+Dqz*(1-vsh)
-        Cn=Empirical.Cp(phi_c) ## calculate coordination number 
+        if Cn is None:
+            Cn=Empirical.Cp(phi_c) ## calculate coordination number 
         Kdry, Gdry=GM.constantcement(phi_b, K0, G0, Kc, Gc, phi, phi_c, Cn, scheme )
         vp,vs,_= Fluid.vels(Kdry,Gdry,K0,D0,Kb,Db,phi)
         return vp,vs 
@@ -556,7 +559,7 @@ class QI:
         # corresponding porosity is phi_c-vcem_seeds[i]
         for i in vcem_seeds:
             
-            VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)
+            VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme,Cn)
             df['vcem_vp'+str(i)]=VP
         # decide if Vcem is 0 or not, otherwise, interpolate between two closet velocities
         vcem=np.full(len(df),np.nan)
-- 
2.43.0


From db4215564726dc043a459250a3ddca453fa88ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:35 +0000
Subject: [PATCH 15/19] fix: estimate_cem returns the seed for data exactly on
 a constant cement line

Such a sample was interpolated between the two neighbouring lines instead.
---
 rockphypy/QI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 7a7a8cd..eea3f12 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -570,7 +570,7 @@ class QI:
             elif val >=array[-1]:
                 vcem[i]=vcem_seeds[-1]
             else:
-                big =  array[array<val].max()# the largest element of myArr less than myNumber
+                big =  array[array<=val].max()# the largest element of myArr not larger than myNumber
                 small = array[array>val].min()# the smallest element of myArr greater than myNumber
                 vcem[i]=(val-small)/(big-small)*(vcem_seeds[array==big][0]-vcem_seeds[array==small][0])+vcem_seeds[array==small][0]
         return vcem
-- 
2.43.0


From 5ec65e8b32952e398e22ecf6c4d2b1f5c33410b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:58 +0000
Subject: [PATCH 16/19] fix: AVO_abe gradient is finite where the intercept
 vanishes

---
 rockphypy/AVO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rockphypy/AVO.py b/rockphypy/AVO.py
index 74c60b0..7fafa38 100644
--- a/rockphypy/AVO.py
+++ b/rockphypy/AVO.py
@@ -258,9 +258,9 @@ class AVO:
         poi2=((0.5*(vp2/vs2)**2)-1)/((vp2/vs2)**2-1)
         poia=(poi1+poi2)/2   
         Dpoi=(poi2-poi1)
-        Bx=(Dvp/vpa)/((Dvp/vpa)+(Dd/da))
-        Ax=Bx-(2*(1+Bx)*(1-2*poia)/(1-poia))
-        B1=(Ax*Ro)+(Dpoi/(1-poia)**2)
+        BRo=0.5*Dvp/vpa # B*Ro, finite also where the intercept vanishes
+        ARo=BRo-(2*(Ro+BRo)*(1-2*poia)/(1-poia))
+        B1=ARo+(Dpoi/(1-poia)**2)
         # case 2 Castagna's paper->Shuey
         B2=(-2*vsa**2*Dd/(vpa**2*da)) + (0.5*Dvp/vpa)-(4*vsa*Dvs/(vpa**2))
 
-- 
2.43.0


From cbc769153cd84b8adc980bbfa643d023c78f0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:41 +0000
Subject: [PATCH 17/19] fix: Hashin-Shtrikman bounds of constituents with an
 equal modulus

---
 rockphypy/EM.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 33784fb..e7ac9e4 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -124,15 +124,15 @@ class EM:
         """        
 
         if bound == 'upper':
-            K=K1+ (1-f)/( (K2-K1)**-1 + f*(K1+4*G1/3)**-1 )
+            K=K1+ (1-f)*(K2-K1)/( 1 + f*(K2-K1)/(K1+4*G1/3) )
 
             Temp = (K1+2*G1)/(5*G1 *(K1+4*G1/3))
-            G=G1+(1-f)/( (G2-G1)**-1 + 2*f*Temp)
+            G=G1+(1-f)*(G2-G1)/( 1 + 2*f*(G2-G1)*Temp)
         else:
-            K=K2+ f/( (K1-K2)**-1 + (1-f)*(K2+4*G2/3)**-1 )
+            K=K2+ f*(K1-K2)/( 1 + (1-f)*(K1-K2)/(K2+4*G2/3) )
 
             Temp = (K2+2*G2)/(5*G2 *(K2+4*G2/3))
-            G=G2+f/( (G1-G2)**-1 + 2*(1-f)*Temp)
+            G=G2+f*(G1-G2)/( 1 + 2*(1-f)*(G1-G2)*Temp)
         return K, G
 
     @staticmethod
-- 
2.43.0


From 89c4169f862172f46fbb49ac887c5e468785a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:41 +0000
Subject: [PATCH 18/19] fix: dilute and self-consistent inclusions of the host
 material

---
 rockphypy/EM.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index e7ac9e4..4c34129 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -852,11 +852,11 @@ class EM:
         S1 = 1/3 * (1+nu)/( 1-nu)
         S2 = 2/15 * (4-5*nu)/(1-nu)
         if mode == 'stress':
-            K = ( 1+ f * (Km/ (Km-Ki)- S1)**-1)**-1
-            G = ( 1+ f * (Gm/ (Gm-Gi)- S2)**-1)**-1
+            K = ( 1+ f * (Km-Ki)/(Km- S1*(Km-Ki)))**-1
+            G = ( 1+ f * (Gm-Gi)/(Gm- S2*(Gm-Gi)))**-1
         elif mode == 'strain':
-            K = 1-f*(Km/(Km-Ki)-S1)**-1
-            G = 1-f*(Gm/(Gm-Gi)-S2)**-1
+            K = 1-f*(Km-Ki)/(Km-S1*(Km-Ki))
+            G = 1-f*(Gm-Gi)/(Gm-S2*(Gm-Gi))
         return K, G
 
     @staticmethod
@@ -894,9 +894,9 @@ class EM:
             nu = 0.5* (3*K_eff- 2*G_eff)/(3*K_eff+G_eff) # Poisson's ratio
             S1 = 1/3 * (1+nu)/( 1-nu)
             S2 = 2/15 * (4-5*nu)/(1-nu)
-            K_eff = (1- f* K_eff*(Km-Ki)/(Km*(K_eff-Ki)) *(K_eff/(K_eff-Ki)-S1)**-1) * Km
+            K_eff = (1- f* K_eff*(Km-Ki)/(Km*(K_eff-S1*(K_eff-Ki)))) * Km
 
-            G_eff= (1- f * G_eff*(Gm-Gi)/(Gm*(G_eff-Gi)) *(G_eff/(G_eff-Gi)-S2)**-1 ) *Gm 
+            G_eff= (1- f * G_eff*(Gm-Gi)/(Gm*(G_eff-S2*(G_eff-Gi)))) *Gm 
         return K_eff,G_eff
 
     @staticmethod
-- 
2.43.0


From b0ec3ca94aec08b40e1164885eecd8c4a9009968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:06 +0000
Subject: [PATCH 19/19] fix: Biot accepts a single high frequency as documented

---
 rockphypy/Fluid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index e20e80e..9316eef 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -85,7 +85,7 @@ class Fluid:
         # angular frequency of the plane wave, ω is the angular frequency of the plane wave.
         w = 2*np.pi*freq 
         # viscodynamic operator
-        zeta = np.sqrt(w*a**2*rhofl/eta)
+        zeta = np.atleast_1d(np.sqrt(w*a**2*rhofl/eta))
         T = np.zeros(zeta.size, dtype=complex)
         # asymptotic values for very high and very low frequencies
         # high frequency limit, T->(1+i)/sqrt(2)
-- 
2.43.0

