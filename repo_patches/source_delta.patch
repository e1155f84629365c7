From 0117f33be9b4bf72f598f56edc22314ae67cc746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 01/22] fix: differentiate cl and cd at the Reynolds number
 they were evaluated at

---
 ccblade/ccblade.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 6086cc2..37446fd 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -663,7 +663,7 @@ class CCBlade(object):
         return fzero
 
     def __residualDerivatives(self, phi, r, chord, theta, af, Vx, Vy):
-        """derivatives of fzero, a, ap"""
+        """derivatives of fzero, a, ap, cl, cd"""
 
         if self.iterRe != 1:
             ValueError("Analytic derivatives not supplied for case with iterRe > 1")
@@ -712,7 +712,7 @@ class CCBlade(object):
             **self.bemoptions,
         )
 
-        return dR_dx, da_dx, dap_dx
+        return dR_dx, da_dx, dap_dx, dcl_dx, dcd_dx
 
     def __loads(self, phi, rotating, r, chord, theta, af, Vx, Vy):
         """normal and tangential loads at one section (and optionally derivatives)"""
@@ -744,7 +744,9 @@ class CCBlade(object):
 
                 # derivative of residual function
                 if rotating:
-                    dR_dx, da_dx, dap_dx = self.__residualDerivatives(phi, r, chord, theta, af, Vx, Vy)
+                    dR_dx, da_dx, dap_dx, dcl_dx, dcd_dx = self.__residualDerivatives(
+                        phi, r, chord, theta, af, Vx, Vy
+                    )
                     dphi_dx = np.array([1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0])
                 else:
                     dR_dx = np.zeros(9)
@@ -780,12 +782,14 @@ class CCBlade(object):
                     self.mu,
                 )
 
-                # cl, cd (spline derivatives)
-                dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Re)
+                # when rotating, cl and cd were evaluated at the Reynolds number without induction (see __runBEM)
+                if not rotating:
+                    # cl, cd (spline derivatives)
+                    dcl_dalpha, dcl_dRe, dcd_dalpha, dcd_dRe = af.derivatives(alpha_rad, Re)
 
-                # chain rule
-                dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dRe_dx
-                dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dRe_dx
+                    # chain rule
+                    dcl_dx = dcl_dalpha * dalpha_dx + dcl_dRe * dRe_dx
+                    dcd_dx = dcd_dalpha * dalpha_dx + dcd_dRe * dRe_dx
 
                 # cn, cd
                 dcn_dx = dcl_dx * cphi - cl * sphi * dphi_dx + dcd_dx * sphi + cd * cphi * dphi_dx
-- 
2.43.0


From 31c50677ad3a233f1a69cbbf09b25c83ee26d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 02/22] fix: keep the off-diagonal terms of the derivatives
 w.r.t. r of curved blades

---
 ccblade/ccblade.py | 52 ++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 37446fd..2192044 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -833,7 +833,7 @@ class CCBlade(object):
         )
 
         if not self.derivatives:
-            return Vx, Vy, 0.0, 0.0, 0.0, 0.0
+            return Vx, Vy, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
 
         # y = [r, precurve, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]  (derivative order)
         n = len(self.r)
@@ -864,8 +864,8 @@ class CCBlade(object):
             dy_dy[:, 3 * n + 4],
         )
 
-        dVx_dr = np.diag(Vxd[:n, :])  # off-diagonal terms are known to be zero and not needed
-        dVy_dr = np.diag(Vyd[:n, :])
+        dVx_dr = Vxd[:n, :]  # tri-diagonal with precurve (local cone angle)  (note: dVx_j / dr_i  i==row)
+        dVy_dr = Vyd[:n, :]
 
         dVx_dcurve = Vxd[n : 2 * n, :]  # tri-diagonal  (note: dVx_j / dcurve_i  i==row)
         dVy_dcurve = Vyd[n : 2 * n, :]  # off-diagonal are actually all zero, but leave for convenience
@@ -873,11 +873,11 @@ class CCBlade(object):
         dVx_dsweep = np.diag(Vxd[2 * n : 3 * n, :])  # off-diagonal terms are known to be zero and not needed
         dVy_dsweep = np.diag(Vyd[2 * n : 3 * n, :])
 
-        # w = [r, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
-        dVx_dw = np.vstack((dVx_dr, dVx_dsweep, Vxd[3 * n :, :]))
-        dVy_dw = np.vstack((dVy_dr, dVy_dsweep, Vyd[3 * n :, :]))
+        # w = [r (diagonal), presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
+        dVx_dw = np.vstack((np.diag(dVx_dr), dVx_dsweep, Vxd[3 * n :, :]))
+        dVy_dw = np.vstack((np.diag(dVy_dr), dVy_dsweep, Vyd[3 * n :, :]))
 
-        return Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve
+        return Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve, dVx_dr, dVy_dr
 
     def distributedAeroLoads(self, Uinf, Omega, pitch, azimuth):
         """Compute distributed aerodynamic loads along blade.
@@ -919,8 +919,8 @@ class CCBlade(object):
             - dNp : dictionary containing arrays (present if ``self.derivatives = True``)
                 derivatives of normal loads.  Each item in the dictionary a 2D Jacobian.
                 The array sizes and keys are (where n = number of stations along blade):
-                n x n (diagonal): 'dr', 'dchord', 'dtheta', 'dpresweep'
-                n x n (tridiagonal): 'dprecurve'
+                n x n (diagonal): 'dchord', 'dtheta', 'dpresweep'
+                n x n (tridiagonal): 'dr', 'dprecurve'
                 n x 1: 'dRhub', 'dRtip', 'dprecone', 'dtilt', 'dhubHt', 'dyaw', 'dshear', 'dazimuth', 'dUinf', 'dOmega', 'dpitch'
                 for example dNp_dr = dNp['dr']  (where dNp_dr is an n x n array)
                 and dNp_dr[i, j] = dNp_i / dr_j
@@ -932,7 +932,7 @@ class CCBlade(object):
         azimuth = np.deg2rad(azimuth)
 
         # component of velocity at each radial station
-        Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve = self.__windComponents(Uinf, Omega, azimuth)
+        Vx, Vy, dVx_dw, dVy_dw, dVx_dcurve, dVy_dcurve, dVx_dr, dVy_dr = self.__windComponents(Uinf, Omega, azimuth)
 
         # initialize
         n = len(self.r)
@@ -1073,6 +1073,10 @@ class CCBlade(object):
             dNp_dprecurve = dNp_dVx * dVx_dcurve + dNp_dVy * dVy_dcurve
             dTp_dprecurve = dTp_dVx * dVx_dcurve + dTp_dVy * dVy_dcurve
 
+            # r acts directly and, through the local cone angle, on the wind at the neighbouring stations
+            dNp_dr = np.diag(dNp_dz[0, :]) + dNp_dVx * dVx_dr + dNp_dVy * dVy_dr
+            dTp_dr = np.diag(dTp_dz[0, :]) + dTp_dVx * dVx_dr + dTp_dVy * dVy_dr
+
             # stack
             # z = [r, chord, theta, Rhub, Rtip, pitch]
             # w = [r, presweep, precone, tilt, hubHt, yaw, shear, azimuth, Uinf, Omega]
@@ -1094,14 +1098,14 @@ class CCBlade(object):
             self._dTp_dX = dTp_dX
             self._dNp_dprecurve = dNp_dprecurve
             self._dTp_dprecurve = dTp_dprecurve
+            self._dNp_dr = dNp_dr
+            self._dTp_dr = dTp_dr
 
             # pack derivatives into dictionary
             dNp = {}
             dTp = {}
 
             # n x n (diagonal)
-            dNp["dr"] = np.diag(dNp_dX[0, :])
-            dTp["dr"] = np.diag(dTp_dX[0, :])
             dNp["dchord"] = np.diag(dNp_dX[1, :])
             dTp["dchord"] = np.diag(dTp_dX[1, :])
             dNp["dtheta"] = np.diag(dNp_dX[2, :])
@@ -1110,6 +1114,8 @@ class CCBlade(object):
             dTp["dpresweep"] = np.diag(dTp_dX[5, :])
 
             # n x n (tridiagonal)
+            dNp["dr"] = dNp_dr.T
+            dTp["dr"] = dTp_dr.T
             dNp["dprecurve"] = dNp_dprecurve.T
             dTp["dprecurve"] = dTp_dprecurve.T
 
@@ -1309,7 +1315,15 @@ class CCBlade(object):
                         dQ_dv_sub,
                         dM_dv_sub,
                     ) = self.__thrustTorqueDeriv(
-                        Np, Tp, self._dNp_dX, self._dTp_dX, self._dNp_dprecurve, self._dTp_dprecurve, *args
+                        Np,
+                        Tp,
+                        self._dNp_dX,
+                        self._dTp_dX,
+                        self._dNp_dprecurve,
+                        self._dTp_dprecurve,
+                        self._dNp_dr,
+                        self._dTp_dr,
+                        *args,
                     )
 
                     dT_ds[i, :] += self.B * dT_ds_sub / nsec
@@ -1499,6 +1513,8 @@ class CCBlade(object):
         dTp_dX,
         dNp_dprecurve,
         dTp_dprecurve,
+        dNp_dr,
+        dTp_dr,
         r,
         precurve,
         presweep,
@@ -1539,11 +1555,11 @@ class CCBlade(object):
         dQ_dX = dQ_dNp * dNp_dX + dQ_dTp * dTp_dX
         dM_dX = dM_dNp * dNp_dX + dM_dTp * dTp_dX
 
-        dT_dr = dT_dX[0, :] + rb[0, :]
-        dY_dr = dY_dX[0, :] + rb[1, :]
-        dZ_dr = dZ_dX[0, :] + rb[2, :]
-        dQ_dr = dQ_dX[0, :] + rb[3, :]
-        dM_dr = dM_dX[0, :] + rb[4, :]
+        dT_dr = np.sum(dT_dNp * dNp_dr + dT_dTp * dTp_dr, axis=1) + rb[0, :]
+        dY_dr = np.sum(dY_dNp * dNp_dr + dY_dTp * dTp_dr, axis=1) + rb[1, :]
+        dZ_dr = np.sum(dZ_dNp * dNp_dr + dZ_dTp * dTp_dr, axis=1) + rb[2, :]
+        dQ_dr = np.sum(dQ_dNp * dNp_dr + dQ_dTp * dTp_dr, axis=1) + rb[3, :]
+        dM_dr = np.sum(dM_dNp * dNp_dr + dM_dTp * dTp_dr, axis=1) + rb[4, :]
 
         dT_dchord = dT_dX[1, :]
         dY_dchord = dY_dX[1, :]
-- 
2.43.0


From bc14b657c0499f4ce5e6109941bc1ba6c1b2b32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 03/22] fix: conforming extent of tempb1 in the curvature
 adjoint (read past the end of coneb)

---
 ccblade/src/bem.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/src/bem.f90 b/ccblade/src/bem.f90
index de7085a..8a6a3a6 100644
--- a/ccblade/src/bem.f90
+++ b/ccblade/src/bem.f90
@@ -1127,7 +1127,7 @@ SUBROUTINE DEFINECURVATURE_BV(n, r, rb, precurve, precurveb, presweep, &
   REAL(dp) :: tempb4(nbdirs, n-2)
   REAL(dp) :: tempb3(nbdirs, n-2)
   REAL(dp) :: tempb2(nbdirs, n-2)
-  REAL(dp) :: tempb1(nbdirs, n)
+  REAL(dp) :: tempb1(nbdirs, n-2)
   REAL(dp) :: tempb0(nbdirs)
   REAL(dp) :: tempb11(nbdirs)
   REAL(dp) :: tempb10(nbdirs)
-- 
2.43.0


From d08f9098e3b0c0ac759c96896802766e381991a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 04/22] fix: coefficient derivatives of loads that vanish
 (axisymmetric or parked rotor) were NaN

---
 ccblade/ccblade.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 2192044..4a9eed7 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -1412,34 +1412,39 @@ class CCBlade(object):
                 dU_ds = np.zeros((npts, 12))
                 dU_ds[:, 9] = 1.0
 
-                dOmega_ds = np.zeros((npts, 12))
-                dOmega_ds[:, 10] = 1.0
-
                 dq_ds = (self.rho * Uinf * dU_ds.T).T
 
-                dCT_ds = (CT * (dT_ds.T / T - dA_ds.T / A - dq_ds.T / q)).T
+                dCT_ds = (dT_ds.T / (q * A) - CT * (dA_ds.T / A + dq_ds.T / q)).T
                 dCT_dv = (dT_dv.T / (q * A)).T
 
-                dCY_ds = (CY * (dY_ds.T / Y - dA_ds.T / A - dq_ds.T / q)).T
+                dCY_ds = (dY_ds.T / (q * A) - CY * (dA_ds.T / A + dq_ds.T / q)).T
                 dCY_dv = (dY_dv.T / (q * A)).T
 
-                dCZ_ds = (CZ * (dZ_ds.T / Z - dA_ds.T / A - dq_ds.T / q)).T
+                dCZ_ds = (dZ_ds.T / (q * A) - CZ * (dA_ds.T / A + dq_ds.T / q)).T
                 dCZ_dv = (dZ_dv.T / (q * A)).T
 
-                dCQ_ds = (CQ * (dQ_ds.T / Q - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCQ_ds = (
+                    dQ_ds.T / (q * self.rotorR * A) - CQ * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCQ_dv = (dQ_dv.T / (q * self.rotorR * A)).T
 
-                dCMy_ds = (CMy * (dMy_ds.T / My - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMy_ds = (
+                    dMy_ds.T / (q * self.rotorR * A) - CMy * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMy_dv = (dMy_dv.T / (q * self.rotorR * A)).T
 
-                dCMz_ds = (CMz * (dMz_ds.T / Mz - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMz_ds = (
+                    dMz_ds.T / (q * self.rotorR * A) - CMz * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMz_dv = (dMz_dv.T / (q * self.rotorR * A)).T
 
-                dCMb_ds = (CMb * (dMb_ds.T / Mb - dA_ds.T / A - dq_ds.T / q - dR_ds.T / self.rotorR)).T
+                dCMb_ds = (
+                    dMb_ds.T / (q * self.rotorR * A) - CMb * (dA_ds.T / A + dq_ds.T / q + dR_ds.T / self.rotorR)
+                ).T
                 dCMb_dv = (dMb_dv.T / (q * self.rotorR * A)).T
 
-                dCP_ds = (CP * (dQ_ds.T / Q + dOmega_ds.T / Omega - dA_ds.T / A - dq_ds.T / q - dU_ds.T / Uinf)).T
-                dCP_dv = (dQ_dv.T * CP / Q).T
+                dCP_ds = (dP_ds.T / (q * A * Uinf) - CP * (dA_ds.T / A + dq_ds.T / q + dU_ds.T / Uinf)).T
+                dCP_dv = (dP_dv.T / (q * A * Uinf)).T
 
                 # pack derivatives into dictionary
                 dCT, dCY, dCZ, dCQ, dCMy, dCMz, dCMb, dCP = self.__thrustTorqueDictionary(
-- 
2.43.0


From c967d21ed7c0ff583505136cf07d9e22f4c44295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:30 +0000
Subject: [PATCH 05/22] fix: sum the derivatives when a vector is rotated twice
 about an angle of the same name

---
 ccblade/csystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccblade/csystem.py b/ccblade/csystem.py
index 934616d..c68ee1f 100644
--- a/ccblade/csystem.py
+++ b/ccblade/csystem.py
@@ -116,7 +116,7 @@ class DirectionVector(object):
         dxnew["dz"] = dx["dz"] * c + dy["dz"] * s
         dxnew["d" + thetaname] = (-x * s + y * c) * np.radians(thetaM)
         for dangle in angles:
-            dxnew[dangle] = dx[dangle] * c + dy[dangle] * s
+            dxnew[dangle] = dxnew.get(dangle, 0.0) + dx[dangle] * c + dy[dangle] * s
 
         dynew = {}
         dynew["dx"] = -dx["dx"] * s + dy["dx"] * c
@@ -124,7 +124,7 @@ class DirectionVector(object):
         dynew["dz"] = -dx["dz"] * s + dy["dz"] * c
         dynew["d" + thetaname] = (-x * c - y * s) * np.radians(thetaM)
         for dangle in angles:
-            dynew[dangle] = -dx[dangle] * s + dy[dangle] * c
+            dynew[dangle] = dynew.get(dangle, 0.0) - dx[dangle] * s + dy[dangle] * c
 
         dznew = {}
         dznew["dx"] = dz["dx"] * np.ones_like(theta)  # multiply by ones just to get right size in case of float
-- 
2.43.0


From c4d122456088e044695539558fdff00989086245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:47 +0000
Subject: [PATCH 06/22] fix: a parked rotor aligned with the wind reported zero
 loads

---
 ccblade/ccblade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 4a9eed7..533b3da 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -716,7 +716,7 @@ class CCBlade(object):
 
     def __loads(self, phi, rotating, r, chord, theta, af, Vx, Vy):
         """normal and tangential loads at one section (and optionally derivatives)"""
-        if Vx != 0.0 and Vy != 0.0:
+        if Vx != 0.0 and (Vy != 0.0 or not rotating):
 
             cphi = np.cos(phi)
             sphi = np.sin(phi)
-- 
2.43.0


From 01bcedea5473dc2a415575322cbad1667cc951f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:48 +0000
Subject: [PATCH 07/22] fix: derivatives of sections without wind were NaN

---
 ccblade/ccblade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 533b3da..61b577c 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -813,7 +813,9 @@ class CCBlade(object):
 
         else:
             # print('Warning: CCBlade.__loads: Wind Velocities, Vx=0, Vy=0. If unexpected, check assigned load cases, connections, and/or workflow order.')
-            return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, np.zeros(9), np.zeros(9), np.zeros(9)
+            dR_dx = np.zeros(9)
+            dR_dx[0] = 1.0  # just to prevent divide by zero
+            return 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, np.zeros(9), np.zeros(9), dR_dx
 
     def __windComponents(self, Uinf, Omega, azimuth):
         """x, y components of wind in blade-aligned coordinate system"""
-- 
2.43.0


From faf00571c5c6c18889256da2b1505b8d094c13fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:48 +0000
Subject: [PATCH 08/22] fix: reporting a parked section without loads failed on
 unbound names

---
 ccblade/ccblade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 61b577c..cce4764 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -977,6 +977,7 @@ class CCBlade(object):
             if not rotating:  # non-rotating
 
                 phi_star = np.pi / 2.0
+                phi_lower = phi_upper = phi_star
 
             else:
 
-- 
2.43.0


From 750e664c43010d3251b61c8f29f624289a1dd856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:48 +0000
Subject: [PATCH 09/22] fix: derivatives with iterRe > 1 were silently wrong
 instead of rejected

---
 ccblade/ccblade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index cce4764..44ac813 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -666,7 +666,7 @@ class CCBlade(object):
         """derivatives of fzero, a, ap, cl, cd"""
 
         if self.iterRe != 1:
-            ValueError("Analytic derivatives not supplied for case with iterRe > 1")
+            raise ValueError("Analytic derivatives not supplied for case with iterRe > 1")
 
         # x = [phi, chord, theta, Vx, Vy, r, Rhub, Rtip, pitch]  (derivative order)
 
-- 
2.43.0


From 93ea7d16df4fec9149ed7c26bcc6226c6046d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:43 +0000
Subject: [PATCH 10/22] fix: a wind speed given per station was silently
 replaced by its first value

---
 ccblade/ccblade.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 44ac813..910dc1f 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -820,6 +820,16 @@ class CCBlade(object):
     def __windComponents(self, Uinf, Omega, azimuth):
         """x, y components of wind in blade-aligned coordinate system"""
 
+        if np.size(Uinf) > 1:
+            # wind speed given at each station: take each station from the wind field of its own speed
+            n = len(self.r)
+            if np.size(Uinf) != n:
+                raise ValueError("Uinf must be a scalar or have one value for each radial location")
+            fields = [self.__windComponents(U, Omega, azimuth) for U in Uinf]
+            nout = 8 if self.derivatives else 2  # the station is the last axis of every output
+            out = [np.stack([fields[i][k][..., i] for i in range(n)], axis=-1) for k in range(nout)]
+            return tuple(out) + (0.0,) * (8 - nout)
+
         Vx, Vy = _bem.windcomponents(
             self.r,
             self.precurve,
-- 
2.43.0


From 7240f845491b7f7c6e4742bb3b030d9d9c0c7f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 11/22] fix: extrapolation replaced the last moment coefficient
 of data ending at a multiple of 10 degrees by zero

---
 ccblade/airfoilprep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index cfad700..d174d69 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -304,6 +304,9 @@ class Polar(object):
         alpha_num = abs(int((-180.0 - cm1_alpha) / 10.0 - 1))
         alpha_cm1 = np.linspace(-180.0, cm1_alpha, alpha_num)
         alpha_cm2 = np.linspace(cm2_alpha, 180.0, int((180.0 - cm2_alpha) / 10.0 + 1))
+        # do not repeat the ends of the data, whose moment coefficient is known
+        alpha_cm1 = alpha_cm1[alpha_cm1 < self.alpha[0]]
+        alpha_cm2 = alpha_cm2[alpha_cm2 > self.alpha[-1]]
         alpha_cm = np.concatenate(
             (alpha_cm1, self.alpha, alpha_cm2)
         )  # Specific alpha values are needed for cm function to work
-- 
2.43.0


From f9c75b7e51063be8ee35bc9fc4e5cd9432fd555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:49 +0000
Subject: [PATCH 12/22] fix: extrapolation listed the first angle of the data
 twice when the data reach as far down as up

---
 ccblade/airfoilprep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index d174d69..0272ffc 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -280,6 +280,8 @@ class Polar(object):
         # -90 <-> -alpha_high
         alpha5 = np.linspace(-np.pi / 2, alpha5max, nalpha)
         alpha5 = alpha5[1:]
+        if alpha5max == alpha_low:
+            alpha5 = alpha5[:-1]  # the data start here, do not duplicate when concatenating
         cl5, cd5 = self.__Viterna(-alpha5, -cl_adj)
 
         # -180+alpha_high <-> -90
-- 
2.43.0


From 627fa7a372129da7c4058b795f73a484ea6a875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 13/22] fix: AeroDyn files were written without line ends and
 could not be read back

---
 ccblade/airfoilprep.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index 0272ffc..e72f8f9 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -781,32 +781,32 @@ class Airfoil(object):
 
         f = open(filename, "w")
 
-        f.write("AeroDyn airfoil file.")
-        f.write("Compatible with AeroDyn v13.0.")
-        f.write("Generated by airfoilprep.py")
-        f.write("{0:<10d}\t\t{1:40}".format(len(af.polars), "Number of airfoil tables in this file"))
+        f.write("AeroDyn airfoil file.\n")
+        f.write("Compatible with AeroDyn v13.0.\n")
+        f.write("Generated by airfoilprep.py\n")
+        f.write("{0:<10d}\t\t{1:40}\n".format(len(af.polars), "Number of airfoil tables in this file"))
         for p in af.polars:
-            f.write("{0:<10f}\t{1:40}".format(p.Re / 1e6, "Reynolds number in millions."))
+            f.write("{0:<10f}\t{1:40}\n".format(p.Re / 1e6, "Reynolds number in millions."))
             param = p.unsteadyparam()
-            f.write("{0:<10f}\t{1:40}".format(param[0], "Control setting"))
-            f.write("{0:<10f}\t{1:40}".format(param[1], "Stall angle (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[0], "Control setting"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[1], "Stall angle (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[2], "Angle of attack for zero Cn for linear Cn curve (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[3], "Cn slope for zero lift for linear Cn curve (1/rad)"))
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[4], "Cn at stall value for positive angle of attack for linear Cn curve"
                 )
             )
             f.write(
-                "{0:<10f}\t{1:40}".format(
+                "{0:<10f}\t{1:40}\n".format(
                     param[5], "Cn at stall value for negative angle of attack for linear Cn curve"
                 )
             )
-            f.write("{0:<10f}\t{1:40}".format(param[6], "Angle of attack for minimum CD (deg)"))
-            f.write("{0:<10f}\t{1:40}".format(param[7], "Minimum CD value"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[6], "Angle of attack for minimum CD (deg)"))
+            f.write("{0:<10f}\t{1:40}\n".format(param[7], "Minimum CD value"))
             for a, cl, cd, cm in zip(p.alpha, p.cl, p.cd, p.cm):
-                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}".format(a, cl, cd, cm))
-            f.write("EOT")
+                f.write("{:<10f}\t{:<10f}\t{:<10f}\t{:<10f}\n".format(a, cl, cd, cm))
+            f.write("EOT\n")
         f.close()
 
     def createDataGrid(self):
-- 
2.43.0


From bcfec2ea3019fbbd876efef4bf7a5dc551bf8ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 14/22] fix: the angle of minimum drag was written to AeroDyn
 files in radians instead of degrees

---
 ccblade/airfoilprep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/airfoilprep.py b/ccblade/airfoilprep.py
index e72f8f9..d1a7472 100644
--- a/ccblade/airfoilprep.py
+++ b/ccblade/airfoilprep.py
@@ -471,7 +471,7 @@ class Polar(object):
 
         # return: control setting, stall angle, alpha for 0 cn, cn slope,
         #         cn at stall+, cn at stall-, alpha for min CD, min(CD)
-        return (0.0, np.degrees(alphaU), np.degrees(alpha0), m, cnStallUpper, cnStallLower, alpha[minIdx], cd[minIdx])
+        return (0.0, np.degrees(alphaU), np.degrees(alpha0), m, cnStallUpper, cnStallLower, self.alpha[minIdx], cd[minIdx])
 
     def plot(self):
         """plot cl/cd/cm polar
-- 
2.43.0


From 4d09deb9275e20a82bda5e3fa6f7ba36af2deff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 15/22] fix: CCBladeTwist, Reynolds number of the inverse
 analysis from the rotor speed in rad/s

Omega is in rpm there, so the airfoils were read at a Reynolds number
30/pi times too large.
---
 ccblade/ccblade_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 1c69302..bc28113 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -593,7 +593,7 @@ class CCBladeTwist(ExplicitComponent):
             cd = np.zeros(self.n_span)
             alpha = np.zeros(self.n_span)
             margin2stall = self.options["opt_options"]["constraints"]["blade"]["stall"]["margin"] * 180.0 / np.pi
-            Re = np.array(Omega * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"])
+            Re = np.array(Omega * np.pi / 30.0 * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"])
             aoa_op = inputs["aoa_op"]
             for i in range(self.n_span):
                 # Use the required angle of attack if defined. If it isn't defined (==pi), then take the stall point minus the margin
-- 
2.43.0


From 8cf56d9fd62d7159dd57fb2ed5f93b55a0128741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 16/22] fix: CCBladeTwist, set the declared outputs P, T, Q and
 M

They were declared but never computed and always read zero.
---
 ccblade/ccblade_component.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index bc28113..6643901 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -652,7 +652,7 @@ class CCBladeTwist(ExplicitComponent):
 
         # Call ccblade evaluate (averaging across azimuth)
         myout, _ = ccblade.evaluate([inputs["Uhub"]], [Omega], [inputs["pitch"]], coefficients=True)
-        CP, CMb, W = [myout[key] for key in ["CP", "CMb", "W"]]
+        P, T, Q, Mb, CP, CMb, W = [myout[key] for key in ["P", "T", "Q", "Mb", "CP", "CMb", "W"]]
 
         # import matplotlib.pyplot as plt
         # plt.figure()
@@ -668,6 +668,10 @@ class CCBladeTwist(ExplicitComponent):
         outputs["theta"] = ccblade.theta
         outputs["CP"] = CP[0]
         outputs["CM"] = CMb[0]
+        outputs["P"] = P[0]
+        outputs["T"] = T[0]
+        outputs["Q"] = Q[0]
+        outputs["M"] = Mb[0]
         outputs["local_airfoil_velocities"] = np.nan_to_num(W)
         outputs["a"] = loads["a"]
         outputs["ap"] = loads["ap"]
-- 
2.43.0


From 6c0700f9faafc0c3c856260e65b93be00d3cc764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 17/22] fix: units of the thrust and of the blade root moment
 outputs

The thrust of CCBladeTwist was declared in N*m and the root moment of
CCBladeEvaluate in N/m.
---
 ccblade/ccblade_component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index 6643901..e54f181 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -500,7 +500,7 @@ class CCBladeTwist(ExplicitComponent):
         )
 
         self.add_output("P", val=0.0, units="W", desc="Rotor aerodynamic power")
-        self.add_output("T", val=0.0, units="N*m", desc="Rotor aerodynamic thrust")
+        self.add_output("T", val=0.0, units="N", desc="Rotor aerodynamic thrust")
         self.add_output("Q", val=0.0, units="N*m", desc="Rotor aerodynamic torque")
         self.add_output("M", val=0.0, units="N*m", desc="Blade root flapwise moment")
 
@@ -758,7 +758,7 @@ class CCBladeEvaluate(ExplicitComponent):
 
         # outputs
         self.add_output("P", val=0.0, units="W", desc="Rotor aerodynamic power")
-        self.add_output("Mb", val=0.0, units="N/m", desc="Aerodynamic blade root flapwise moment")
+        self.add_output("Mb", val=0.0, units="N*m", desc="Aerodynamic blade root flapwise moment")
         self.add_output("Fhub", val=np.zeros(3), units="N", desc="Aerodynamic forces at hub center in the hub c.s.")
         self.add_output("Mhub", val=np.zeros(3), units="N*m", desc="Aerodynamic moments at hub center in the hub c.s.")
         self.add_output("CP", val=0.0, desc="Rotor aerodynamic power coefficient")
-- 
2.43.0


From e74d94b4a26d8a9855f34140bb26a6f7b7337571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 18/22] fix: CCBladeTwist, stall point of the inverse analysis
 from the table the airfoils use

With several tables the sections use the middle one, but the stall angle
was taken from the first.
---
 ccblade/ccblade_component.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade_component.py b/ccblade/ccblade_component.py
index e54f181..48b0b1f 100644
--- a/ccblade/ccblade_component.py
+++ b/ccblade/ccblade_component.py
@@ -595,14 +595,15 @@ class CCBladeTwist(ExplicitComponent):
             margin2stall = self.options["opt_options"]["constraints"]["blade"]["stall"]["margin"] * 180.0 / np.pi
             Re = np.array(Omega * np.pi / 30.0 * inputs["r"] * inputs["chord"] * inputs["rho"] / inputs["mu"])
             aoa_op = inputs["aoa_op"]
+            ref_tab = int(np.floor(self.n_tab / 2))
             for i in range(self.n_span):
                 # Use the required angle of attack if defined. If it isn't defined (==pi), then take the stall point minus the margin
                 if abs(aoa_op[i] - np.pi) < 1.0e-4:
                     af[i].eval_unsteady(
                         inputs["airfoils_aoa"],
-                        inputs["airfoils_cl"][i, :, 0, 0],
-                        inputs["airfoils_cd"][i, :, 0, 0],
-                        inputs["airfoils_cm"][i, :, 0, 0],
+                        inputs["airfoils_cl"][i, :, 0, ref_tab],
+                        inputs["airfoils_cd"][i, :, 0, ref_tab],
+                        inputs["airfoils_cm"][i, :, 0, ref_tab],
                     )
                     alpha[i] = (af[i].unsteady["alpha1"] - margin2stall) / 180.0 * np.pi
                 else:
-- 
2.43.0


From 5184eb3d1fc323c3ee7a8f41d9fa6391519e7acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 19/22] fix: derivatives of airfoils with two angles or two
 Reynolds numbers

bisplev does not differentiate a direction of degree one: with two Reynolds
numbers the error was swallowed and the derivative reported as zero, with two
angles of attack derivatives() raised.
---
 ccblade/ccblade.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 910dc1f..c9ec30c 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -211,16 +211,25 @@ class CCAirfoil(object):
         tck_cl = self.cl_spline.tck[:3] + self.cl_spline.degrees  # concatenate lists
         tck_cd = self.cd_spline.tck[:3] + self.cd_spline.degrees
 
-        dcl_dalpha = bisplev(alpha, Re, tck_cl, dx=1, dy=0)
-        dcd_dalpha = bisplev(alpha, Re, tck_cd, dx=1, dy=0)
+        def partial(tck, dx, dy):
+            # bisplev refuses to differentiate in a direction with only two data points, where the spline is linear
+            tx, ty, _, kx, ky = tck
+            if dx == 1 and kx == 1:
+                return (bisplev(tx[-1], Re, tck) - bisplev(tx[0], Re, tck)) / (tx[-1] - tx[0])
+            if dy == 1 and ky == 1:
+                return (bisplev(alpha, ty[-1], tck) - bisplev(alpha, ty[0], tck)) / (ty[-1] - ty[0])
+            return bisplev(alpha, Re, tck, dx=dx, dy=dy)
+
+        dcl_dalpha = partial(tck_cl, 1, 0)
+        dcd_dalpha = partial(tck_cd, 1, 0)
 
         if self.one_Re:
             dcl_dRe = 0.0
             dcd_dRe = 0.0
         else:
             try:
-                dcl_dRe = bisplev(alpha, Re, tck_cl, dx=0, dy=1)
-                dcd_dRe = bisplev(alpha, Re, tck_cd, dx=0, dy=1)
+                dcl_dRe = partial(tck_cl, 0, 1)
+                dcd_dRe = partial(tck_cd, 0, 1)
             except:
                 dcl_dRe = 0.0
                 dcd_dRe = 0.0
-- 
2.43.0


From 70d9b71c05d9f4634450f217050ffe0b33c47be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 20/22] fix: keep moved end stations and curvature of rotors
 given in whole numbers

---
 ccblade/ccblade.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index c9ec30c..2e8c470 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -560,7 +560,7 @@ class CCBlade(object):
         derivatives : boolean, optional
             if True, derivatives along with function values will be returned for the various methods
         """
-        r = np.array(r)
+        r = np.array(r, dtype=float)
         self.r = r.copy()
         self.chord = np.array(chord)
         self.theta = np.deg2rad(theta)
@@ -588,9 +588,9 @@ class CCBlade(object):
             presweep = np.zeros(len(r))
             presweepTip = 0.0
 
-        self.precurve = precurve.copy()
+        self.precurve = np.array(precurve, dtype=float)
         self.precurveTip = precurveTip
-        self.presweep = presweep.copy()
+        self.presweep = np.array(presweep, dtype=float)
         self.presweepTip = presweepTip
 
         # Enfore unique points at tip and hub
-- 
2.43.0


From ac0dd1818d2def495efe914682a02593b61b2854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 21/22] fix: coefficient derivatives are zero beyond the
 airfoil table, where the coefficients are constant

---
 ccblade/ccblade.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index 2e8c470..f99b264 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -214,11 +214,14 @@ class CCAirfoil(object):
         def partial(tck, dx, dy):
             # bisplev refuses to differentiate in a direction with only two data points, where the spline is linear
             tx, ty, _, kx, ky = tck
+            # the spline keeps its boundary value beyond the table, where its slope is zero
+            v, t = (alpha, tx) if dx == 1 else (Re, ty)
+            inside = (v >= t[0]) & (v <= t[-1])
             if dx == 1 and kx == 1:
-                return (bisplev(tx[-1], Re, tck) - bisplev(tx[0], Re, tck)) / (tx[-1] - tx[0])
+                return inside * (bisplev(tx[-1], Re, tck) - bisplev(tx[0], Re, tck)) / (tx[-1] - tx[0])
             if dy == 1 and ky == 1:
-                return (bisplev(alpha, ty[-1], tck) - bisplev(alpha, ty[0], tck)) / (ty[-1] - ty[0])
-            return bisplev(alpha, Re, tck, dx=dx, dy=dy)
+                return inside * (bisplev(alpha, ty[-1], tck) - bisplev(alpha, ty[0], tck)) / (ty[-1] - ty[0])
+            return inside * bisplev(alpha, Re, tck, dx=dx, dy=dy)
 
         dcl_dalpha = partial(tck_cl, 1, 0)
         dcd_dalpha = partial(tck_cd, 1, 0)
-- 
2.43.0


From dff9208d753c577b6bf81f3d2d67607b5d9761d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 22/22] fix: derivatives at sections with zero chord or zero
 coefficients

The chain rule divided by chord, cn and ct and raised a bare ValueError with
derivatives on, although the same rotor is analysed without them.
---
 ccblade/ccblade.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ccblade/ccblade.py b/ccblade/ccblade.py
index f99b264..81d106e 100644
--- a/ccblade/ccblade.py
+++ b/ccblade/ccblade.py
@@ -688,7 +688,9 @@ class CCBlade(object):
         alpha, W, Re = _bem.relativewind(phi, a, ap, Vx, Vy, self.pitch, chord, theta, self.rho, self.mu)
 
         dalpha_dx = np.array([1.0, 0.0, -1.0, 0.0, 0.0, 0.0, 0.0, 0.0, -1.0])
-        dRe_dx = np.array([0.0, Re / chord, 0.0, Re * Vx / W ** 2, Re * Vy / W ** 2, 0.0, 0.0, 0.0, 0.0])
+        # Reynolds number is proportional to chord (which may be zero)
+        _, _, dRe_dchord = _bem.relativewind(phi, a, ap, Vx, Vy, self.pitch, 1.0, theta, self.rho, self.mu)
+        dRe_dx = np.array([0.0, dRe_dchord, 0.0, Re * Vx / W ** 2, Re * Vy / W ** 2, 0.0, 0.0, 0.0, 0.0])
 
         # cl, cd (spline derivatives)
         cl, cd = af.evaluate(alpha, Re)
@@ -808,11 +810,9 @@ class CCBlade(object):
                 dct_dx = dcl_dx * sphi + cl * cphi * dphi_dx - dcd_dx * cphi + cd * sphi * dphi_dx
 
                 # Np, Tp
-                if cn == 0.0 or W == 0.0 or chord == 0.0:
-                    print(phi, rotating, r, chord, theta, af, Vx, Vy)
-                    raise ValueError()
-                dNp_dx = Np * (1.0 / cn * dcn_dx + 2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
-                dTp_dx = Tp * (1.0 / ct * dct_dx + 2.0 / W * dW_dx + 1.0 / chord * dchord_dx)
+                dq_dx = self.rho * W * dW_dx
+                dNp_dx = dcn_dx * q * chord + cn * dq_dx * chord + cn * q * dchord_dx
+                dTp_dx = dct_dx * q * chord + ct * dq_dx * chord + ct * q * dchord_dx
 
                 alpha_deg = np.rad2deg(alpha_rad)
 
-- 
2.43.0

