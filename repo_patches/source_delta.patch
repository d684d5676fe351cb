From 381affee13e296a00c6e843f68af4c240a603ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:51 +0000
Subject: [PATCH 01/79] fix: evaluate the spline constants of the 2D and
 generic kernels in working precision

---
 .../field_gathering_o1_2d.F90                 |  4 +--
 .../field_gathering_o2_2d.F90                 |  4 +--
 .../field_gathering_o3_2d.F90                 |  6 ++---
 .../field_gathering_on_2d.F90                 |  4 +--
 .../field_gathering_on_3d.F90                 |  4 +--
 .../field_gathering_on_circ.F90               |  4 +--
 .../charge_deposition_2d.F90                  |  4 +--
 .../esirkepov/esirkepov_2d.F90                | 26 +++++++++----------
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
index 247fc3d..d9c375f 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
@@ -494,7 +494,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_1_1( np, xp, zp, ex, ey, ez, xmin
   real(num)                          :: dxi, dzi, x, z, xint, zint
   real(num), DIMENSION(lvect, 0:1)    :: sx, sx0
   real(num), DIMENSION(lvect, 0:1)    :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -714,7 +714,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_1_1( np, xp, zp, bx, by, bz, xmin
   real(num)                          :: dxi, dzi, x, z, xint, zint
   real(num), DIMENSION(lvect, 0:1)    :: sx, sx0
   real(num), DIMENSION(lvect, 0:1)    :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
index 4929ffc..4cefda9 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
@@ -540,7 +540,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_2_2( np, xp, zp, ex, ey, ez, xmin
   real(num)                     :: xintsq, zintsq
   real(num), DIMENSION(lvect, -1:1)    :: sx, sx0
   real(num), DIMENSION(lvect, -1:1)    :: sz, sz0
-  real(num), parameter          :: onesixth=1./6., twothird=2./3.
+  real(num), parameter          :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -798,7 +798,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
   real(num)                          :: xintsq, zintsq
   real(num), DIMENSION(lvect, -1:1)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:1)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
index a51c6ec..9b5f419 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
@@ -334,7 +334,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, xmin
   real(num)                     :: xintsq, oxint, zintsq, ozint, oxintsq, ozintsq
   real(num), DIMENSION(lvect, -1:2)    :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)    :: sz, sz0
-  real(num), parameter          :: onesixth=1./6., twothird=2./3.
+  real(num), parameter          :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -915,7 +915,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_3_3( np, xp, zp, bx, by, bz, xmin
   ozintsq
   real(num), DIMENSION(lvect, -1:2)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   ! ___________________________
   ! Compute parameters
@@ -1268,7 +1268,7 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
   ozintsq
   real(num), DIMENSION(lvect, -1:2)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
index aba3e79..a5adeef 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
@@ -90,7 +90,7 @@ subroutine pxr_gete2dxz_n_energy_conserving( np, xp, yp, zp, ex, ey, ez, xmin, z
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -383,7 +383,7 @@ subroutine pxr_getb2dxz_n_energy_conserving( np, xp, yp, zp, bx, by, bz, xmin, z
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_3d.F90 b/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
index 4f16728..0aaff37 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
@@ -723,7 +723,7 @@ subroutine pxr_getb3d_n_energy_conserving(np, xp, yp, zp, bx, by, bz, xmin, ymin
   real(num), DIMENSION(-int(noy/2):int((noy+1)/2)) :: sy
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sy0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -1068,7 +1068,7 @@ subroutine pxr_gete3d_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, xmin, ymin
   real(num), DIMENSION(-int(noy/2):int((noy+1)/2)) :: sy
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sy0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90 b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
index a3888c0..a64c311 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
@@ -96,7 +96,7 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
   COMPLEX(cpx) :: xy, xy0
 
   IF (l_nodal) THEN
@@ -384,7 +384,7 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
   COMPLEX(cpx) :: xy, xy0
 
   IF (l_nodal) THEN
diff --git a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90 b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
index 6cacf2d..af379eb 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
@@ -59,7 +59,7 @@ SUBROUTINE pxr_depose_rho_n_2dxz(rho, np, xp, yp, zp, w, q, xmin, zmin, dx, dz,
   real(num) :: dxi, dzi, xint, zint, oxint, ozint, xintsq, zintsq, oxintsq, ozintsq
   real(num) :: x, z, r, wq, invvol
   real(num) :: sx(-int(nox/2):int((nox+1)/2)), sz(-int(noz/2):int((noz+1)/2))
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
   integer(idp) :: j, l, ip, jj, ll, ixmin, ixmax, izmin, izmax
 
   dxi = 1./dx
@@ -204,7 +204,7 @@ SUBROUTINE pxr_depose_rhoold_n_2dxz(rhoold, np, xp, zp, ux, uy, uz, gaminv, w, q
   real(num) :: x, z, xold, zold, wq, invvol, vx, vy, vz
   real(num) :: sx(-int(nox/2):int((nox+1)/2)), sz(-int(noz/2):int((noz+1)/2))
   real(num) :: sxold(-int(nox/2):int((nox+1)/2)), szold(-int(noz/2):int((noz+1)/2))
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num, twothird=2._num/3._num
   integer(idp) :: j, l, ip, jj, ll, jold, lold, ixmin, ixmax, izmin, izmax, ndt, idt
   real(num) :: dxp, dzp, x0, z0, x1, z1
 
diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 9726aeb..6dcd8e9 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -108,8 +108,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
   real(num) :: invvol, invdtdx, invdtdz
   real(num) :: oxint, ozint, xintsq, zintsq, oxintsq, ozintsq
   real(num) :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter :: onesixth=1./6.
-  real(num), parameter :: twothird=2./3.
+  real(num), parameter :: onesixth=1._num/6._num
+  real(num), parameter :: twothird=2._num/3._num
   real(num), dimension(:), allocatable :: sx, sx0, dsx, sz, sz0, dsz
   integer(idp) :: iixp0, ikxp0, iixp, ikxp, ip, dix, diz, i, k, ic, kc
   integer(idp) :: ixmin, ixmax, izmin, izmax, icell, ncells, ndtodx, ndtodz
@@ -385,7 +385,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
 
           ! -- Jy (2D Esirkepov scheme)
           jy(ic, kc) = jy(ic, kc) + wq*vy*invvol/ncells* ( (sz0(k)+0.5*dsz(k))*sx0(i) &
-          + (0.5*sz0(k)+1./3.*dsz(k))*dsx(i) )
+          + (0.5*sz0(k)+1._num/3._num*dsz(k))*dsx(i) )
 
           ! -- Jz
           if(k<izmax) then
@@ -474,8 +474,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_1_1( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: vx, vy, vz
   real(num)                             :: invvol, invdtdx, invdtdz
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1._num/6._num, twothird=2._num/3._num
+  real(num), parameter                  :: onethird=1._num/3._num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -689,8 +689,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_2_2( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: invvol, invdtdx, invdtdz
   real(num)                             :: xintsq, zintsq
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1._num/6._num, twothird=2._num/3._num
+  real(num), parameter                  :: onethird=1._num/3._num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -910,7 +910,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_3_3( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
+  real(num), parameter                  :: onesixth=1._num/6._num, twothird=2._num/3._num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -1060,7 +1060,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_3_3( jx, jx_nguard, jx_nvalid, jy,
         ! -- Jy (2D Esirkepov scheme)
         !$acc atomic update
         jy(ic, kc) = jy(ic, kc) + wq*vy*invvol* ( (sz0(k)+0.5*dsz(k))*sx0(i) +        &
-        (0.5*sz0(k)+1./3.*dsz(k))*dsx(i) )
+        (0.5*sz0(k)+1._num/3._num*dsz(k))*dsx(i) )
 
         ! --- Jz
         IF(k<izmax) THEN
@@ -1138,8 +1138,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_svec_3_3(jx, jy, jz, np, xp, zp, uxp, u
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1._num/6._num, twothird=2._num/3._num
+  real(num), parameter                  :: onethird=1._num/3._num
   real(num), dimension(:), allocatable  :: sx, sx0, dsx, sz, sz0, dsz
   integer(isp)                          :: iixp, ikxp, ip, dix, diz, idx, idz, i, k,  &
   ic, kc
@@ -1555,8 +1555,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_vecHV_3_3(jx, jy, jz, np, xp, zp, uxp,
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onesixth=1._num/6._num, twothird=2._num/3._num
+  real(num), parameter                  :: onethird=1._num/3._num
   real(num), dimension(-2:3)            :: sx, sx0, dsx, sz, sz0, dsz
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, dix, diz,    &
   idx, idz, i, k, ic, kc
-- 
2.43.0


From b6ca0a593c06d6656d7a6f90ebeaab614cb63263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:59 +0000
Subject: [PATCH 02/79] fix: block the per-cell current kernels by the vector
 length their scratch arrays have

---
 .../direct/direct_current_deposition_3d.F90   | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90 b/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
index 671e55a..2ce98a7 100644
--- a/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
+++ b/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
@@ -684,7 +684,6 @@ END SUBROUTINE depose_jxjyjz_vecHVv2_1_1_1
 SUBROUTINE depose_jxjyjz_vecHV_vnr_1_1_1(jxcells, jycells, jzcells, np, ncells, xp,   &
   yp, zp, uxp, uyp, uzp, gaminv, w, q, xmin, ymin, zmin, dt, dx, dy, dz, nx, ny, nz,    &
   nxguard, nyguard, nzguard, ncx, ncy, ncz, lvect, l_nodal)  !#do not wrap
-  USE constants, ONLY: lvec
   USE picsar_precision, ONLY: idp, isp, num
   IMPLICIT NONE
   INTEGER(idp), INTENT(IN)                      :: np, nx, ny, nz, ncells
@@ -743,7 +742,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_1_1_1(jxcells, jycells, jzcells, np, ncells,
 
   ! ____________________________________________
   ! LOOP ON PARTICLES
-  DO ip=1, np, LVEC
+  DO ip=1, np, LVECT
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
     !DIR$ ASSUME_ALIGNED xp:64, yp:64, zp:64
     !DIR$ ASSUME_ALIGNED uxp:64, uyp:64, uzp:64
@@ -768,7 +767,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_1_1_1(jxcells, jycells, jzcells, np, ncells,
 #elif defined __INTEL_COMPILER
     !$DIR SIMD
 #endif
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(LVECT, np-ip+1)
       nn=ip+n-1
       ! --- computes position in  grid units at (n+1)
       x = (xp(nn)-xmin)*dxi
@@ -817,7 +816,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_1_1_1(jxcells, jycells, jzcells, np, ncells,
     !$OMP END SIMD
 #endif
 #endif
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(LVECT, np-ip+1)
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
       !DIR$ ASSUME_ALIGNED jxcells:64, jycells:64, jzcells:64
       !DIR$ ASSUME_ALIGNED mx:64, my:64, mz:64, sgn:64
@@ -1677,7 +1676,6 @@ END SUBROUTINE depose_jxjyjz_vecHVv2_2_2_2
 SUBROUTINE depose_jxjyjz_vecHV_vnr_2_2_2(jxcells, jycells, jzcells, np, ncells, xp,   &
   yp, zp, uxp, uyp, uzp, gaminv, w, q, xmin, ymin, zmin, dt, dx, dy, dz, nx, ny, nz,    &
   nxguard, nyguard, nzguard, ncx, ncy, ncz, lvect, l_nodal)  !#do not wrap
-  USE constants, ONLY: lvec
   USE picsar_precision, ONLY: idp, isp, num
   IMPLICIT NONE
   ! ____ Parameter initialization _____________________________________
@@ -1756,7 +1754,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_2_2_2(jxcells, jycells, jzcells, np, ncells,
   ! ___ Computation ______________________________________________
 
   ! LOOP ON PARTICLES
-  DO ip=1, np, LVEC
+  DO ip=1, np, LVECT
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
     !DIR$ ASSUME_ALIGNED xp:64, yp:64, zp:64
     !DIR$ ASSUME_ALIGNED sx0:64, sx1:64, sx2:64
@@ -1779,7 +1777,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_2_2_2(jxcells, jycells, jzcells, np, ncells,
 #elif defined __INTEL_COMPILER
     !$DIR SIMD
 #endif
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(LVECT, np-ip+1)
       nn=ip+n-1
       ! --- computes position in  grid units at (n+1)
       x = (xp(nn)-xmin)*dxi
@@ -1900,7 +1898,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_2_2_2(jxcells, jycells, jzcells, np, ncells,
     !$OMP END SIMD
 #endif
 #endif
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(LVECT, np-ip+1)
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
       !DIR$ ASSUME_ALIGNED jxcells:64, jycells:64, jzcells:64
 #elif defined __IBMBGQ__
@@ -3448,7 +3446,6 @@ END SUBROUTINE depose_jxjyjz_vecHVv3_3_3_3
 SUBROUTINE depose_jxjyjz_vecHV_vnr_3_3_3(jxcells, jycells, jzcells, np, ncells, xp,   &
   yp, zp, uxp, uyp, uzp, gaminv, w, q, xmin, ymin, zmin, dt, dx, dy, dz, nx, ny, nz,    &
   nxguard, nyguard, nzguard, ncx, ncy, ncz, lvect, l_nodal)  !#do not wrap
-  USE constants, ONLY: lvec
   USE picsar_precision, ONLY: idp, isp, num
   IMPLICIT NONE
 
@@ -3525,7 +3522,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_3_3_3(jxcells, jycells, jzcells, np, ncells,
 
   ! LOOP ON PARTICLES
 
-  DO ip=1, np, LVEC
+  DO ip=1, np, LVECT
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
     !DIR$ ASSUME_ALIGNED xp:64, yp:64, zp:64
     !DIR$ ASSUME_ALIGNED vx:64, vy:64, vz:64
@@ -3549,7 +3546,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_3_3_3(jxcells, jycells, jzcells, np, ncells,
 #elif defined __INTEL_COMPILER
     !$DIR SIMD
 #endif
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(LVECT, np-ip+1)
 
       nn=ip+n-1
       ! --- computes position in  grid units at (n+1)
@@ -3693,7 +3690,7 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_3_3_3(jxcells, jycells, jzcells, np, ncells,
 
     ! Add weights to nearest vertices
 
-    DO n=1, MIN(LVEC, np-ip+1)
+    DO n=1, MIN(LVECT, np-ip+1)
 #if !defined PICSAR_NO_ASSUMED_ALIGNMENT && defined __INTEL_COMPILER
       !DIR$ ASSUME_ALIGNED jxcells:64, jycells:64, jzcells:64
 #elif defined __IBMBGQ__
-- 
2.43.0


From 85e7caaf8d451bccbb76dc7a1dda560525069a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:08 +0000
Subject: [PATCH 03/79] fix: complete the 2D vectorised gathering kernels when
 the order is not lowered along the velocity

---
 .../field_gathering_o1_2d.F90                 |  7 ++++
 .../field_gathering_o2_2d.F90                 | 11 ++++++
 .../field_gathering_o3_2d.F90                 | 36 +++++++++----------
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
index d9c375f..b1cf622 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
@@ -860,13 +860,20 @@ subroutine pxr_getb2dxz_energy_conserving_vect_1_1( np, xp, zp, bx, by, bz, xmin
         ! Compute Bx on particle
         bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 0)*bxg(j, 1, l0)
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 0)*bxg(j+1, 1, l0)
+        bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 1)*bxg(j, 1, l0+1)
+        bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 1)*bxg(j+1, 1, l0+1)
 
         ! Compute By on particle
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 0)*byg(j0, 1, l0)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, 0)*byg(j0+1, 1, l0)
+        by(nn) = by(nn) + sx0(n, 0)*sz0(n, 1)*byg(j0, 1, l0+1)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, 1)*byg(j0+1, 1, l0+1)
 
         ! Compute Bz on particle
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 0)*bzg(j0, 1, l)
+        bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 0)*bzg(j0+1, 1, l)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 1)*bzg(j0, 1, l+1)
+        bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 1)*bzg(j0+1, 1, l+1)
 
       ENDDO
     ENDDO
diff --git a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
index 4cefda9..963fbea 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
@@ -969,6 +969,9 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
         sz0(n, 1) = 0.5_num*(0.5_num+zint)**2
 
         ! Compute Bx on particle
+        bx(nn) = bx(nn) + sx(n, -1)*sz0(n, -1)*bxg(j-1, 1, l0-1)
+        bx(nn) = bx(nn) + sx(n, 0)*sz0(n, -1)*bxg(j, 1, l0-1)
+        bx(nn) = bx(nn) + sx(n, 1)*sz0(n, -1)*bxg(j+1, 1, l0-1)
         bx(nn) = bx(nn) + sx(n, -1)*sz0(n, 0)*bxg(j-1, 1, l0)
         bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 0)*bxg(j, 1, l0)
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 0)*bxg(j+1, 1, l0)
@@ -977,16 +980,24 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 1)*bxg(j+1, 1, l0+1)
 
         ! Compute By on particle
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, -1)*byg(j0-1, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, 0)*sz0(n, -1)*byg(j0, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, -1)*byg(j0+1, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, 0)*byg(j0-1, 1, l0)
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 0)*byg(j0, 1, l0)
         by(nn) = by(nn) + sx0(n, 1)*sz0(n, 0)*byg(j0+1, 1, l0)
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, 1)*byg(j0-1, 1, l0+1)
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 1)*byg(j0, 1, l0+1)
         by(nn) = by(nn) + sx0(n, 1)*sz0(n, 1)*byg(j0+1, 1, l0+1)
 
         ! Compute Bz on particle
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, -1)*bzg(j0-1, 1, l-1)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, -1)*bzg(j0, 1, l-1)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, -1)*bzg(j0+1, 1, l-1)
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, 0)*bzg(j0-1, 1, l)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 0)*bzg(j0, 1, l)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 0)*bzg(j0+1, 1, l)
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, 1)*bzg(j0-1, 1, l+1)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 1)*bzg(j0, 1, l+1)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 1)*bzg(j0+1, 1, l+1)
       enddo
diff --git a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
index 9b5f419..e1367d4 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
@@ -470,7 +470,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, xmin
     ! l_lower_order_in_v is false
   ELSE
 
-    DO ip=1, np
+    DO ip=1, np, lvect
 
 #if defined __INTEL_COMPILER
       !!DIR$ IVDEP
@@ -1521,13 +1521,13 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         a = (sx0(n, -1)*exg(j0-1, 1, l-1) + sx0(n, 0)*exg(j0, 1, l-1) + sx0(n,        &
         1)*exg(j0+1, 1, l-1) + sx0(n, 2)*exg(j0+2, 1, l-1))
         ex(nn) = ex(nn) + a*sz(n, -1)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l) + sx0(n, 0)*exg(j0, 1, l) + sx0(n,        &
+        a = (sx0(n, -1)*exg(j0-1, 1, l) + sx0(n, 0)*exg(j0, 1, l) + sx0(n,        &
         1)*exg(j0+1, 1, l) + sx0(n, 2)*exg(j0+2, 1, l))
         ex(nn) = ex(nn) + a*sz(n, 0)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l+1) + sx0(n, 0)*exg(j0, 1, l+1) + sx0(n,    &
+        a = (sx0(n, -1)*exg(j0-1, 1, l+1) + sx0(n, 0)*exg(j0, 1, l+1) + sx0(n,    &
         1)*exg(j0+1, 1, l+1) + sx0(n, 2)*exg(j0+2, 1, l+1))
         ex(nn) = ex(nn) + a*sz(n, 1)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l+2) + sx0(n, 0)*exg(j0, 1, l+2) + sx0(n,    &
+        a = (sx0(n, -1)*exg(j0-1, 1, l+2) + sx0(n, 0)*exg(j0, 1, l+2) + sx0(n,    &
         1)*exg(j0+1, 1, l+2) + sx0(n, 2)*exg(j0+2, 1, l+2))
         ex(nn) = ex(nn) + a*sz(n, 2)
 
@@ -1535,29 +1535,29 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         a = (sx(n, -1)*eyg(j-1, 1, l-1) + sx(n, 0)*eyg(j, 1, l-1) + sx(n, 1)*eyg(j+1, &
         1, l-1) + sx(n, 2)*eyg(j+2, 1, l-1))
         ey(nn) = ey(nn) + a*sz(n, -1)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l) + sx(n, 0)*eyg(j, 1, l) + sx(n, 1)*eyg(j+1, &
+        a = (sx(n, -1)*eyg(j-1, 1, l) + sx(n, 0)*eyg(j, 1, l) + sx(n, 1)*eyg(j+1, &
         1, l) + sx(n, 2)*eyg(j+2, 1, l))
         ey(nn) = ey(nn) + a*sz(n, 0)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l+1) + sx(n, 0)*eyg(j, 1, l+1) + sx(n,         &
+        a = (sx(n, -1)*eyg(j-1, 1, l+1) + sx(n, 0)*eyg(j, 1, l+1) + sx(n,         &
         1)*eyg(j+1, 1, l+1) + sx(n, 2)*eyg(j+2, 1, l+1))
         ey(nn) = ey(nn) + a*sz(n, 1)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l+2) + sx(n, 0)*eyg(j, 1, l+2) + sx(n,         &
+        a = (sx(n, -1)*eyg(j-1, 1, l+2) + sx(n, 0)*eyg(j, 1, l+2) + sx(n,         &
         1)*eyg(j+1, 1, l+2) + sx(n, 2)*eyg(j+2, 1, l+2))
         ey(nn) = ey(nn) + a*sz(n, 2)
 
         ! Compute Ez on particle
         a = (sx(n, -1)*ezg(j-1, 1, l0-1) + sx(n, 0)*ezg(j, 1, l0-1) + sx(n,           &
         1)*ezg(j+1, 1, l0-1) + sx(n, 2)*ezg(j+2, 1, l0-1))
-        ey(nn) = ey(nn) + a*sz0(n, -1)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0) + sx(n, 0)*ezg(j, 1, l0) + sx(n,           &
+        ez(nn) = ez(nn) + a*sz0(n, -1)
+        a = (sx(n, -1)*ezg(j-1, 1, l0) + sx(n, 0)*ezg(j, 1, l0) + sx(n,           &
         1)*ezg(j+1, 1, l0) + sx(n, 2)*ezg(j+2, 1, l0))
-        ey(nn) = ey(nn) + a*sz0(n, 0)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0+1) + sx(n, 0)*ezg(j, 1, l0+1) + sx(n,       &
+        ez(nn) = ez(nn) + a*sz0(n, 0)
+        a = (sx(n, -1)*ezg(j-1, 1, l0+1) + sx(n, 0)*ezg(j, 1, l0+1) + sx(n,       &
         1)*ezg(j+1, 1, l0+1) + sx(n, 2)*ezg(j+2, 1, l0+1))
-        ey(nn) = ey(nn) + a*sz0(n, 1)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0+2) + sx(n, 0)*ezg(j, 1, l0+2) + sx(n,       &
+        ez(nn) = ez(nn) + a*sz0(n, 1)
+        a = (sx(n, -1)*ezg(j-1, 1, l0+2) + sx(n, 0)*ezg(j, 1, l0+2) + sx(n,       &
         1)*ezg(j+1, 1, l0+2) + sx(n, 2)*ezg(j+2, 1, l0+2))
-        ey(nn) = ey(nn) + a*sz0(n, 2)
+        ez(nn) = ez(nn) + a*sz0(n, 2)
 
 
         ! Compute Bx on particle
@@ -1591,16 +1591,16 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         ! Compute Bz on particle
         a = (sx0(n, -1)*bzg(j0-1, 1, l-1) + sx0(n, 0)*bzg(j0, 1, l-1) + sx0(n,        &
         1)*bzg(j0+1, 1, l-1) + sx0(n, 2)*bzg(j0+2, 1, l-1))
-        bx(nn) = bx(nn) + a*sz(n, -1)
+        bz(nn) = bz(nn) + a*sz(n, -1)
         a = (sx0(n, -1)*bzg(j0-1, 1, l) + sx0(n, 0)*bzg(j0, 1, l) + sx0(n,            &
         1)*bzg(j0+1, 1, l) + sx0(n, 2)*bzg(j0+2, 1, l))
-        bx(nn) = bx(nn) + a*sz(n, 0)
+        bz(nn) = bz(nn) + a*sz(n, 0)
         a = (sx0(n, -1)*bzg(j0-1, 1, l+1) + sx0(n, 0)*bzg(j0, 1, l+1) + sx0(n,        &
         1)*bzg(j0+1, 1, l+1) + sx0(n, 2)*bzg(j0+2, 1, l+1))
-        bx(nn) = bx(nn) + a*sz(n, 1)
+        bz(nn) = bz(nn) + a*sz(n, 1)
         a = (sx0(n, -1)*bzg(j0-1, 1, l+2) + sx0(n, 0)*bzg(j0, 1, l+2) + sx0(n,        &
         1)*bzg(j0+1, 1, l+2) + sx0(n, 2)*bzg(j0+2, 1, l+2))
-        bx(nn) = bx(nn) + a*sz(n, 2)
+        bz(nn) = bz(nn) + a*sz(n, 2)
       enddo
 #if defined _OPENMP && _OPENMP>=201307
       !$OMP END SIMD
-- 
2.43.0


From 060d67ef40116b0c00b326516d4d61be3628102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:01 +0000
Subject: [PATCH 04/79] fix: keep the B08 radiation reaction pusher finite for
 particles at rest

---
 src/particle_pushers/boris_pusher/boris_3d.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle_pushers/boris_pusher/boris_3d.F90 b/src/particle_pushers/boris_pusher/boris_3d.F90
index 2378c18..bc375d8 100644
--- a/src/particle_pushers/boris_pusher/boris_3d.F90
+++ b/src/particle_pushers/boris_pusher/boris_3d.F90
@@ -456,7 +456,7 @@ SUBROUTINE pxr_boris_push_rr_B08_u_3d(np, uxp, uyp, uzp, gaminv, ex, ey, ez, bx,
     crr=-(4_num*const*q**3*gamtmp)/(3_num*m**2*clight**5*4*pi*eps0)
     
     ! 'up' inverse square norm 
-    upinvsq=1_num/(uxp(ip)**2 + uyp(ip)**2+ uzp(ip)**2)
+    upinvsq=1_num/MAX(uxp(ip)**2 + uyp(ip)**2+ uzp(ip)**2, TINY(1.0_num))
 
     ! E dot u / u square
     epar=upinvsq*(ex(ip)*uxp(ip)+ey(ip)*uyp(ip)+ez(ip)*uzp(ip))
-- 
2.43.0


From c73803bfa93bd3820e236e3991077be40ebd6eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:43 +0000
Subject: [PATCH 05/79] fix: compute the stencil coefficients of orders above
 four and of nodal grids with the complete recursion

---
 src/submain.F90 | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/submain.F90 b/src/submain.F90
index 3d440fc..7d49745 100644
--- a/src/submain.F90
+++ b/src/submain.F90
@@ -958,6 +958,8 @@ SUBROUTINE FD_weights(coeffs, norder, l_nodal)
   DO i=0, n-1
     x(i)=(i-n/2+1)*1.0_num
   END DO
+  ! Nodal grid: points symmetric about z
+  IF (l_nodal) x=x-1.0_num
 
   c=0.0_num; c1=1.0_num; c4=x(0)-z; c(0, 0)=1.0_num
   DO i=1, n-1
@@ -973,18 +975,21 @@ SUBROUTINE FD_weights(coeffs, norder, l_nodal)
           c(k, i)=c1*(k*c(k-1, i-1)-c5*c(k, i-1))/c2
         END DO
         c(0, i)=-c1*c5*c(0, i-1)/c2
-        DO k=1, mn-1
-          c(k, j)=(c4*c(k, j)-k*c(k-1, j))/c3
-        END DO
-        c(0, j)=c4*c(0, j)/c3
       END IF
-
+      DO k=1, mn-1
+        c(k, j)=(c4*c(k, j)-k*c(k-1, j))/c3
+      END DO
+      c(0, j)=c4*c(0, j)/c3
     END DO
     c1=c2
   END DO
 
   DO i=1, norder/2
-    coeffs(i)=c(m, norder/2+i-1)
+    IF (l_nodal) THEN
+      coeffs(i)=c(m, norder/2+i)
+    ELSE
+      coeffs(i)=c(m, norder/2+i-1)
+    END IF
   END DO
   RETURN
 END SUBROUTINE FD_weights
-- 
2.43.0


From 47cbe636b05077dbfeef863b17405a2a728deb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:00 +0000
Subject: [PATCH 06/79] fix: scale the spectral wavenumbers of fftfreq by 2 pi

---
 src/field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90 b/src/field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90
index a75e4a0..f0f47ba 100644
--- a/src/field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90
+++ b/src/field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90
@@ -861,7 +861,7 @@ MODULE gpstd_solver
         kxx(i+1)=kxx(i)+(1.0_num, 0.0_num)
       END DO
     ENDIF
-    kxx=kxx/(dxx*nxx)/2.0_num*PI
+    kxx=kxx/(dxx*nxx)*2.0_num*PI
   END SUBROUTINE fftfreq
 
   ! ______________________________________________________________________________________
-- 
2.43.0


From 369f2ae7f90cb807f0b8c2728d481a9c4c0ea8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:38 +0000
Subject: [PATCH 07/79] fix: boost Bx of grid fields with beta/c

---
 src/diags/diags.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index d9a5b15..882d482 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -1382,7 +1382,7 @@ MODULE diagnostics
 
       temp = fields(1,i)
       fields(1,i) = gam*(fields(1,i) - cbeta*fields(3,i)) ! ey
-      fields(3,i) = gam*(fields(3,i) - cbeta*temp)    ! bx
+      fields(3,i) = gam*(fields(3,i) - beta_c*temp)    ! bx
   
       temp = fields(9,i)
       fields(9,i) =  gam*( fields(9,i) + beta_c * fields(8,i) ) ! rho
@@ -1429,7 +1429,7 @@ MODULE diagnostics
 
         temp = fields(1,i,j)
         fields(1,i,j) = gam*(fields(1,i,j) - cbeta*fields(3,i,j)) ! ey
-        fields(3,i,j) = gam*(fields(3,i,j) - cbeta*temp)    ! bx
+        fields(3,i,j) = gam*(fields(3,i,j) - beta_c*temp)    ! bx
 
         temp = fields(9,i,j)
         fields(9,i,j) =  gam*( fields(9,i,j) + beta_c * fields(8,i,j) ) ! rho
-- 
2.43.0


From b98cb229cf339cab27225903c62ec3a46c7a3f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:38 +0000
Subject: [PATCH 08/79] fix: boost the Lorentz factor of particles together
 with their momentum

---
 src/diags/diags.F90 | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 882d482..5728c59 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -1504,8 +1504,12 @@ MODULE diagnostics
        temp = excp(i)
        excp(i) = gamma_boost*(excp(i) + cbeta*bycp(i))
        bycp(i) = gamma_boost*(bycp(i) + beta_ov_c*temp)
+       temp = uzc(i)
        uzc(i) = gamma_boost*uzc(i)- gc(i)*uzfrm
+       gc(i) = gamma_boost*(gc(i) + beta_ov_c*temp)
+       temp = uzcp(i)
        uzcp(i) = gamma_boost*uzcp(i)   - gcp(i)*uzfrm
+       gcp(i) = gamma_boost*(gcp(i) + beta_ov_c*temp)
 
        ! Compute interpolation weights
        weight_prev = (t - t_output)/(t - t_prev)
@@ -1572,7 +1576,7 @@ MODULE diagnostics
      cbeta = beta_boost*clight
      beta_ov_c = beta_boost*iclight
 
-     !$OMP PARALLEL DO DEFAULT(SHARED) PRIVATE(i,t,t_prev,weight_prev,weight_next) COLLAPSE(1)
+     !$OMP PARALLEL DO DEFAULT(SHARED) PRIVATE(i,t,t_prev,weight_prev,weight_next,temp) COLLAPSE(1)
      DO  i =1,np
        ! Compute times
        t = gamma_boost*time - uzfrm*zc(i)*iclight2
@@ -1581,8 +1585,12 @@ MODULE diagnostics
        ! Compute modified data by lorentz transform
        zc(i) = gamma_boost*(zc(i) + beta_boost*clight*time)
        zcp(i) = gamma_boost*(zcp(i) + beta_boost*clight*(time-dt))
+       temp = uzc(i)
        uzc(i) = gamma_boost*uzc(i)- gc(i)*uzfrm
+       gc(i) = gamma_boost*(gc(i) + beta_ov_c*temp)
+       temp = uzcp(i)
        uzcp(i) = gamma_boost*uzcp(i)   - gcp(i)*uzfrm
+       gcp(i) = gamma_boost*(gcp(i) + beta_ov_c*temp)
 
        ! Compute interpolation weights
        weight_prev = (t - t_output)/(t - t_prev)
-- 
2.43.0


From 4e1446b89b37ff2c7e58cfcb61b31014470f62da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:38 +0000
Subject: [PATCH 09/79] fix: interpolate the Godfrey coefficients linearly
 between the entries of the table

---
 src/filtering/nci_godfrey_corr.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filtering/nci_godfrey_corr.F90 b/src/filtering/nci_godfrey_corr.F90
index e93e1a0..5e33748 100644
--- a/src/filtering/nci_godfrey_corr.F90
+++ b/src/filtering/nci_godfrey_corr.F90
@@ -307,7 +307,7 @@ SUBROUTINE init_godfrey_filter_coeffs(stencilz_ex, stencilz_by, nstencilz, cdtod
     IF (index>size_coeff_table-1) THEN
       index = size_coeff_table-1
     ENDIF
-    weight_right = cdtodz - (index-1)/size_coeff_table
+    weight_right = size_coeff_table*cdtodz - (index-1)
     DO i=0, 3
       prestencil_ex(i) = (1-weight_right)*coeff_ex_galerkin(i+1,index) + weight_right*coeff_ex_galerkin(i+1,index+1)
       prestencil_by(i) = (1-weight_right)*coeff_by_galerkin(i+1,index) + weight_right*coeff_by_galerkin(i+1,index+1)
-- 
2.43.0


From 80573d20a60daf9057519f6959c8c3968010d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:52 +0000
Subject: [PATCH 10/79] fix: let the Breit-Wheeler engine compile in single
 precision

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index 35b0873..85ce180 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -935,7 +935,7 @@ PXRMP_FORCE_INLINE
 _REAL picsar::multi_physics::breit_wheeler_engine<_REAL, _RNDWRAP>::
 compute_inner_integral(_REAL x) const
 {
-    auto func = [=](_REAL s){
+    auto func = [=](_REAL s) -> _REAL {
         if (s >= static_cast<_REAL>(__breit_wheeler_special_func_big_arg))
             return zero;
         return sqrt(s)*k_v(one/three, two*pow(s, three/two)/three);
-- 
2.43.0


From fc1e6cfcc408e5173f15303ac64e102eed68276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:52 +0000
Subject: [PATCH 11/79] fix: return the underflowed value of Bessel functions
 of large arguments instead of throwing

---
 src/multi_physics/QED/src/special_functions.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/multi_physics/QED/src/special_functions.hpp b/src/multi_physics/QED/src/special_functions.hpp
index eec1124..124f621 100644
--- a/src/multi_physics/QED/src/special_functions.hpp
+++ b/src/multi_physics/QED/src/special_functions.hpp
@@ -54,6 +54,11 @@ namespace picsar{
 template<typename _REAL_ARG1, typename _REAL_ARG2>
 auto picsar::multi_physics::k_v(_REAL_ARG1 v, _REAL_ARG2 x)
 {
+    //std::cyl_bessel_k throws for large arguments, where the result underflows
+    using RES = decltype(std::cyl_bessel_k(v, x));
+    if(x > -std::log(std::numeric_limits<RES>::denorm_min()))
+        return static_cast<RES>(0.0);
+
     return std::cyl_bessel_k(v, x);
 }
 
-- 
2.43.0


From a9e0fdea8e4984c35d3a71a436fad2b00bee35a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:52 +0000
Subject: [PATCH 12/79] fix: return the last element from the non-const back of
 picsar_vector

---
 src/multi_physics/QED/src/picsar_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/picsar_vector.hpp b/src/multi_physics/QED/src/picsar_vector.hpp
index 025982c..7075d47 100644
--- a/src/multi_physics/QED/src/picsar_vector.hpp
+++ b/src/multi_physics/QED/src/picsar_vector.hpp
@@ -347,7 +347,7 @@ PXRMP_GPU PXRMP_FORCE_INLINE
 T&
 picsar::multi_physics::picsar_vector<T>::back()
 {
-    return v_data[0];
+    return v_data[v_size-1];
 }
 
 template <typename T>
-- 
2.43.0


From 068e0d8e66e977bc8298360390eaf9f043d75a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:52 +0000
Subject: [PATCH 13/79] fix: free the previous storage of picsar_vector on
 assignment and allow self-assignment

---
 src/multi_physics/QED/src/picsar_vector.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/multi_physics/QED/src/picsar_vector.hpp b/src/multi_physics/QED/src/picsar_vector.hpp
index 7075d47..3a663b5 100644
--- a/src/multi_physics/QED/src/picsar_vector.hpp
+++ b/src/multi_physics/QED/src/picsar_vector.hpp
@@ -213,12 +213,18 @@ template <typename T>
 picsar::multi_physics::picsar_vector<T>&
 picsar::multi_physics::picsar_vector<T>::operator= (const picsar_vector& other)
 {
-    v_size = other.v_size;
+    if(this == &other)
+        return *this;
 
-    v_data = new T[other.v_size];
-    for(size_t i = 0; i < v_size; i++)
-        v_data[i] = other.v_data[i];
+    T* temp_data = new T[other.v_size];
+    for(size_t i = 0; i < other.v_size; i++)
+        temp_data[i] = other.v_data[i];
+
+    if(should_manage_memory)
+        delete[] v_data;
 
+    v_data = temp_data;
+    v_size = other.v_size;
     should_manage_memory = true;
 
     return *this;
@@ -231,6 +237,12 @@ PXRMP_GPU PXRMP_FORCE_INLINE
 picsar::multi_physics::picsar_vector<T>&
 picsar::multi_physics::picsar_vector<T>::operator= (picsar_vector&& other)
 {
+    if(this == &other)
+        return *this;
+
+    if(should_manage_memory)
+        delete[] v_data;
+
     v_size = other.v_size;
     v_data = other.v_data;
     should_manage_memory = other.should_manage_memory;
-- 
2.43.0


From 7b3c6d77bf9b262cac3d7db94d7a269e9c38c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:52 +0000
Subject: [PATCH 14/79] fix: pass the cell size when drawing Schwinger pairs

---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index 45e5a7a..7d81c66 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -218,7 +218,8 @@ _REAL dt
 {
     std::pair<bool, _REAL> res{false, zero};
 
-    internal_generate_pairs_single(ex, ey, ez, bx, by, bz, dt,
+    internal_generate_pairs_single(ex, ey, ez, bx, by, bz,
+        dx, dy, dz, dt,
         &res.first, &res.second, lambda, rng.unf(zero, one));
 
     return res;
@@ -276,7 +277,8 @@ _REAL dt
 {
     std::pair<size_t, _REAL> res{0, zero};
 
-    internal_generate_pairs_multiple(ex, ey, ez, bx, by, bz, dt,
+    internal_generate_pairs_multiple(ex, ey, ez, bx, by, bz,
+        dx, dy, dz, dt,
         &res.first, &res.second, lambda, rng.unf(zero, one));
 
     return res;
-- 
2.43.0


From d20707808a394081b3f7e4bbcbd9d43bb84db857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:54 +0000
Subject: [PATCH 15/79] fix: keep table interpolation inside the data at and
 near the upper end of the coordinates

---
 src/multi_physics/QED/src/lookup_tables.hpp | 71 ++++++++++++---------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 63f56d1..a4b1b92 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -206,6 +206,35 @@ namespace picsar{
 
 //############################################### Implementation
 
+//Index of the left node of the interval which contains "where"
+//(equispaced coordinates; the last interval includes its right end)
+namespace picsar{
+    namespace multi_physics{
+        template<typename _REAL>
+        PXRMP_GPU
+        PXRMP_FORCE_INLINE
+        size_t equispaced_left_node
+        (const picsar_vector<_REAL>& coords, _REAL where)
+        {
+            const size_t last = coords.size()-2;
+            size_t idx = static_cast<size_t>(floor(
+                (coords.size()-1)*(where-coords.front())/
+                (coords.back()-coords.front())));
+
+            if(idx > last)
+                idx = last;
+
+            //Rounding may select a neighbour of the right interval
+            if(idx > 0 && where < coords[idx])
+                --idx;
+            else if(idx < last && where >= coords[idx+1])
+                ++idx;
+
+            return idx;
+        }
+    }
+}
+
 //_______________________1D table_______________________________
 
 //Empty Constructor
@@ -311,13 +340,7 @@ _REAL
 picsar::multi_physics::lookup_1d<_REAL>::
 interp_linear_equispaced(_REAL where) const
 {
-    _REAL xmin = coords.front();
-    _REAL xmax = coords.back();
-
-    _REAL xsize = xmax - xmin;
-
-    size_t idx_left = static_cast<size_t>(
-        floor((coords.size()-1)*(where-xmin)/xsize));
+    size_t idx_left = equispaced_left_node(coords, where);
     size_t idx_right = idx_left + 1;
 
     _REAL xleft = coords[idx_left];
@@ -337,6 +360,8 @@ interp_linear(_REAL where) const
 {
     auto iter_right = picsar_upper_bound(coords.begin(), coords.end(),where);
     size_t idx_right = std::distance(coords.begin(), iter_right);
+    if(idx_right == coords.size()) //where is the last coordinate
+        idx_right--;
     size_t idx_left = idx_right-1;
 
     _REAL xleft = coords[idx_left];
@@ -541,6 +566,10 @@ interp_linear(_REAL where_x, _REAL where_y) const
         picsar_upper_bound(coords[1].begin(), coords[1].end(),where_y);
     size_t idx_x_right = std::distance(coords[0].begin(), it_x_right);
     size_t idx_y_right = std::distance(coords[1].begin(), it_y_right);
+    if(idx_x_right == coords[0].size()) //where_x is the last coordinate
+        idx_x_right--;
+    if(idx_y_right == coords[1].size()) //where_y is the last coordinate
+        idx_y_right--;
     size_t idx_x_left = idx_x_right - 1;
     size_t idx_y_left = idx_y_right - 1;
 
@@ -574,21 +603,10 @@ _REAL
 picsar::multi_physics::lookup_2d<_REAL>::
 interp_linear_equispaced(_REAL where_x, _REAL where_y) const
 {
-
-    _REAL xmin = coords[0].front();
-    _REAL xmax = coords[0].back();
-    _REAL xsize = xmax - xmin;
-
-    _REAL ymin = coords[1].front();
-    _REAL ymax = coords[1].back();
-    _REAL ysize = ymax - ymin;
-
-    size_t idx_x_left = static_cast<size_t>(
-        floor((coords[0].size()-1)*(where_x-xmin)/xsize));
+    size_t idx_x_left = equispaced_left_node(coords[0], where_x);
     size_t idx_x_right = idx_x_left + 1;
 
-    size_t idx_y_left = static_cast<size_t>(
-        floor((coords[1].size()-1)*(where_y-ymin)/ysize));
+    size_t idx_y_left = equispaced_left_node(coords[1], where_y);
     size_t idx_y_right = idx_y_left + 1;
 
     _REAL xleft = coords[0][idx_x_left];
@@ -622,13 +640,11 @@ _REAL
 picsar::multi_physics::lookup_2d<_REAL>::
 interp_linear_first(_REAL where_x, size_t coord_y) const
 {
-    _REAL xmin = coords[0].front();
-    _REAL xmax = coords[0].back();
-    _REAL xsize = xmax - xmin;
-
     auto it_x_right =
         picsar_upper_bound(coords[0].begin(), coords[0].end(),where_x);
     size_t idx_x_right = std::distance(coords[0].begin(), it_x_right);
+    if(idx_x_right == coords[0].size()) //where_x is the last coordinate
+        idx_x_right--;
     size_t idx_x_left = idx_x_right - 1;
 
     _REAL xleft = coords[0][idx_x_left];
@@ -666,12 +682,7 @@ interp_linear_first_equispaced(_REAL where_x, size_t coord_y) const
     if(where_x >= coords[0].back())
         return data[row_major(sx-1,coord_y,sx,sy)];
 
-    _REAL xmin = coords[0].front();
-    _REAL xmax = coords[0].back();
-    _REAL xsize = xmax - xmin;
-
-    size_t idx_x_left = static_cast<size_t>(
-            floor((sx-1)*(where_x-xmin)/xsize));
+    size_t idx_x_left = equispaced_left_node(coords[0], where_x);
     size_t idx_x_right = idx_x_left + 1;
 
     _REAL xleft = coords[0][idx_x_left];
-- 
2.43.0


From cc522f829322dad894ba4aafbcc4dd6f29f603ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:54 +0000
Subject: [PATCH 16/79] fix: return the datum at table nodes next to a null
 probability instead of NaN

---
 src/multi_physics/QED/src/lookup_tables.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index a4b1b92..169b8bc 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -691,6 +691,10 @@ interp_linear_first_equispaced(_REAL where_x, size_t coord_y) const
     _REAL zlc = data[row_major(idx_x_left,coord_y,sx,sy)];
     _REAL zrc = data[row_major(idx_x_right,coord_y,sx,sy)];
 
+    //The logarithm of a null probability is -inf: its weight must not be zero
+    if(where_x == xleft)
+        return zlc;
+
     _REAL wlc = (xright - where_x);
     _REAL wrc = (where_x - xleft);
 
-- 
2.43.0


From 4e6331ccb79066c59d83a908b69a9b44f6e8ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:19 +0000
Subject: [PATCH 17/79] fix: keep the pair energy search inside the table for
 random numbers next to 1/2 and 1

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index 85ce180..cbea1c3 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -489,7 +489,8 @@ const _REAL* unf_zero_one_minus_epsi)
             }
         }
 
-        size_t upper = first;
+        //Rounding may leave the last probability just below 1/2
+        size_t upper = (first < how_many_frac)? first : how_many_frac-1;
         size_t lower = upper-1;
 
         const _REAL upper_frac = ref_cum_distrib_table.ref_coords()[1][upper];
-- 
2.43.0


From bdc370a48b24f0e5359be0b24933d2d195266916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:19 +0000
Subject: [PATCH 18/79] fix: ignore the normalisation length in SI units when
 interpolating the emission rate

---
 src/multi_physics/QED/src/quantum_sync_engine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/multi_physics/QED/src/quantum_sync_engine.hpp b/src/multi_physics/QED/src/quantum_sync_engine.hpp
index 2ceb57f..cf4806a 100644
--- a/src/multi_physics/QED/src/quantum_sync_engine.hpp
+++ b/src/multi_physics/QED/src/quantum_sync_engine.hpp
@@ -321,6 +321,10 @@ const lookup_1d<_REAL>& ref_KKfunc_table,
 const quantum_synchrotron_engine_ctrl<_REAL>& ref_qs_ctrl,
 _REAL _lambda)
 {
+#ifdef PXRMP_WITH_SI_UNITS
+    _lambda = static_cast<_REAL>(1.0);
+#endif
+
     if(energy_part == zero || chi_part == zero)
         return zero;
 
-- 
2.43.0


From ab2c6514d0777ec0a56b65992f235ddf73f2033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:19 +0000
Subject: [PATCH 19/79] fix: refuse a logarithmic range which starts at zero

---
 src/multi_physics/QED/src/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/utilities.hpp b/src/multi_physics/QED/src/utilities.hpp
index 795632c..1fd0a77 100644
--- a/src/multi_physics/QED/src/utilities.hpp
+++ b/src/multi_physics/QED/src/utilities.hpp
@@ -70,7 +70,7 @@ picsar::multi_physics::generate_log_spaced_vec
 {
     //Return empty vector upon error
     if( min >= max ||
-        min < static_cast<_REAL>(0) || max< static_cast<_REAL>(0) ||
+        min <= static_cast<_REAL>(0) || max< static_cast<_REAL>(0) ||
         size < 2)
         return std::vector<_REAL>(0);
 
-- 
2.43.0


From 68067818d3e86f468fb6d8f322523ef41f6f79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:19 +0000
Subject: [PATCH 20/79] fix: keep log-lin-log ranges increasing for sizes which
 are not multiples of three

---
 src/multi_physics/QED/src/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/utilities.hpp b/src/multi_physics/QED/src/utilities.hpp
index 1fd0a77..a2eab7f 100644
--- a/src/multi_physics/QED/src/utilities.hpp
+++ b/src/multi_physics/QED/src/utilities.hpp
@@ -115,7 +115,7 @@ picsar::multi_physics::generate_log_lin_log_spaced_vec
     std::vector<_REAL> vec(size);
     size_t size_first = size/3;
     size_t size_second = size/3;
-    size_t size_third = size/3;
+    size_t size_third = size - size_first - size_second;
 
     _REAL first_val = max*static_cast<_REAL>(1.0/10.0);
     _REAL second_val = max*static_cast<_REAL>(9.0/10.0);
-- 
2.43.0


From 64ff9016df77b156f0c3dcad4dd53f5fa74a144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:47 +0000
Subject: [PATCH 21/79] fix: rebuild an engine without tables as an engine
 without tables

---
 src/multi_physics/QED/src/lookup_tables.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 169b8bc..39580f1 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -278,7 +278,7 @@ picsar::multi_physics::lookup_1d<_REAL>::
 lookup_1d(size_t how_many, _REAL* _coords, _REAL* _data):
 coords{how_many, _coords},
 data{how_many, _data},
-init_flag{true}
+init_flag{how_many > 0}
 {}
 
 //Assignment operator
@@ -468,7 +468,7 @@ lookup_2d(size_t how_many_1,
           _REAL* _coords_2,
           _REAL* _data):
 data{how_many_1*how_many_2, _data},
-init_flag{true}
+init_flag{how_many_1*how_many_2 > 0}
 {
     coords[0] = std::move(picsar_vector<_REAL>{how_many_1, _coords_1});
     coords[1] = std::move(picsar_vector<_REAL>{how_many_2, _coords_2});
-- 
2.43.0


From 0bc6085e79c44eff107a57541cc1d638f61a00f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:47 +0000
Subject: [PATCH 22/79] fix: do not mark tables read from a missing or
 truncated file as initialised

---
 src/multi_physics/QED/src/lookup_tables.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 39580f1..ae106ea 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -381,9 +381,13 @@ void
 picsar::multi_physics::lookup_1d<_REAL>::
 read_from_stream_bin(std::ifstream& in)
 {
+    //An incomplete stream must not leave an initialized table
+    init_flag = false;
+
     size_t size_coords;
     in.read (
         reinterpret_cast<char*>(&size_coords), sizeof(size_coords));
+    if(!in) return;
     coords.resize(size_coords);
     in.read (
         reinterpret_cast<char*>(coords.data()), sizeof(_REAL)*size_coords);
@@ -391,10 +395,12 @@ read_from_stream_bin(std::ifstream& in)
     size_t size_data;
     in.read (
         reinterpret_cast<char*>(&size_data), sizeof(size_data));
+    if(!in) return;
     data.resize(size_data);
     in.read (
         reinterpret_cast<char*>(data.data()), sizeof(_REAL)*size_data);
 
+    if(in)
         init_flag = true;
 }
 
@@ -711,9 +717,13 @@ void
 picsar::multi_physics::lookup_2d<_REAL>::
 read_from_stream_bin(std::ifstream& in)
 {
+    //An incomplete stream must not leave an initialized table
+    init_flag = false;
+
     size_t size_coords_0;
     in.read (
         reinterpret_cast<char*>(&size_coords_0), sizeof(size_coords_0));
+    if(!in) return;
     coords[0].resize(size_coords_0);
     in.read (
         reinterpret_cast<char*>(coords[0].data()), sizeof(_REAL)*size_coords_0);
@@ -721,6 +731,7 @@ read_from_stream_bin(std::ifstream& in)
     size_t size_coords_1;
     in.read (
         reinterpret_cast<char*>(&size_coords_1), sizeof(size_coords_1));
+    if(!in) return;
     coords[1].resize(size_coords_1);
     in.read (
         reinterpret_cast<char*>(coords[1].data()), sizeof(_REAL)*size_coords_1);
@@ -728,10 +739,12 @@ read_from_stream_bin(std::ifstream& in)
     size_t size_data;
     in.read (
         reinterpret_cast<char*>(&size_data), sizeof(size_data));
+    if(!in) return;
     data.resize(size_data);
     in.read (
         reinterpret_cast<char*>(data.data()), sizeof(_REAL)*size_data);
 
+    if(in)
         init_flag = true;
 }
 
-- 
2.43.0


From 1140bdc3d42601de389fd1b1e50aaf7e68c090aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:21 +0000
Subject: [PATCH 23/79] fix: keep the Schwinger rate finite in single precision

---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index 7d81c66..c7d9ce2 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -386,10 +386,11 @@ _REAL _lambda
     else
         res = epsi*epsi*exp(-pi/epsi)/pi;
 
-    _REAL schwinger_coeff =
-        static_cast<_REAL>(__schwinger_coeff)*_lambda*_lambda*_lambda*_lambda;
+    //The coefficient alone does not fit in single precision
+    double schwinger_coeff =
+        __schwinger_coeff*_lambda*_lambda*_lambda*_lambda;
 
-    return schwinger_coeff*res;
+    return static_cast<_REAL>(schwinger_coeff*res);
 }
 
 #endif //__PICSAR_MULTIPHYSICS_SCHWINGER_PAIR_ENGINE__
-- 
2.43.0


From f43c5aa3730ed563db6608237175fef620ef2aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:38 +0000
Subject: [PATCH 24/79] fix: use the total energy of the particle in the photon
 emission rate

---
 src/multi_physics/QED/src/quantum_sync_engine.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/quantum_sync_engine.hpp b/src/multi_physics/QED/src/quantum_sync_engine.hpp
index cf4806a..cd0cd2d 100644
--- a/src/multi_physics/QED/src/quantum_sync_engine.hpp
+++ b/src/multi_physics/QED/src/quantum_sync_engine.hpp
@@ -376,7 +376,10 @@ const quantum_synchrotron_engine_ctrl<_REAL>& ref_qs_ctrl)
 #endif
 
 
-    _REAL energy = norm<_REAL>(vec3<_REAL> {px, py, pz})*__c;
+    _REAL norm_p_mc = norm<_REAL>(vec3<_REAL> {px, py, pz})/
+        static_cast<_REAL>(__emass*__c);
+    _REAL energy = sqrt(one + norm_p_mc*norm_p_mc)*
+        static_cast<_REAL>(__emass*__c*__c);
     _REAL chi = chi_lepton(px, py, pz, ex, ey, ez, bx, by, bz, _lambda);
 
     has_event_happend = false;
@@ -637,7 +640,10 @@ _REAL dt, _REAL& opt_depth) const
 
         err("dndt lookup table not initialized!\n");
 
-        _REAL energy = norm<_REAL>(vec3<_REAL> {px, py, pz})*__c;
+        _REAL norm_p_mc = norm<_REAL>(vec3<_REAL> {px, py, pz})/
+            static_cast<_REAL>(__emass*__c);
+        _REAL energy = sqrt(one + norm_p_mc*norm_p_mc)*
+            static_cast<_REAL>(__emass*__c*__c);
         _REAL chi = chi_lepton(px, py, pz, ex, ey, ez, bx, by, bz, lambda);
         _REAL dndt = compute_dN_dt(energy, chi);
         opt_depth -= dndt*dt;
-- 
2.43.0


From 627000fa6de54a80ed5fc3d4199bb05445cef1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:17 +0000
Subject: [PATCH 25/79] fix: integrate the photon spectrum across its
 singularity at low energies

---
 src/multi_physics/QED/src/quadrature.hpp      | 18 +++++++++
 .../QED/src/quantum_sync_engine.hpp           | 40 ++++++++++---------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/multi_physics/QED/src/quadrature.hpp b/src/multi_physics/QED/src/quadrature.hpp
index 5b099f2..2e83fdc 100644
--- a/src/multi_physics/QED/src/quadrature.hpp
+++ b/src/multi_physics/QED/src/quadrature.hpp
@@ -31,6 +31,13 @@ namespace picsar{
         PXRMP_FORCE_INLINE
         _REAL quad_a_b_s(const std::function<_REAL(_REAL)>& f, _REAL a, _REAL b);
 
+        //Provides adaptive integration in a finite interval [a,b]
+        //(the function is not evaluated at the boundaries)
+        template<typename _REAL>
+        PXRMP_FORCE_INLINE
+        _REAL quad_a_b_adaptive
+        (const std::function<_REAL(_REAL)>& f, _REAL a, _REAL b);
+
         //Provides integration in a semi-infinite interval [a,inf)
         template<typename _REAL>
         PXRMP_FORCE_INLINE
@@ -62,6 +69,17 @@ _REAL picsar::multi_physics::quad_a_b_s
         return integrator.integrate(f, a, b);
 }
 
+//This is really just a wrapper around the function provided by
+//the Boost libray
+template<typename _REAL>
+PXRMP_FORCE_INLINE
+_REAL picsar::multi_physics::quad_a_b_adaptive
+(const std::function<_REAL(_REAL)>& f, _REAL a, _REAL b)
+{
+    return boost::math::quadrature::gauss_kronrod<_REAL, 15>
+        ::integrate(f, a, b);
+}
+
 //This is really just a wrapper around the function provided by
 //the Boost libray
 template<typename _REAL>
diff --git a/src/multi_physics/QED/src/quantum_sync_engine.hpp b/src/multi_physics/QED/src/quantum_sync_engine.hpp
index cd0cd2d..04e5949 100644
--- a/src/multi_physics/QED/src/quantum_sync_engine.hpp
+++ b/src/multi_physics/QED/src/quantum_sync_engine.hpp
@@ -282,6 +282,9 @@ namespace picsar{
          PXRMP_FORCE_INLINE
          _REAL compute_KK_integrand(_REAL chi_part, _REAL chi_phot) const;
 
+         PXRMP_FORCE_INLINE
+         _REAL compute_KK_integral(_REAL chi_part, _REAL chi_phot) const;
+
          PXRMP_FORCE_INLINE
          _REAL compute_KK_function(_REAL chi_part) const;
 
@@ -665,16 +668,7 @@ _REAL
 picsar::multi_physics::quantum_synchrotron_engine<_REAL, _RNDWRAP>::
 compute_cumulative_phot_em(_REAL chi_phot, _REAL chi_part) const
 {
-    auto func = [chi_part, this](_REAL __chi_phot){
-
-        if(chi_part - __chi_phot == zero || __chi_phot == zero)
-            return zero;
-        else{
-            return compute_KK_integrand(chi_part, __chi_phot);
-        }
-
-    };
-    _REAL num = quad_a_b<_REAL>(func, zero, chi_phot/two) + quad_a_b<_REAL>(func, chi_phot/two, chi_phot);
+    _REAL num = compute_KK_integral(chi_part, chi_phot);
     _REAL kk = compute_KK_function(chi_part);
     if(num >= kk)
         return one;
@@ -914,10 +908,12 @@ compute_inner_integral(_REAL y) const
     auto func = [this](_REAL s){
         if( s > static_cast<_REAL>(__quantum_synchrotron_special_func_big_arg))
             return zero;
-        return k_v(five/three, s);
+        return k_v(one/three, s);
     };
 
-    return quad_a_b<_REAL>(func, y, two*y) + quad_a_inf<_REAL>(func, two*y);
+    //K_{5/3} = - 2 dK_{2/3}/ds - K_{1/3}: in this form the part which diverges
+    //for y -> 0 is not integrated numerically
+    return two*k_v(two/three, y) - quad_a_inf<_REAL>(func, y);
 }
 
 template<typename _REAL, class _RNDWRAP>
@@ -939,18 +935,26 @@ compute_KK_integrand(_REAL chi_part, _REAL chi_phot) const
     return (inner + part_2)*coeff;
 }
 
+//Integral of the photon spectrum from zero to chi_phot
 template<typename _REAL, class _RNDWRAP>
 PXRMP_FORCE_INLINE
 _REAL picsar::multi_physics::quantum_synchrotron_engine<_REAL, _RNDWRAP>::
-compute_KK_function(_REAL chi_part) const
+compute_KK_integral(_REAL chi_part, _REAL chi_phot) const
 {
-
-    auto func = [chi_part, this](_REAL chi_phot){
-            return compute_KK_integrand(chi_part, chi_phot);
+    //The spectrum diverges as chi^(-2/3) for small chi: chi = chi_phot*t^3
+    auto func = [chi_part, chi_phot, this](_REAL t){
+            return three*t*t*compute_KK_integrand(chi_part, chi_phot*t*t*t);
     };
 
-    //The integral is split into two parts to  handle singularities better
-    return quad_a_b<_REAL>(func, zero, chi_part/two) + quad_a_b<_REAL>(func, chi_part/two, chi_part);
+    return chi_phot*quad_a_b_adaptive<_REAL>(func, zero, one);
+}
+
+template<typename _REAL, class _RNDWRAP>
+PXRMP_FORCE_INLINE
+_REAL picsar::multi_physics::quantum_synchrotron_engine<_REAL, _RNDWRAP>::
+compute_KK_function(_REAL chi_part) const
+{
+    return compute_KK_integral(chi_part, chi_part);
 }
 
 #endif //PXRMP_CORE_ONLY
-- 
2.43.0


From 605e4c7d540efb0d09f8a2a508b9b136f18a7986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:00 +0000
Subject: [PATCH 26/79] fix: keep the pair energy distribution finite when its
 normalisation underflows

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index cbea1c3..8a01431 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -716,7 +716,10 @@ compute_cumulative_pair(_REAL chi_phot, _REAL chi_part) const
         return compute_TT_integrand(chi_phot, _chi_part);
     };
    _REAL num = quad_a_b<_REAL>(func, zero, chi_part);
-   return num/compute_TT_function(chi_phot) ;
+   _REAL den = compute_TT_function(chi_phot);
+   if(den == zero) //Underflow
+        return zero;
+   return num/den;
 }
 
 template<typename _REAL, class _RNDWRAP>
-- 
2.43.0


From 2c09532b30cc598330fcabb63cca87f53df8e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:10 +0000
Subject: [PATCH 27/79] fix: square the Gamma factor in the pair production
 rate of large quantum parameters

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index 8a01431..6b94946 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -345,7 +345,7 @@ _REAL _lambda)
         //Not suitable for GPU! Replaced with asymptotic expansion.
         //TT = a*chi_phot*pow(k_v(one/three, b/chi_phot),two);
         _REAL ccoeff = static_cast<_REAL>(tgamma(one/three)/two);
-        TT = a*chi_phot*ccoeff*pow(chi_phot*two/b , two/three);
+        TT = a*chi_phot*ccoeff*ccoeff*pow(chi_phot*two/b , two/three);
 
     }
     //otherwise use lookup tables
-- 
2.43.0


From 85cb6944050d20ca60de2abbb18708b80a87a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:19 +0000
Subject: [PATCH 28/79] fix: scale the Schwinger field with the normalisation
 length in the pair rate

---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index c7d9ce2..a75aa6e 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -366,8 +366,11 @@ _REAL _lambda
     vec3<_REAL> ee{ex,ey,ez};
     vec3<_REAL> bb{bx,by,bz};
 
-    const _REAL c_ff = static_cast<_REAL>(one/(two*__schwinger*__schwinger));
-    const _REAL c_gg = static_cast<_REAL>(__c/__schwinger/__schwinger);
+    //The Schwinger field depends on the normalization length
+    const double schwinger = __schwinger*_lambda;
+
+    const _REAL c_ff = static_cast<_REAL>(one/(two*schwinger*schwinger));
+    const _REAL c_gg = static_cast<_REAL>(__c/schwinger/schwinger);
 
     _REAL ff = (norm2(ee) - static_cast<_REAL>(__c*__c)*norm2(bb))*c_ff;
     _REAL gg = dot(ee, bb)*c_gg;
-- 
2.43.0


From 7203affb903df9fd3db3cc456f8a2715ef314460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:33 +0000
Subject: [PATCH 29/79] fix: do not reuse a cached guard datatype for an array
 of another shape

---
 src/boundary_conditions/field_boundaries.F90 | 82 ++++++++------------
 1 file changed, 34 insertions(+), 48 deletions(-)

diff --git a/src/boundary_conditions/field_boundaries.F90 b/src/boundary_conditions/field_boundaries.F90
index 8fc75c0..8c27b90 100755
--- a/src/boundary_conditions/field_boundaries.F90
+++ b/src/boundary_conditions/field_boundaries.F90
@@ -92,6 +92,28 @@ MODULE field_boundary
 
   END SUBROUTINE field_bc
 
+  ! ______________________________________________________________________________________
+  !> @brief
+  !> Makes sure that the cached derived type number id describes the given slab of
+  !> an array of the given sizes (arrays may have different numbers of guard cells).
+  ! ______________________________________________________________________________________
+  SUBROUTINE set_guard_dtype(id, subsizes, sizes, starts)
+    USE mpi
+    INTEGER(isp), INTENT(IN) :: id
+    INTEGER(idp), DIMENSION(c_ndims), INTENT(IN) :: subsizes, sizes, starts
+    INTEGER(idp), DIMENSION(c_ndims, 12), SAVE :: dtype_sizes, dtype_subsizes
+
+    IF (.NOT. is_dtype_init(id)) THEN
+      IF (ALL(dtype_sizes(:, id) .EQ. sizes) .AND. ALL(dtype_subsizes(:, id) .EQ.     &
+      subsizes)) RETURN
+      CALL MPI_TYPE_FREE(mpi_dtypes(id), errcode)
+    ENDIF
+    mpi_dtypes(id) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
+    dtype_sizes(:, id) = sizes
+    dtype_subsizes(:, id) = subsizes
+    is_dtype_init(id) = .FALSE.
+  END SUBROUTINE set_guard_dtype
+
   ! ______________________________________________________________________________________
   !> @brief
   !> Routine exchanging guard regions between subdomains
@@ -139,10 +161,7 @@ MODULE field_boundary
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
 
-    IF (is_dtype_init(1)) THEN
-      mpi_dtypes(1) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-      is_dtype_init(1) = .FALSE.
-    ENDIF
+    CALL set_guard_dtype(1_isp, subsizes, sizes, starts)
 
     ! MOVE EDGES ALONG X
     CALL MPI_SENDRECV(field(0, -nyg, -nzg), 1_isp, mpi_dtypes(1), INT(proc_x_min,     &
@@ -182,10 +201,7 @@ MODULE field_boundary
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
 
-    IF (is_dtype_init(2)) THEN
-      mpi_dtypes(2) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-      is_dtype_init(2) = .FALSE.
-    ENDIF
+    CALL set_guard_dtype(2_isp, subsizes, sizes, starts)
 
     ! MOVE EDGES ALONG Y
     CALL MPI_SENDRECV(field(-nxg, 0, -nzg), 1_isp, mpi_dtypes(2), INT(proc_y_min,     &
@@ -226,10 +242,7 @@ MODULE field_boundary
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
 
-    IF (is_dtype_init(3)) THEN
-      mpi_dtypes(3) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-      is_dtype_init(3) = .FALSE.
-    ENDIF
+    CALL set_guard_dtype(3_isp, subsizes, sizes, starts)
 
 
     ! MOVE EDGES ALONG Z
@@ -303,10 +316,7 @@ MODULE field_boundary
     subsizes(2) = sizes(2)
     subsizes(3) = sizes(3)
 
-    IF (is_dtype_init(4)) THEN
-      mpi_dtypes(4) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-      is_dtype_init(4) = .FALSE.
-    ENDIF
+    CALL set_guard_dtype(4_isp, subsizes, sizes, starts)
 
     ! --- +X
     CALL MPI_ISEND(field(0, -nyg, -nzg), 1_isp, mpi_dtypes(4), INT(proc_x_min, isp),  &
@@ -333,10 +343,7 @@ MODULE field_boundary
       subsizes(2) = nyg+1
       subsizes(3) = sizes(3)
   
-      IF (is_dtype_init(5)) THEN
-        mpi_dtypes(5) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-        is_dtype_init(5) = .FALSE.
-      ENDIF
+      CALL set_guard_dtype(5_isp, subsizes, sizes, starts)
   
       ! --- +Y
       CALL MPI_ISEND(field(-nxg, 0, -nzg), 1_isp, mpi_dtypes(5), INT(proc_y_min, isp),  &
@@ -363,10 +370,7 @@ MODULE field_boundary
   
     sz = subsizes(1) * subsizes(2) * subsizes(3)
   
-    IF (is_dtype_init(6)) THEN
-      mpi_dtypes(6) = create_3d_array_derived_type(basetype, subsizes, sizes, starts)
-      is_dtype_init(6) = .FALSE.
-    ENDIF
+    CALL set_guard_dtype(6_isp, subsizes, sizes, starts)
 
     ! --- +Z
     CALL MPI_ISEND(field(-nxg, -nyg, 0), 1_isp, mpi_dtypes(6), INT(proc_z_min, isp),  &
@@ -420,10 +424,7 @@ MODULE field_boundary
     subsizes(3) = sizes(3)
     nn =  nx_local
 
-    IF (is_dtype_init(7)) THEN
-      mpi_dtypes(7) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-      is_dtype_init(7) = .FALSE.
-    ENDIF
+    CALL set_guard_dtype(7_isp, subsizes, sizes, starts)
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
     ALLOCATE(temp(subsizes(1), subsizes(2), subsizes(3)))
@@ -448,10 +449,7 @@ MODULE field_boundary
       subsizes(3) = sizes(3)
       nn =  ny_local
 
-      IF (is_dtype_init(8)) THEN
-        mpi_dtypes(8) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-        is_dtype_init(8) = .FALSE.
-      ENDIF
+      CALL set_guard_dtype(8_isp, subsizes, sizes, starts)
 
       sz = subsizes(1) * subsizes(2) * subsizes(3)
       ALLOCATE(temp(subsizes(1), subsizes(2), subsizes(3)))
@@ -476,10 +474,7 @@ MODULE field_boundary
     subsizes(3) = nzg+1
     nn =  nz_local
 
-    IF (is_dtype_init(9)) THEN
-      mpi_dtypes(9) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-      is_dtype_init(9) = .FALSE.
-    ENDIF
+    CALL set_guard_dtype(9_isp, subsizes, sizes, starts)
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
     ALLOCATE(temp(subsizes(1), subsizes(2), subsizes(3)))
@@ -1151,10 +1146,7 @@ USE picsar_precision, ONLY: idp, isp, num
     subsizes(3) = sizes(3)
     nn = nx_local
 
-    IF (is_dtype_init(10)) THEN
-      mpi_dtypes(10) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-      is_dtype_init(10) = .FALSE.
-    ENDIF
+    CALL set_guard_dtype(10_isp, subsizes, sizes, starts)
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
     ALLOCATE(temp1(subsizes(1), subsizes(2), subsizes(3)), temp2(subsizes(1),         &
@@ -1183,10 +1175,7 @@ USE picsar_precision, ONLY: idp, isp, num
       subsizes(3) = sizes(3)
       nn = ny_local
   
-      IF (is_dtype_init(11)) THEN
-        mpi_dtypes(11) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-        is_dtype_init(11) = .FALSE.
-      ENDIF
+      CALL set_guard_dtype(11_isp, subsizes, sizes, starts)
   
       sz = subsizes(1) * subsizes(2) * subsizes(3)
       ALLOCATE(temp1(subsizes(1), subsizes(2), subsizes(3)), temp2(subsizes(1),         &
@@ -1215,10 +1204,7 @@ USE picsar_precision, ONLY: idp, isp, num
     subsizes(3) = nzg+1
     nn = nz_local
 
-    IF (is_dtype_init(12)) THEN
-      mpi_dtypes(12) = create_3d_array_derived_type(mpidbl, subsizes, sizes, starts)
-      is_dtype_init(12) = .FALSE.
-    ENDIF
+    CALL set_guard_dtype(12_isp, subsizes, sizes, starts)
 
     sz = subsizes(1) * subsizes(2) * subsizes(3)
     ALLOCATE(temp1(subsizes(1), subsizes(2), subsizes(3)), temp2(subsizes(1),         &
-- 
2.43.0


From 793dfd6b2bebf5b26e324f03057ea1bc7003edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:33 +0000
Subject: [PATCH 30/79] fix: do not initialise persistent receives on
 unallocated buffers

---
 src/boundary_conditions/field_boundaries.F90 | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/boundary_conditions/field_boundaries.F90 b/src/boundary_conditions/field_boundaries.F90
index 8c27b90..1d720e9 100755
--- a/src/boundary_conditions/field_boundaries.F90
+++ b/src/boundary_conditions/field_boundaries.F90
@@ -1285,11 +1285,6 @@ USE picsar_precision, ONLY: idp, isp, num
       call MPI_SEND_INIT(array(-nxg, -nyg, -nzg), 1_isp, subarrayx, proc_x_min_mpisp, &
       tag, comm, reqperjxx(3), errcode)
 
-      call MPI_RECV_INIT(temp1, sz, mpidbl, proc_x_min_mpisp, tag, comm,              &
-      reqperjxx(2), errcode)
-      call MPI_RECV_INIT(temp2, sz, mpidbl, proc_x_max_mpisp, tag, comm,              &
-      reqperjxx(4), errcode)
-
       ! Init Y
       subsizes(1) = sizes(1)
       subsizes(2) = nyg+1
-- 
2.43.0


From ce821110d4d3ea50246b99307b1ccaffc0154734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:44 +0000
Subject: [PATCH 31/79] fix: the multimode RZ E push builds with OpenMP
 (collapsed loops were not perfectly nested)

---
 src/field_solvers/Maxwell/yee_solver/yee.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/field_solvers/Maxwell/yee_solver/yee.F90 b/src/field_solvers/Maxwell/yee_solver/yee.F90
index 0b724ab..81c4a5f 100644
--- a/src/field_solvers/Maxwell/yee_solver/yee.F90
+++ b/src/field_solvers/Maxwell/yee_solver/yee.F90
@@ -525,7 +525,7 @@ subroutine pxrpush_emrz_evec_multimode( &
 
      ! advance Etheta
 #ifndef WARPX
-  !$OMP DO COLLAPSE(2)
+  !$OMP DO
 #endif
 !$acc parallel deviceptr(Et,Bz,Br,Jt)
 !$acc loop gang vector collapse(2)
@@ -571,7 +571,7 @@ subroutine pxrpush_emrz_evec_multimode( &
 
      ! advance Ez
 #ifndef WARPX
-  !$OMP DO COLLAPSE(2)
+  !$OMP DO
 #endif
 !$acc parallel deviceptr(Ez,Br,Bt,Jz)
 !$acc loop gang vector collapse(2)
-- 
2.43.0


From 36c8f8fcea15314340b160871c0fe04473627532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:58 +0000
Subject: [PATCH 32/79] fix: particle boundaries act on the upper sides of the
 box when they have no offset

---
 src/parallelization/mpi/mpi_routines.F90 | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parallelization/mpi/mpi_routines.F90 b/src/parallelization/mpi/mpi_routines.F90
index 03b704b..ceb412e 100644
--- a/src/parallelization/mpi/mpi_routines.F90
+++ b/src/parallelization/mpi/mpi_routines.F90
@@ -1614,7 +1614,9 @@ ENDIF
 ! -- Xmax
 IF  ((pbound_x_max .EQ. 3) .OR. (pbound_x_max .EQ. 1)) THEN
   xmax_part=xmax+offset_grid_part_x_max
-  IF ((xmax_part .GE. x_min_local) .AND. (xmax_part .LT. x_max_local)) THEN
+  ! Without offset the boundary is the upper end of the last subdomain
+  IF ((x_max_boundary .AND. (offset_grid_part_x_max .EQ. 0.0_num)) .OR.               &
+  ((xmax_part .GE. x_min_local) .AND. (xmax_part .LT. x_max_local))) THEN
     x_max_boundary_part= .TRUE.
     x_max_local_part = xmax_part
   ELSE
@@ -1644,7 +1646,9 @@ ENDIF
 ! -- Ymax
 IF  ((pbound_y_max .EQ. 3) .OR. (pbound_y_max .EQ. 1)) THEN
   ymax_part=ymax+offset_grid_part_y_max
-  IF ((ymax_part .GE. y_min_local) .AND. (ymax_part .LT. y_max_local)) THEN
+  ! Without offset the boundary is the upper end of the last subdomain
+  IF ((y_max_boundary .AND. (offset_grid_part_y_max .EQ. 0.0_num)) .OR.               &
+  ((ymax_part .GE. y_min_local) .AND. (ymax_part .LT. y_max_local))) THEN
     y_max_boundary_part= .TRUE.
     y_max_local_part = ymax_part
   ELSE
@@ -1674,7 +1678,9 @@ ENDIF
 ! -- zmax
 IF  ((pbound_z_max .EQ. 3) .OR. (pbound_z_max .EQ. 1)) THEN
   zmax_part=zmax+offset_grid_part_z_max
-  IF ((zmax_part .GE. z_min_local) .AND. (zmax_part .LT. z_max_local)) THEN
+  ! Without offset the boundary is the upper end of the last subdomain
+  IF ((z_max_boundary .AND. (offset_grid_part_z_max .EQ. 0.0_num)) .OR.               &
+  ((zmax_part .GE. z_min_local) .AND. (zmax_part .LT. z_max_local))) THEN
     z_max_boundary_part= .TRUE.
     z_max_local_part = zmax_part
   ELSE
-- 
2.43.0


From 4f023af81de015d3d84ac69d2aac935df67af540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 33/79] fix: reflecting particle boundaries in 2D

---
 src/boundary_conditions/particle_boundaries.F90 | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/boundary_conditions/particle_boundaries.F90 b/src/boundary_conditions/particle_boundaries.F90
index 7ef2eca..05f6abc 100644
--- a/src/boundary_conditions/particle_boundaries.F90
+++ b/src/boundary_conditions/particle_boundaries.F90
@@ -1893,6 +1893,10 @@ DO ispecies=1, nspecies!LOOP ON SPECIES
             CASE (1_idp)! absorbing
               CALL rm_particles_from_species_2d(currsp, ixtile, iztile, i)
               CYCLE
+            CASE (2_idp)! Reflecting
+              curr%part_x(i) = part_xyz + dx
+              curr%part_ux(i) = - curr%part_ux(i)
+              xbd=0
             CASE (3_idp)! Reinjecting (not thermal for now)
               curr%part_x(i)=2.0_num*xmin_part-curr%part_x(i)
               curr%part_ux(i)=0.
@@ -1918,6 +1922,10 @@ DO ispecies=1, nspecies!LOOP ON SPECIES
             CASE (1_idp)! absorbing
               CALL rm_particles_from_species_2d(currsp, ixtile, iztile, i)
               CYCLE
+            CASE (2_idp)! Reflecting
+              curr%part_x(i) = part_xyz - dx
+              curr%part_ux(i) = - curr%part_ux(i)
+              xbd=0
             CASE (3_idp)! Reinjecting (not thermal for now)
               curr%part_x(i)= 2.0_num*xmax_part-curr%part_x(i)
               curr%part_ux(i)=0.
@@ -1945,6 +1953,10 @@ DO ispecies=1, nspecies!LOOP ON SPECIES
             CASE (1_idp)! absorbing
               CALL rm_particles_from_species_2d(currsp, ixtile, iztile, i)
               CYCLE
+            CASE (2_idp)! Reflecting
+              curr%part_z(i) = part_xyz + dz
+              curr%part_uz(i) = - curr%part_uz(i)
+              zbd=0
             CASE (3_idp)! Reinjecting (not thermal for now)
               curr%part_z(i)= 2.0_num*zmin_part-curr%part_z(i)
               curr%part_ux(i)=0.
@@ -1973,6 +1985,10 @@ DO ispecies=1, nspecies!LOOP ON SPECIES
             CASE (1_idp)! absorbing
               CALL rm_particles_from_species_2d(currsp, ixtile, iztile, i)
               CYCLE
+            CASE (2_idp)! Reflecting
+              curr%part_z(i) = part_xyz - dz
+              curr%part_uz(i) = - curr%part_uz(i)
+              zbd=0
             CASE (3_idp)! Reinjecting (not thermal for now)
               curr%part_z(i)= 2.0_num*zmax_part-curr%part_z(i)
               curr%part_ux(i)=0.
-- 
2.43.0


From 91758f6f77e1eaed5ff5540fb2bb4877f3897faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 34/79] fix: count of the particles of a species after the
 combined tile and MPI exchange

---
 src/boundary_conditions/particle_boundaries.F90 | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/boundary_conditions/particle_boundaries.F90 b/src/boundary_conditions/particle_boundaries.F90
index 05f6abc..fed3028 100644
--- a/src/boundary_conditions/particle_boundaries.F90
+++ b/src/boundary_conditions/particle_boundaries.F90
@@ -2979,11 +2979,18 @@ IF (nrecv_buf_tot.gt.0) THEN
   ENDDO
   !!$OMP END PARALLEL DO
 
-  ! Update total number of particle species
-  curr%species_npart=curr%species_npart+nrecv_buf_tot
-
 ENDIF
 
+! Update total number of particle species (particles that left included)
+curr%species_npart=0
+DO iz=1, ntilez
+  DO iy=1, ntiley
+    DO ix=1, ntilex
+      curr%species_npart=curr%species_npart+curr%array_of_tiles(ix, iy, iz)%np_tile(1)
+    ENDDO
+  ENDDO
+ENDDO
+
 DEALLOCATE(recvbuf)
 
 ENDDO
-- 
2.43.0


From dea46886377d35b62697a98a0aaecfb245058450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:15 +0000
Subject: [PATCH 35/79] fix: the combined particle exchange applies the domain
 boundaries to particles still within their tile bounds

---
 src/boundary_conditions/particle_boundaries.F90 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/boundary_conditions/particle_boundaries.F90 b/src/boundary_conditions/particle_boundaries.F90
index fed3028..3376490 100644
--- a/src/boundary_conditions/particle_boundaries.F90
+++ b/src/boundary_conditions/particle_boundaries.F90
@@ -681,7 +681,7 @@ MODULE particle_boundary
                 gaminv=curr_tile%part_gaminv(i)
                 partpid=curr_tile%pid(i, 1:npid)
 
-                ! Case 1: if particle did not leave tile nothing to do
+                ! Case 1: if particle left neither tile nor MPI domain nothing to do
                 IF (((partx .GE. curr_tile%x_tile_min) .AND. (partx .LT.              &
                 curr_tile%x_tile_max)) .AND. ((partz .GE. curr_tile%z_tile_min) .AND. &
                 (partz .LT. curr_tile%z_tile_max))) CYCLE
@@ -2303,7 +2303,11 @@ DO is=1, nspecies
                 IF (((partx .GE. curr_tile%x_tile_min) .AND. (partx .LT.              &
                 curr_tile%x_tile_max)) .AND. ((party .GE. curr_tile%y_tile_min) .AND. &
                 (party .LT. curr_tile%y_tile_max)) .AND. ((partz .GE.                 &
-                curr_tile%z_tile_min) .AND. (partz .LT. curr_tile%z_tile_max))) CYCLE
+                curr_tile%z_tile_min) .AND. (partz .LT. curr_tile%z_tile_max)) .AND.  &
+                ((partx .GE. x_min_local_part) .AND. (partx .LT. x_max_local_part))   &
+                .AND. ((party .GE. y_min_local_part) .AND. (party .LT.                &
+                y_max_local_part)) .AND. ((partz .GE. z_min_local_part) .AND. (partz  &
+                .LT. z_max_local_part))) CYCLE
 
                 ! Case 2: if particle left MPI domain
                 IF (((partx .LT. x_min_local_part) .OR. (partx .GE.                   &
-- 
2.43.0


From 30812e0a52230a6f6b55a7771c633178125278b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:12 +0000
Subject: [PATCH 36/79] fix: reflecting particle boundaries in the combined
 tile and MPI exchange

---
 .../particle_boundaries.F90                   | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/boundary_conditions/particle_boundaries.F90 b/src/boundary_conditions/particle_boundaries.F90
index 3376490..66e500f 100644
--- a/src/boundary_conditions/particle_boundaries.F90
+++ b/src/boundary_conditions/particle_boundaries.F90
@@ -2328,6 +2328,12 @@ DO is=1, nspecies
                     CASE (1_idp)! absorbing
                       CALL rm_particle_at_tile(curr, ix, iy, iz, i)
                       CYCLE! If particle has been removed CYCLE to next particle
+                    CASE (2_idp)! Reflecting
+                      partx = partx + dx
+                      partux = - partux
+                      curr_tile%part_x(i) = partx
+                      curr_tile%part_ux(i) = partux
+                      xbd = 0
                     CASE (3_idp)! Reinjecting (not thermal for now)
                       curr_tile%part_x(i)=2*xmin_part-curr_tile%part_x(i)
                       curr_tile%part_ux(i)=0.
@@ -2361,6 +2367,12 @@ DO is=1, nspecies
                     CASE (1_idp)! absorbing
                       CALL rm_particle_at_tile(curr, ix, iy, iz, i)
                       CYCLE! If particle has been removed CYCLE to next particle
+                    CASE (2_idp)! Reflecting
+                      partx = partx - dx
+                      partux = - partux
+                      curr_tile%part_x(i) = partx
+                      curr_tile%part_ux(i) = partux
+                      xbd = 0
                     CASE (3_idp)! Reinjecting (not thermal for now)
                       curr_tile%part_x(i)=2*xmax_part-curr_tile%part_x(i)
                       curr_tile%part_ux(i)=0.
@@ -2395,6 +2407,12 @@ DO is=1, nspecies
                     CASE (1_idp)
                       CALL rm_particle_at_tile(curr, ix, iy, iz, i)
                       CYCLE! If particle has been removed CYCLE to next particle
+                    CASE (2_idp)! Reflecting
+                      party = party + dy
+                      partuy = - partuy
+                      curr_tile%part_y(i) = party
+                      curr_tile%part_uy(i) = partuy
+                      ybd = 0
                     CASE (3_idp)! Reinjecting (not thermal for now)
                       curr_tile%part_y(i)=2*ymin_part-curr_tile%part_y(i)
                       curr_tile%part_ux(i)=0.
@@ -2427,6 +2445,12 @@ DO is=1, nspecies
                     CASE (1_idp)! absorbing
                       CALL rm_particle_at_tile(curr, ix, iy, iz, i)
                       CYCLE! If particle has been removed CYCLE to next particle
+                    CASE (2_idp)! Reflecting
+                      party = party - dy
+                      partuy = - partuy
+                      curr_tile%part_y(i) = party
+                      curr_tile%part_uy(i) = partuy
+                      ybd = 0
                     CASE (3_idp)! Reinjecting (not thermal for now)
                       curr_tile%part_y(i)=2*ymax_part-curr_tile%part_y(i)
                       curr_tile%part_ux(i)=0.
@@ -2461,6 +2485,12 @@ DO is=1, nspecies
                     CASE (1_idp)! absorbing
                       CALL rm_particle_at_tile(curr, ix, iy, iz, i)
                       CYCLE! If particle has been removed CYCLE to next particle
+                    CASE (2_idp)! Reflecting
+                      partz = partz + dz
+                      partuz = - partuz
+                      curr_tile%part_z(i) = partz
+                      curr_tile%part_uz(i) = partuz
+                      zbd = 0
                     CASE (3_idp)! Reinjecting (not thermal for now)
                       curr_tile%part_z(i)=2*zmin_part-curr_tile%part_z(i)
                       curr_tile%part_ux(i)=0.
@@ -2494,6 +2524,12 @@ DO is=1, nspecies
                     CASE (1_idp)! absorbing
                       CALL rm_particle_at_tile(curr, ix, iy, iz, i)
                       CYCLE! If particle has been removed CYCLE to next particle
+                    CASE (2_idp)! Reflecting
+                      partz = partz - dz
+                      partuz = - partuz
+                      curr_tile%part_z(i) = partz
+                      curr_tile%part_uz(i) = partuz
+                      zbd = 0
                     CASE (3_idp)! Reinjecting (not thermal for now)
                       curr_tile%part_z(i)=2*zmax_part-curr_tile%part_z(i)
                       curr_tile%part_ux(i)=0.
@@ -2521,6 +2557,7 @@ DO is=1, nspecies
                 ENDIF
 
 
+                IF (ABS(xbd) + ABS(ybd) + ABS(zbd) .GT. 0) THEN
                 ! Particle has left processor, we put it in a local buffer
                 ! Boundary index 1-27
                 ib = 2+xbd + (1+ybd)*3 + (1+zbd)*9
@@ -2566,6 +2603,7 @@ DO is=1, nspecies
                 ! The particle is deleted
                 CALL rm_particle_at_tile(curr, ix, iy, iz, i)
                 CYCLE
+                ENDIF
 
               ENDIF!end if particle left MPI domain
 
-- 
2.43.0


From 21b98225db433d1c77aecccd5470485230dadaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 37/79] fix: particle boundaries set inside the box also act on
 inner tiles

---
 .../particle_boundaries.F90                   | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/boundary_conditions/particle_boundaries.F90 b/src/boundary_conditions/particle_boundaries.F90
index 66e500f..e38963f 100644
--- a/src/boundary_conditions/particle_boundaries.F90
+++ b/src/boundary_conditions/particle_boundaries.F90
@@ -1055,12 +1055,18 @@ INTEGER(isp) :: nsend_buf, nrecv_buf
 INTEGER(isp) :: dest, src
 LOGICAL(lp)  :: out_of_bounds
 INTEGER(idp) :: ispecies, i, ix, iy, iz
+LOGICAL(lp)  :: l_inner_bound
 INTEGER(idp) :: ixtile, iytile, iztile
 REAL(num) :: part_xyz, tdeb, tend
 TYPE(particle_species), POINTER :: currsp
 TYPE(particle_tile), POINTER :: curr
 
 nvar=npid+7
+! Particle boundaries inside the subdomain also concern its inner tiles
+l_inner_bound = (x_min_local_part .NE. x_min_local) .OR.                              &
+(x_max_local_part .NE. x_max_local) .OR. (y_min_local_part .NE. y_min_local) .OR.     &
+(y_max_local_part .NE. y_max_local) .OR. (z_min_local_part .NE. z_min_local) .OR.     &
+(z_max_local_part .NE. z_max_local)
 
 ! - LOOP ON SPECIES
 DO ispecies=1, nspecies!
@@ -1090,7 +1096,7 @@ DO ispecies=1, nspecies!
       DO ixtile=1, ntilex
         curr=>currsp%array_of_tiles(ixtile, iytile, iztile)
         ! If not subdomain border, nothing to do
-        IF (.NOT. curr%subdomain_bound) CYCLE
+        IF (.NOT. (curr%subdomain_bound .OR. l_inner_bound)) CYCLE
         ! Else, search for outbound particles
         ALLOCATE(mask(1:curr%np_tile(1)))
         mask=.TRUE.
@@ -1394,6 +1400,7 @@ INTEGER(isp) :: nvar! Simple implementation
 INTEGER(isp), DIMENSION(-1:1, -1:1, -1:1) :: nptoexch
 TYPE(buff_part), ALLOCATABLE, DIMENSION(:, :, :)    :: sendbuff, recvbuff
 LOGICAL(lp)  :: remove_from_sim
+LOGICAL(lp)  :: l_inner_bound
 INTEGER(isp) :: ibuff, nbuff
 INTEGER(isp) :: xbd, ybd, zbd
 INTEGER(isp) :: mpitag, count
@@ -1414,6 +1421,11 @@ ALLOCATE(requests(27*2))
 npart_recv=0
 npart_send=0
 nvar=7+npid
+! Particle boundaries inside the subdomain also concern its inner tiles
+l_inner_bound = (x_min_local_part .NE. x_min_local) .OR.                              &
+(x_max_local_part .NE. x_max_local) .OR. (y_min_local_part .NE. y_min_local) .OR.     &
+(y_max_local_part .NE. y_max_local) .OR. (z_min_local_part .NE. z_min_local) .OR.     &
+(z_max_local_part .NE. z_max_local)
 ! POST IRECV PARTICLES FROM ADJACENT DOMAINS
 ! ----- POST ISEND FOR THE NUMBER OF PARTICLES
 ireq=1
@@ -1452,7 +1464,7 @@ DO ispecies=1, nspecies!LOOP ON SPECIES
       DO ixtile=1, ntilex
         curr=>currsp%array_of_tiles(ixtile, iytile, iztile)
         ! If not subdomain border, nothing to do
-        IF (.NOT. curr%subdomain_bound) CYCLE
+        IF (.NOT. (curr%subdomain_bound .OR. l_inner_bound)) CYCLE
         ! Else, search for outbound particles
         part_xyz=0.
         ! Identify outbounds particles
@@ -1820,6 +1832,7 @@ INTEGER(idp), ALLOCATABLE, DIMENSION(:, :, :) :: npart_recv, npart_send
 INTEGER(isp) :: dest, src, ireq
 INTEGER(isp), DIMENSION(:), ALLOCATABLE :: requests
 LOGICAL(lp)  :: out_of_bounds
+LOGICAL(lp)  :: l_inner_bound
 INTEGER(idp) :: ispecies, i, ix, iz, npcurr, ipart
 INTEGER(idp) :: ixtile, iztile, ispec, nmax
 REAL(num) :: part_xyz
@@ -1834,6 +1847,11 @@ ALLOCATE(requests(27*2))
 npart_recv=0
 npart_send=0
 nvar=7+npid
+! Particle boundaries inside the subdomain also concern its inner tiles
+l_inner_bound = (x_min_local_part .NE. x_min_local) .OR.                              &
+(x_max_local_part .NE. x_max_local) .OR. (y_min_local_part .NE. y_min_local) .OR.     &
+(y_max_local_part .NE. y_max_local) .OR. (z_min_local_part .NE. z_min_local) .OR.     &
+(z_max_local_part .NE. z_max_local)
 
 ! POST IRECV PARTICLES FROM ADJACENT DOMAINS
 ! ----- POST ISEND FOR THE NUMBER OF PARTICLES
@@ -1858,7 +1876,7 @@ DO ispecies=1, nspecies
   DO iztile=1, ntilez!LOOP ON TILES
     DO ixtile=1, ntilex
       curr=>currsp%array_of_tiles(ixtile, 1, iztile)
-      IF (.NOT. curr%subdomain_bound) CYCLE
+      IF (.NOT. (curr%subdomain_bound .OR. l_inner_bound)) CYCLE
       nbuff=nbuff+ curr%np_tile(1)
     END DO
   END DO
@@ -1875,7 +1893,7 @@ DO ispecies=1, nspecies!LOOP ON SPECIES
     DO ixtile=1, ntilex
       curr=>currsp%array_of_tiles(ixtile, 1, iztile)
       ! If not subdomain border, nothing to do
-      IF (.NOT. curr%subdomain_bound) CYCLE
+      IF (.NOT. (curr%subdomain_bound .OR. l_inner_bound)) CYCLE
       ! Else, search for outbound particles
       part_xyz=0.
       ! Identify outbounds particles
-- 
2.43.0


From 4f8330bc0dca9724e5b41a3252b9bd82af39064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:05 +0000
Subject: [PATCH 38/79] fix: particle sorting moves all particle attributes,
 not only the weight

---
 src/housekeeping/sorting.F90 | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/housekeeping/sorting.F90 b/src/housekeeping/sorting.F90
index 76ba2fc..e95f7c9 100644
--- a/src/housekeeping/sorting.F90
+++ b/src/housekeeping/sorting.F90
@@ -107,7 +107,7 @@ MODULE sorting
     USE grid_tilemodule, ONLY: aofgrid_tiles, grid_tile
     USE mpi
     USE params, ONLY: it
-    USE particle_properties, ONLY: nspecies, wpid
+    USE particle_properties, ONLY: npid, nspecies
     USE particle_speciesmodule, ONLY: particle_species
     USE particle_tilemodule, ONLY: particle_tile
     USE particles, ONLY: species_parray
@@ -130,8 +130,8 @@ MODULE sorting
     REAL(num)                       :: sxmin, symin, szmin
 
     !$OMP PARALLEL DO COLLAPSE(3) SCHEDULE(runtime) DEFAULT(NONE) SHARED(ntilex,      &
-    !$OMP ntiley, ntilez, nspecies, species_parray, aofgrid_tiles, dx, dy, dz, it,    &
-    !$OMP rank, sorting_shiftx, sorting_shifty, sorting_shiftz, sorting_dx,c_dim,     &
+    !$OMP ntiley, ntilez, npid, nspecies, species_parray, aofgrid_tiles, dx, dy, dz,  &
+    !$OMP it, rank, sorting_shiftx, sorting_shifty, sorting_shiftz, sorting_dx,c_dim,     &
     !$OMP sorting_dy, sorting_dz, sorting_verbose) PRIVATE(ix, iy, iz, ispecies,      &
     !$OMP curr, curr_tile, currg, count, nxc, nyc, nzc, nxjg, nyjg, nzjg, isgathered, &
     !$OMP sxmin, symin, szmin)
@@ -189,8 +189,8 @@ MODULE sorting
                 CALL pxr_particle_bin_sorting(count, curr_tile%part_x,                &
                 curr_tile%part_y, curr_tile%part_z, curr_tile%part_ux,                &
                 curr_tile%part_uy, curr_tile%part_uz, curr_tile%part_gaminv,          &
-                curr_tile%pid, wpid, sxmin, symin, szmin, curr_tile%x_tile_max +      &
-                sorting_dx, curr_tile%y_tile_max + sorting_dy, curr_tile%z_tile_max + &
+                curr_tile%pid(1:count, 1:npid), npid, sxmin, symin, szmin,            &
+                curr_tile%x_tile_max + sorting_dx, curr_tile%y_tile_max + sorting_dy, curr_tile%z_tile_max + &
                 sorting_dz, sorting_dx, sorting_dy, sorting_dz)
               ELSE
                 sxmin = curr_tile%x_tile_min + sorting_shiftx
@@ -199,8 +199,8 @@ MODULE sorting
                 CALL pxr_particle_bin_sorting_2d(count, curr_tile%part_x,              &
                 curr_tile%part_z, curr_tile%part_ux,                                   &
                 curr_tile%part_uy, curr_tile%part_uz, curr_tile%part_gaminv,           &
-                curr_tile%pid, wpid, sxmin,  szmin, curr_tile%x_tile_max +             &
-                sorting_dx                         ,curr_tile%z_tile_max +             &
+                curr_tile%pid(1:count, 1:npid), npid, sxmin,  szmin,                   &
+                curr_tile%x_tile_max + sorting_dx, curr_tile%z_tile_max +              &
                 sorting_dz, sorting_dx, sorting_dz)
 
               ENDIF
@@ -238,13 +238,13 @@ END SUBROUTINE particle_sorting_sub
 !> @param[inout] ux, uy, uz particle momenta
 !> @param[inout] gam particle gamma factor
 !> @param[inout] pid particle id
-!> @param[inout] wpid particle weight
+!> @param[in] npid number of particle attributes in pid
 !> @param[in] xmin2, ymin2, zmin2 minimum point position on the local grid
 !> @param[in] xmax2, ymax2, zmax2 maximum point position on the local grid
 !> @param[in] dxf, dyf, dzf bin space steps
 !
 ! ______________________________________________________________________________________
-SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,    &
+SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, npid,    &
   xmin2, ymin2, zmin2, xmax2, ymax2, zmax2, dxf, dyf, dzf)
   USE picsar_precision, ONLY: idp, num
   implicit none
@@ -252,7 +252,7 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,
   integer(idp) :: k, ic, nbhc
   integer(idp) :: ix, iy, iz
   integer(idp) :: nx3, ny3, nz3
-  integer(idp) :: wpid
+  integer(idp) :: npid
   real(num)    :: dxi, dyi, dzi
   real(num)    :: dxf, dyf, dzf
   real(num)    :: x2, y2, z2
@@ -261,11 +261,11 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,
   real(num), dimension(np2), intent(inout)      :: xp, yp, zp
   real(num), dimension(np2), intent(inout)      :: ux, uy, uz
   real(num), dimension(np2), intent(inout)      :: gam
-  REAL(num), DIMENSION(np2, 1), intent(inout)    :: pid
+  REAL(num), DIMENSION(np2, npid), intent(inout) :: pid
   real(num), dimension(np2)                     :: xps, yps, zps
   real(num), dimension(np2)                     :: uxs, uys, uzs
   real(num), dimension(np2)                     :: gams
-  real(num), dimension(np2, wpid)                :: pids
+  real(num), dimension(np2, npid)                :: pids
   integer(idp), dimension(np2)                  :: hcnb! Cell number
   integer(idp), dimension(:), allocatable        :: piihc! Particle indexes in the grid
   integer(idp), dimension(:), allocatable        :: nbppc! Number of particles per cells
@@ -361,7 +361,7 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, wpid,
 END SUBROUTINE
 
 
-SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, wpid,    &
+SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, npid,    &
   xmin2,  zmin2, xmax2,  zmax2, dxf,  dzf)
   USE picsar_precision, ONLY: idp, num
   implicit none
@@ -369,7 +369,7 @@ SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, wpid,
   integer(idp) :: k, ic, nbhc
   integer(idp) :: ix,  iz
   integer(idp) :: nx3,  nz3
-  integer(idp) :: wpid
+  integer(idp) :: npid
   real(num)    :: dxi, dzi
   real(num)    :: dxf, dzf
   real(num)    :: x2, z2
@@ -378,11 +378,11 @@ SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, wpid,
   real(num), dimension(np2), intent(inout)      :: xp,  zp
   real(num), dimension(np2), intent(inout)      :: ux, uy, uz
   real(num), dimension(np2), intent(inout)      :: gam
-  REAL(num), DIMENSION(np2, 1), intent(inout)    :: pid
+  REAL(num), DIMENSION(np2, npid), intent(inout) :: pid
   real(num), dimension(np2)                     :: xps, zps
   real(num), dimension(np2)                     :: uxs, uys, uzs
   real(num), dimension(np2)                     :: gams
-  real(num), dimension(np2, wpid)                :: pids
+  real(num), dimension(np2, npid)                :: pids
   integer(idp), dimension(np2)                  :: hcnb! Cell number
   integer(idp), dimension(:), allocatable        :: piihc! Particle indexes in the grid
   integer(idp), dimension(:), allocatable        :: nbppc! Number of particles per cells
-- 
2.43.0


From 3b874bde431d1bc3a7f3ffbe5a8313eec1333ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:05 +0000
Subject: [PATCH 39/79] fix: particle sorting with a positive shift of the
 sorting grid wrote outside its bins

---
 src/housekeeping/sorting.F90 | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/housekeeping/sorting.F90 b/src/housekeeping/sorting.F90
index e95f7c9..7661594 100644
--- a/src/housekeeping/sorting.F90
+++ b/src/housekeeping/sorting.F90
@@ -296,9 +296,10 @@ SUBROUTINE pxr_particle_bin_sorting(np2, xp, yp, zp, ux, uy, uz, gam, pid, npid,
     y2 = (yp(ip)-ymin2)*dyi
     z2 = (zp(ip)-zmin2)*dzi
 
-    ix = floor(x2)
-    iy = floor(y2)
-    iz = floor(z2)
+    ! Particles below a shifted sorting grid go to its first bins
+    ix = max(floor(x2, idp), 0_idp)
+    iy = max(floor(y2, idp), 0_idp)
+    iz = max(floor(z2, idp), 0_idp)
 
     ! Bin id
     hcnb(ip) = iz*nx3*ny3 + iy*nx3 + ix+1
@@ -410,8 +411,9 @@ SUBROUTINE pxr_particle_bin_sorting_2d(np2, xp, zp, ux, uy, uz, gam, pid, npid,
     x2 = (xp(ip)-xmin2)*dxi
     z2 = (zp(ip)-zmin2)*dzi
 
-    ix = floor(x2)
-    iz = floor(z2)
+    ! Particles below a shifted sorting grid go to its first bins
+    ix = max(floor(x2, idp), 0_idp)
+    iz = max(floor(z2, idp), 0_idp)
 
     ! Bin id
     hcnb(ip) = iz*nx3 +  ix+1
-- 
2.43.0


From acd099c037067ea5754479b5e1d7d50644f00593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 40/79] fix: the E push uses the guard cells of the currents
 when they differ from those of the fields

---
 .../Maxwell/maxwell_solver_manager.F90        | 25 +++++++++++--------
 src/field_solvers/Maxwell/yee_solver/yee.F90  | 14 ++++++-----
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/field_solvers/Maxwell/maxwell_solver_manager.F90 b/src/field_solvers/Maxwell/maxwell_solver_manager.F90
index d3a9e83..4287a06 100644
--- a/src/field_solvers/Maxwell/maxwell_solver_manager.F90
+++ b/src/field_solvers/Maxwell/maxwell_solver_manager.F90
@@ -394,7 +394,7 @@ SUBROUTINE push_efield
   USE constants, ONLY: clight, mu0
   USE fields, ONLY: bx, by, bz, ex, ey, ez, jx, jy, jz, l_nodalgrid, norderx,        &
     nordery, norderz, nxguards, nxs, nyguards, nys, nzguards, nzs, xcoeffs, ycoeffs, &
-    zcoeffs
+    zcoeffs, nxjguards, nyjguards, nzjguards
   USE mpi
   USE params, ONLY: dt, it
   USE picsar_precision, ONLY: num
@@ -420,9 +420,12 @@ SUBROUTINE push_efield
          bx, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
          by, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
          bz, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
-         jx, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
-         jy, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
-         jz, (/-nxguards, -nyguards, -nzguards/), (/nx+nxguards, ny+nyguards, nz+nzguards/), &
+         jx, (/-nxjguards, -nyjguards, -nzjguards/),                         &
+         (/nx+nxjguards, ny+nyjguards, nz+nzjguards/), &
+         jy, (/-nxjguards, -nyjguards, -nzjguards/),                         &
+         (/nx+nxjguards, ny+nyjguards, nz+nzjguards/), &
+         jz, (/-nxjguards, -nyjguards, -nzjguards/),                         &
+         (/nx+nxjguards, ny+nyjguards, nz+nzjguards/), &
          clight**2*mu0*dt, clight**2*dt/dx , clight**2*dt/dy, clight**2*dt/dz)
 
   ELSE
@@ -430,7 +433,8 @@ SUBROUTINE push_efield
     CALL pxrpush_em3d_evec_norder(ex, ey, ez, bx, by, bz, jx, jy, jz,                 &
     clight**2*mu0*dt, clight**2*dt/dx*xcoeffs, clight**2*dt/dy*ycoeffs,               &
     clight**2*dt/dz*zcoeffs, nx, ny, nz, norderx, nordery, norderz, nxguards,         &
-    nyguards, nzguards, nxs, nys, nzs, l_nodalgrid)
+    nyguards, nzguards, nxs, nys, nzs, l_nodalgrid,                        &
+    nxjguards, nyjguards, nzjguards)
   ENDIF
 
   IF (it.ge.timestat_itstart) THEN
@@ -509,7 +513,7 @@ SUBROUTINE push_efield_2d
   USE constants, ONLY: clight, mu0
   USE fields, ONLY: bx, by, bz, ex, ey, ez, jx, jy, jz, l_nodalgrid, norderx,        &
     nordery, norderz, nxguards, nxs, nyguards, nzguards, nzs, xcoeffs, ycoeffs,      &
-    zcoeffs
+    zcoeffs, nxjguards, nyjguards, nzjguards
   USE mpi
   USE params, ONLY: dt, it
   USE picsar_precision, ONLY: idp, num
@@ -535,9 +539,9 @@ SUBROUTINE push_efield_2d
          bx(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
          by(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
          bz(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
-         jx(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
-         jy(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
-         jz(:,iy,:), (/-nxguards, -nzguards/), (/nx+nxguards, nz+nzguards/), &
+         jx(:,iy,:), (/-nxjguards, -nzjguards/), (/nx+nxjguards, nz+nzjguards/), &
+         jy(:,iy,:), (/-nxjguards, -nzjguards/), (/nx+nxjguards, nz+nzjguards/), &
+         jz(:,iy,:), (/-nxjguards, -nzjguards/), (/nx+nxjguards, nz+nzjguards/), &
          mdt, clight**2*dt/dx ,0., clight**2*dt/dz)
 
     ! Yee scheme arbitrary order
@@ -545,7 +549,8 @@ SUBROUTINE push_efield_2d
 
     CALL pxrpush_em2d_evec_norder(ex, ey, ez, bx, by, bz,jx,jy,jz,mdt, clight**2*dt/dx*xcoeffs,&
     clight**2*dt/dy*ycoeffs, clight**2*dt/dz*zcoeffs, nx, ny, nz, norderx, nordery,&
-    norderz, nxguards, nyguards, nzguards, nxs, 0_idp, nzs, l_nodalgrid)
+    norderz, nxguards, nyguards, nzguards, nxs, 0_idp, nzs, l_nodalgrid,   &
+    nxjguards, nyjguards, nzjguards)
 
   ENDIF
 
diff --git a/src/field_solvers/Maxwell/yee_solver/yee.F90 b/src/field_solvers/Maxwell/yee_solver/yee.F90
index 81c4a5f..9ed9ae6 100644
--- a/src/field_solvers/Maxwell/yee_solver/yee.F90
+++ b/src/field_solvers/Maxwell/yee_solver/yee.F90
@@ -45,15 +45,16 @@
 ! ________________________________________________________________________________________
 SUBROUTINE pxrpush_em3d_evec_norder(ex, ey, ez, bx, by, bz, jx, jy, jz, mudt, dtsdx,  &
   dtsdy, dtsdz, nx, ny, nz, norderx, nordery, norderz, nxguard, nyguard, nzguard, nxs,  &
-  nys, nzs, l_nodalgrid)
+  nys, nzs, l_nodalgrid, nxjguard, nyjguard, nzjguard)
   USE picsar_precision, ONLY: idp, lp, num
+  INTEGER(idp), INTENT(IN) :: nxjguard, nyjguard, nzjguard
 
   INTEGER(idp), INTENT(IN) :: nx, ny, nz, nxguard, nyguard, nzguard, nxs, nys, nzs
   INTEGER(idp), INTENT(IN) :: norderx, nordery, norderz
   REAL(num), INTENT(IN OUT), DIMENSION(-nxguard:nx+nxguard, -nyguard:ny+nyguard,      &
   -nzguard:nz+nzguard) :: ex, ey, ez, bx, by, bz
-  REAL(num), INTENT(IN), DIMENSION(-nxguard:nx+nxguard, -nyguard:ny+nyguard,          &
-  -nzguard:nz+nzguard) :: Jx, Jy, Jz
+  REAL(num), INTENT(IN), DIMENSION(-nxjguard:nx+nxjguard, -nyjguard:ny+nyjguard,      &
+  -nzjguard:nz+nzjguard) :: Jx, Jy, Jz
   REAL(num), INTENT(IN) :: mudt, dtsdx(norderx/2), dtsdy(nordery/2), dtsdz(norderz/2)
   INTEGER(idp) :: i, j, k, l, ist
   LOGICAL(lp)  :: l_nodalgrid
@@ -134,14 +135,15 @@ END SUBROUTINE pxrpush_em3d_evec_norder
 ! ________________________________________________________________________________________
 SUBROUTINE pxrpush_em2d_evec_norder(ex, ey, ez, bx, by, bz, jx, jy, jz, mudt, dtsdx,  &
   dtsdy, dtsdz, nx, ny, nz, norderx, nordery, norderz, nxguard, nyguard, nzguard, nxs,  &
-  nys, nzs, l_nodalgrid)
+  nys, nzs, l_nodalgrid, nxjguard, nyjguard, nzjguard)
   USE picsar_precision, ONLY: idp, lp, num
+  INTEGER(idp) :: nxjguard, nyjguard, nzjguard
   INTEGER(idp) :: nx, ny, nz, nxguard, nyguard, nzguard, nxs, nys, nzs, norderx,      &
   nordery, norderz
   REAL(num), INTENT(IN OUT), DIMENSION(-nxguard:nx+nxguard, -nyguard:ny+nyguard,      &
   -nzguard:nz+nzguard) :: ex, ey, ez, bx, by, bz
-  REAL(num), INTENT(IN), DIMENSION(-nxguard:nx+nxguard, -nyguard:ny+nyguard,          &
-  -nzguard:nz+nzguard) :: Jx, Jy, Jz
+  REAL(num), INTENT(IN), DIMENSION(-nxjguard:nx+nxjguard, -nyjguard:ny+nyjguard,      &
+  -nzjguard:nz+nzjguard) :: Jx, Jy, Jz
   REAL(num), INTENT(IN) :: mudt, dtsdx(norderx/2), dtsdy(nordery/2), dtsdz(norderz/2)
   INTEGER(idp) :: i, j, k, l, ist
   LOGICAL(lp), INTENT(IN)  :: l_nodalgrid
-- 
2.43.0


From 545ef7a1d10843f64802da7e34f3293e9394e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 41/79] fix: second-order 2D Esirkepov deposition read
 uninitialised shape factors

---
 .../current_deposition/esirkepov/esirkepov_2d.F90               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 6dcd8e9..173ab46 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -713,6 +713,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_2_2( jx, jx_nguard, jx_nvalid, jy,
   sdxim1 = 0.0_num
   sdzk   = 0.0_num
   sdzkm1 = 0.0_num
+  sx0 = 0.0_num
+  sz0 = 0.0_num
 !$acc parallel deviceptr(jx, jy, jz, xp, zp, uxp, uyp, uzp, w, gaminv)
 !$acc loop gang vector private(sx(-2:2), sz(-2:2), &
 !$acc&                         sx0(-2:2), sz0(-2:2), &
-- 
2.43.0


From 0c947c6c04f09ab015cbd066a151f96cef18f08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 42/79] fix: particles are gathered and pushed for all orders
 when the fused loop does not implement them

---
 src/particle_pushers/particle_pusher_manager_3d.F90 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/particle_pushers/particle_pusher_manager_3d.F90 b/src/particle_pushers/particle_pusher_manager_3d.F90
index f46563e..28eaa48 100644
--- a/src/particle_pushers/particle_pusher_manager_3d.F90
+++ b/src/particle_pushers/particle_pusher_manager_3d.F90
@@ -77,14 +77,16 @@ SUBROUTINE field_gathering_plus_particle_pusher
   CASE DEFAULT
 
     ! The field gathering and the particle pusher are performed together
-    IF (fg_p_pp_separated.eq.0) THEN
+    ! (implemented for equal orders from 1 to 3 and l_lower_order_in_v=.TRUE.)
+    IF ((fg_p_pp_separated.eq.0).AND.l_lower_order_in_v.AND.(nox.eq.noy).AND.     &
+    (noy.eq.noz).AND.(nox.ge.1).AND.(nox.le.3)) THEN
 
       CALL field_gathering_plus_particle_pusher_cacheblock_sub(ex_p, ey_p, ez_p, &
       bx_p, by_p, bz_p, nx, ny, nz, nxguards, nyguards, nzguards,                &
       nxjguards, nyjguards, nzjguards, nox, noy, noz, dx, dy, dz, dt,            &
       l_lower_order_in_v)
 
-    ELSE IF (fg_p_pp_separated.eq.1) THEN
+    ELSE IF (fg_p_pp_separated.le.1) THEN
 
       CALL field_gathering_plus_particle_pusher_sub(ex_p, ey_p, ez_p, bx_p, by_p, bz_p, &
       nx, ny,   nz, nxguards, nyguards, nzguards, nxjguards, nyjguards, nzjguards,      &
-- 
2.43.0


From ba768694e029d807aa54678b43f8a87863fb0453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:47 +0000
Subject: [PATCH 43/79] fix: third-order vectorised current deposition wrote
 the current of particles entering a tile into the wrong cell

---
 .../current_deposition/current_deposition_manager_3d.F90  | 4 ++--
 .../direct/direct_current_deposition_3d.F90               | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90 b/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
index 0f2b522..ea8408c 100644
--- a/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
+++ b/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
@@ -927,7 +927,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
         isdeposited=.FALSE.
 
         IF ((noxx.eq.3).and.(noyy.eq.3).and.(nozz.eq.3))  THEN
-          ncx=nxc+5; ncy=nyc+4; ncz=nzc+3
+          ncx=nxc+6; ncy=nyc+5; ncz=nzc+3
         ELSE IF ((noxx.eq.2).and.(noyy.eq.2).and.(nozz.eq.2)) THEN
           ! Originally was ncx=nxc+4; ncy=nyc+4; ncz=nzc+4
           ! But we need one more for the algorithm at order 2
@@ -1294,7 +1294,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           isdeposited=.FALSE.
 
           IF ((noxx.eq.3).and.(noyy.eq.3).and.(nozz.eq.3))  THEN
-            ncx=nxc+5; ncy=nyc+4; ncz=nzc+3
+            ncx=nxc+6; ncy=nyc+5; ncz=nzc+3
           ELSE IF ((noxx.eq.2).and.(noyy.eq.2).and.(nozz.eq.2)) THEN
             ! Originally was ncx=nxc+4; ncy=nyc+4; ncz=nzc+4
             ! But we need one more for the algorithm at order 2
diff --git a/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90 b/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
index 2ce98a7..d4d03a4 100644
--- a/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
+++ b/src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90
@@ -3507,8 +3507,8 @@ SUBROUTINE depose_jxjyjz_vecHV_vnr_3_3_3(jxcells, jycells, jzcells, np, ncells,
 
   nnx = ngridx
   nnxy = ngridx*ngridy
-  jorig=-2_idp
-  korig=-2_idp
+  jorig=-3_idp
+  korig=-3_idp
   lorig=-2_idp
   orig=jorig+nxguard+nnx*(korig+nyguard)+(lorig+nzguard)*nnxy
   ngx=(ngridx-ncx)
@@ -4077,8 +4077,8 @@ SUBROUTINE current_reduction_3_3_3(jx, jy, jz, jxcells, jycells, jzcells, ncells
 
   moff = (/-nnxy, 0_isp, nnxy, 2_isp*nnxy, nnx-nnxy, nnx, nnx+nnxy, nnx+2_isp*nnxy/)
 
-  jorig=-2_isp
-  korig=-2_isp
+  jorig=-3_isp
+  korig=-3_isp
   lorig=-2_isp
 
   orig=jorig+nxguard+nnx*(korig+nyguard)+(lorig+nzguard)*nnxy
-- 
2.43.0


From 970dc034abee252e0244430423180875580d7105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 44/79] fix: gather routines received default logicals in place
 of 8-byte ones

---
 src/particle_pushers/particle_pusher_manager_2d.F90 | 2 +-
 src/particle_pushers/particle_pusher_manager_3d.F90 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particle_pushers/particle_pusher_manager_2d.F90 b/src/particle_pushers/particle_pusher_manager_2d.F90
index 2c84958..2124a0a 100644
--- a/src/particle_pushers/particle_pusher_manager_2d.F90
+++ b/src/particle_pushers/particle_pusher_manager_2d.F90
@@ -203,7 +203,7 @@ SUBROUTINE field_gathering_plus_particle_pusher_sub_2d(exg, eyg, ezg, bxg, byg,
             curr_tile%z_grid_tile_min, dxx, dyy, dzz, curr_tile%nx_cells_tile,        &
             curr_tile%ny_cells_tile, curr_tile%nz_cells_tile, nxjg, 0_idp, nzjg, noxx,&
             noyy, nozz, extile, eytile, eztile, bxtile,                               &
-            bytile, bztile , .FALSE., .TRUE., LVEC_fieldgathe,                        &
+            bytile, bztile , .FALSE._lp, .TRUE._lp, LVEC_fieldgathe,                  &
             fieldgathe)
           END IF
 
diff --git a/src/particle_pushers/particle_pusher_manager_3d.F90 b/src/particle_pushers/particle_pusher_manager_3d.F90
index 28eaa48..5c47927 100644
--- a/src/particle_pushers/particle_pusher_manager_3d.F90
+++ b/src/particle_pushers/particle_pusher_manager_3d.F90
@@ -303,7 +303,7 @@ SUBROUTINE field_gathering_plus_particle_pusher_sub(exg, eyg, ezg, bxg, byg, bzg
               curr_tile%nx_cells_tile, curr_tile%ny_cells_tile,                       &
               curr_tile%nz_cells_tile, nxjg, nyjg, nzjg, noxx, noyy, nozz,            &
               extile, eytile, eztile, bxtile, bytile,                                 &
-              bztile, .FALSE., l_lower_order_in_v_in, LVEC_fieldgathe,                &
+              bztile, .FALSE._lp, l_lower_order_in_v_in, LVEC_fieldgathe,             &
               fieldgathe)
 
             CASE DEFAULT! 3D CASE
@@ -317,7 +317,7 @@ SUBROUTINE field_gathering_plus_particle_pusher_sub(exg, eyg, ezg, bxg, byg, bzg
               curr_tile%nx_cells_tile, curr_tile%ny_cells_tile,                       &
               curr_tile%nz_cells_tile, nxjg, nyjg, nzjg, noxx, noyy, nozz,            &
               extile, eytile, eztile, bxtile, bytile,                                 &
-              bztile , .FALSE., l_lower_order_in_v_in, lvec_fieldgathe,               &
+              bztile , .FALSE._lp, l_lower_order_in_v_in, lvec_fieldgathe,            &
               fieldgathe)
             END SELECT
 
-- 
2.43.0


From a859cb5834f2e5ed065819a8c64bb9fb78f04cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 45/79] fix: the count of particles to send was summed by
 several threads without its critical section

The sentinel was misspelt (!OMP), so the section did not exist.
---
 src/boundary_conditions/particle_boundaries.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/boundary_conditions/particle_boundaries.F90 b/src/boundary_conditions/particle_boundaries.F90
index e38963f..38406f8 100644
--- a/src/boundary_conditions/particle_boundaries.F90
+++ b/src/boundary_conditions/particle_boundaries.F90
@@ -2651,10 +2651,10 @@ DO is=1, nspecies
             ! to not be perfectly synchronized
             ! In this part appears to have negative consequences on the parallelization,             ! this process can be performed in sequencial outside the species loop
             IF (curr_tile%subdomain_bound) THEN
-              !OMP CRITICAL
+              !$OMP CRITICAL
               mpi_npart(1:27, is) = mpi_npart(1:27, is) + tilebuf(ix, iy, iz,         &
               is)%npart(1:27)
-              !OMP END CRITICAL
+              !$OMP END CRITICAL
 
             ENDIF
 
-- 
2.43.0


From 0f84f6b6a9b3f5078738b79faf1642964d03f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 46/79] fix: neighbouring tiles added their guard cells to the
 global grid concurrently

Guard cells of tiles overlap (two tiles on both sides of a third one, and the
y/z neighbours in the first stage), so the read-modify-write of the global
array lost contributions when several threads ran.
---
 .../charge_deposition_manager.F90             | 30 +++++++++++++++++++
 .../current_deposition_manager_2d.F90         |  6 ++++
 .../current_deposition_manager_3d.F90         | 30 +++++++++++++++++++
 3 files changed, 66 insertions(+)

diff --git a/src/particle_deposition/charge_deposition/charge_deposition_manager.F90 b/src/particle_deposition/charge_deposition/charge_deposition_manager.F90
index 434413a..03934b1 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_manager.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_manager.F90
@@ -387,6 +387,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_n(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- X
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
@@ -395,6 +396,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_n(rhog, nxx, nyy, nzz, nxjguard,
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         ENDIF
       END DO
     END DO
@@ -430,12 +432,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_n(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- Y
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         END IF
       END DO
     END DO
@@ -471,12 +475,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_n(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- Z
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         END IF
       END DO
     END DO
@@ -644,6 +650,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d(func_order, rhog, nxx, nyy, nzz,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- X
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
@@ -652,6 +659,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d(func_order, rhog, nxx, nyy, nzz,
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         ENDIF
       END DO
     END DO
@@ -687,12 +695,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d(func_order, rhog, nxx, nyy, nzz,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- Y
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         END IF
       END DO
     END DO
@@ -728,12 +738,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d(func_order, rhog, nxx, nyy, nzz,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- Z
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         END IF
       END DO
     END DO
@@ -884,6 +896,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_2d(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- X
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
@@ -892,6 +905,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_2d(rhog, nxx, nyy, nzz, nxjguard,
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         ENDIF
       END DO
     END DO
@@ -927,12 +941,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_2d(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- Y
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         END IF
       END DO
     END DO
@@ -968,12 +984,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_2d(rhog, nxx, nyy, nzz, nxjguard,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- Z
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         END IF
       END DO
     END DO
@@ -1139,6 +1157,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_scalar(rhog, nxx, nyy, nzz, nxjgu
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- X
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
@@ -1147,6 +1166,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_scalar(rhog, nxx, nyy, nzz, nxjgu
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         ENDIF
       END DO
     END DO
@@ -1182,12 +1202,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_scalar(rhog, nxx, nyy, nzz, nxjgu
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- Y
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         END IF
       END DO
     END DO
@@ -1223,12 +1245,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_scalar(rhog, nxx, nyy, nzz, nxjgu
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- Z
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         END IF
       END DO
     END DO
@@ -1394,6 +1418,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_vecto(rhog, nxx, nyy, nzz, nxjgua
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- X
           rhog(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = rhog(jminc:jmin-1,           &
@@ -1402,6 +1427,7 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_vecto(rhog, nxx, nyy, nzz, nxjgua
           rhog(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = rhog(jmax+1:jmaxc,           &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr1(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,    &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         ENDIF
       END DO
     END DO
@@ -1437,12 +1463,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_vecto(rhog, nxx, nyy, nzz, nxjgua
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- Y
           rhog(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = rhog(jmin:jmax, kminc:kmin-1,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           rhog(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = rhog(jmin:jmax, kmax+1:kmaxc,  &
           lminc:lmaxc)+ currg%arr1(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         END IF
       END DO
     END DO
@@ -1478,12 +1506,14 @@ SUBROUTINE pxrdepose_rho_on_grid_sub_openmp_3d_vecto(rhog, nxx, nyy, nzz, nxjgua
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_charge)
           ! --- RHO
           ! - FACES +/- Z
           rhog(jmin:jmax, kmin:kmax, lminc:lmin-1) = rhog(jmin:jmax, kmin:kmax,       &
           lminc:lmin-1)+ currg%arr1(0:nxc, 0:nyc, -nzjg:-1)
           rhog(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = rhog(jmin:jmax, kmin:kmax,       &
           lmax+1:lmaxc)+ currg%arr1(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_charge)
         END IF
       END DO
     END DO
diff --git a/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90 b/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
index a7f951d..79c4c60 100644
--- a/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
+++ b/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
@@ -609,6 +609,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -633,6 +634,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         ENDIF
       END DO
     END DO
@@ -668,6 +670,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -686,6 +689,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
@@ -721,6 +725,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -739,6 +744,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov2d_sub_openmp(curr_depo_su
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
diff --git a/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90 b/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
index ea8408c..df86fb6 100644
--- a/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
+++ b/src/particle_deposition/current_deposition/current_deposition_manager_3d.F90
@@ -651,6 +651,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -675,6 +676,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         ENDIF
       END DO
     END DO
@@ -710,6 +712,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -728,6 +731,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
@@ -763,6 +767,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -781,6 +786,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp(func_order, jx
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
@@ -1013,6 +1019,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -1037,6 +1044,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         ENDIF
       END DO
     END DO
@@ -1072,6 +1080,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -1090,6 +1099,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
@@ -1125,6 +1135,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -1143,6 +1154,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v2( curr_depo_
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
@@ -1377,6 +1389,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -1401,6 +1414,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         ENDIF
       END DO
     END DO
@@ -1436,6 +1450,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -1454,6 +1469,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
@@ -1489,6 +1505,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -1507,6 +1524,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_classical_sub_openmp_v3( curr_depo_
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
@@ -1673,6 +1691,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -1697,6 +1716,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         ENDIF
       END DO
     END DO
@@ -1732,6 +1752,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -1750,6 +1771,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
@@ -1785,6 +1807,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -1803,6 +1826,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_esirkepov_sub_openmp(func_order, jx
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
@@ -1963,6 +1987,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- X
           jxg(jminc:jmin-1, kminc:kmaxc, lminc:lmaxc) = jxg(jminc:jmin-1,             &
@@ -1987,6 +2012,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           jzg(jmax+1:jmaxc, kminc:kmaxc, lminc:lmaxc) = jzg(jmax+1:jmaxc,             &
           kminc:kmaxc, lminc:lmaxc)+ currg%arr3(nxc+1:nxc+nxjg, -nyjg:nyc+nyjg,     &
           -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         ENDIF
       END DO
     END DO
@@ -2022,6 +2048,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Y
           jxg(jmin:jmax, kminc:kmin-1, lminc:lmaxc) = jxg(jmin:jmax, kminc:kmin-1,    &
@@ -2040,6 +2067,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           lminc:lmaxc)+ currg%arr3(0:nxc, -nyjg:-1, -nzjg:nzc+nzjg)
           jzg(jmin:jmax, kmax+1:kmaxc, lminc:lmaxc) = jzg(jmin:jmax, kmax+1:kmaxc,    &
           lminc:lmaxc)+ currg%arr3(0:nxc, nyc+1:nyc+nyjg, -nzjg:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
@@ -2075,6 +2103,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           nyc=curr_tile%ny_cells_tile
           nzc=curr_tile%nz_cells_tile
           ! ----- Add guardcells in adjacent tiles
+          !$OMP CRITICAL (pxr_add_tile_guard_currents)
           ! --- JX
           ! - FACES +/- Z
           jxg(jmin:jmax, kmin:kmax, lminc:lmin-1) = jxg(jmin:jmax, kmin:kmax,         &
@@ -2093,6 +2122,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_sub_openmp(jxg, jyg, jzg, nxx, nyy,
           lminc:lmin-1)+ currg%arr3(0:nxc, 0:nyc, -nzjg:-1)
           jzg(jmin:jmax, kmin:kmax, lmax+1:lmaxc) = jzg(jmin:jmax, kmin:kmax,         &
           lmax+1:lmaxc)+ currg%arr3(0:nxc, 0:nyc, nzc+1:nzc+nzjg)
+          !$OMP END CRITICAL (pxr_add_tile_guard_currents)
         END IF
       END DO
     END DO
-- 
2.43.0


From 0782ef48b6e296971f4e4e7a9322a9155282ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 47/79] fix: a group of particles larger than twice the
 capacity of a tile was written past the tile arrays

---
 src/parallelization/tiling/tiling.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index f291bbd..2900afc 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -487,7 +487,8 @@ MODULE tiling
     IF (npnew .GT. nmax) THEN
       ! Resize particle tile arrays if tile is full
       currsp%are_tiles_reallocated(ixt, iyt, izt)=1
-      CALL resize_particle_arrays(curr, nmax, NINT(resize_factor*nmax+1, idp))
+      CALL resize_particle_arrays(curr, nmax,                              &
+      MAX(NINT(resize_factor*nmax+1, idp), npnew))
     ENDIF
     ! Finally, add particle to tile
     curr%np_tile(1)=npnew
-- 
2.43.0


From 872d812975348e1b8197ea11a949a4d11b637918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 48/79] fix: the divergence of E was computed once and written
 unchanged at every later output

---
 src/diags/diags.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 5728c59..f2afda6 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -79,6 +79,8 @@ MODULE diagnostics
 #if defined(DEBUG)
     WRITE(0, *) "Calc_diags: start"
 #endif
+    ! - The electric field has changed since the last diagnostics
+    dive_computed = .FALSE.
     IF (l_plasma) THEN
       ! - Computes total charge density
       CALL pxrdepose_rho_on_grid()
-- 
2.43.0


From 390918745f5f980a57850e9227ed29f113e34774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 49/79] fix: the divergence of B was not computed on the first
 plane of each subdomain

---
 src/diags/diags.F90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index f2afda6..3884be4 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -185,9 +185,9 @@ MODULE diagnostics
     invdz=1.0_num/dz
     !$OMP PARALLEL DEFAULT(SHARED) PRIVATE(l, j, k)
     !$OMP DO COLLAPSE(3)
-    DO l = 1, nz
-      DO k = 1, ny
-        DO j = 1, nx
+    DO l = 0, MIN(nz, nz+nzguard-1)
+      DO k = 0, MIN(ny, ny+nyguard-1)
+        DO j = 0, MIN(nx, nx+nxguard-1)
           divbb(j, k, l) = invdx*(bbx(j+1, k, l)-bbx(j, k, l))+ invdy*(bby(j, k+1,& 
           l)-bby(j, k, l))+invdz*(bbz(j, k, l+1)-bbz(j, k, l))
         END DO
-- 
2.43.0


From 2c601055f3fb2332076e8a0586c9af500bfd15d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:29 +0000
Subject: [PATCH 50/79] fix: the total kinetic energy started from an
 uninitialised sum

---
 src/diags/diags.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 3884be4..49b1f18 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -962,6 +962,8 @@ MODULE diagnostics
     INTEGER(idp), parameter :: LVEC2=16
     REAL(num) :: partgam
 
+    total_kinetic_energy_loc = 0.0_num
+
     ! current species
     curr=>species_parray(ispecies)
 
-- 
2.43.0


From a77796310eba555490f4ab62822f24d5813d82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:29 +0000
Subject: [PATCH 51/79] fix: temporal diagnostics were mixed up unless the
 first ones of the list were all active

---
 src/diags/diags.F90   | 66 ++++++++++++++++---------------------------
 src/ios/simple_io.F90 | 56 +++++++++++++++---------------------
 2 files changed, 48 insertions(+), 74 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 49b1f18..0c53371 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -261,7 +261,7 @@ MODULE diagnostics
 
     IMPLICIT NONE
 
-    INTEGER :: i
+    INTEGER :: i, ifile
 
     IF (temdiag_frequency.gt.0) THEN
 
@@ -371,48 +371,32 @@ MODULE diagnostics
       end if
 
       ! Each mpi task will write in a given file according to their rank
+      ! If there is not enough proc, only the first one deals with it
       CALL MPI_BARRIER(comm,errcode)
-      IF (nproc.ge.temdiag_nb) then
-        IF ((rank.ge.0).and.(rank.lt.temdiag_nb)) then
-          if (temdiag_act_list(rank+1).gt.0) then
-            write(0, '(" Rank ", I3, ", creation of the file ", A30)') rank,          &
-            "./RESULTS/"//trim(adjustl(temdiag_name_list(rank+1)))
-            if (temdiag_format.eq.1) then
-              open(unit=42,                                                           &
-              file="./RESULTS/"//trim(adjustl(temdiag_name_list(rank+1))),            &
-              ACTION='write', STATUS='new')
-              write(42, *) temdiag_nb_values(rank+1), temdiag_frequency*dt
-            else
-              open(unit=42,                                                           &
-              file="./RESULTS/"//trim(adjustl(temdiag_name_list(rank+1))),            &
-              FORM="unformatted", ACCESS='stream', STATUS='new')
-              write(42) temdiag_nb_values(rank+1), temdiag_frequency*dt
-            end if
-
-          end if
+      ifile = 0
+      DO i = 1, SIZE(temdiag_name_list)
+        IF (temdiag_act_list(i) .le. 0) CYCLE
+        ! Position of this diagnostic among the active ones
+        ifile = ifile + 1
+        IF (nproc.ge.temdiag_nb) then
+          IF (rank.ne.ifile-1) CYCLE
+        ELSE
+          IF (rank.ne.0) CYCLE
         ENDIF
-        ! If there is not enough proc, only the first one deals with it
-      else
-        IF (rank.eq.0) then
-          do i= 1, temdiag_nb
-            if (temdiag_act_list(i) .gt.0) then
-              write(0, '(" Creation of the file ", A30)')                             &
-              "./RESULTS/"//trim(adjustl(temdiag_name_list(i)))
-              IF (temdiag_format.eq.1) THEN
-                open(unit=42+i,                                                       &
-                file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),               &
-                ACTION='write', STATUS='new')
-                write(42+i, *) temdiag_nb_values(i), temdiag_frequency*dt
-              else
-                open(unit=42+i,                                                       &
-                file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),               &
-                FORM="unformatted", ACCESS='stream', STATUS='NEW')
-                write(42+i) temdiag_nb_values(i), temdiag_frequency*dt
-              end if
-            end if
-          end do
-        end if
-      end if
+        write(0, '(" Rank ", I3, ", creation of the file ", A30)') rank,              &
+        "./RESULTS/"//trim(adjustl(temdiag_name_list(i)))
+        IF (temdiag_format.eq.1) THEN
+          open(unit=42+i,                                                             &
+          file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),                     &
+          ACTION='write', STATUS='new')
+          write(42+i, *) temdiag_nb_values(i), temdiag_frequency*dt
+        ELSE
+          open(unit=42+i,                                                             &
+          file="./RESULTS/"//trim(adjustl(temdiag_name_list(i))),                     &
+          FORM="unformatted", ACCESS='stream', STATUS='new')
+          write(42+i) temdiag_nb_values(i), temdiag_frequency*dt
+        ENDIF
+      END DO
 
       CALL MPI_BARRIER(comm, errcode)
 
diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 2b8e70b..2cefeb1 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -240,8 +240,8 @@ SUBROUTINE output_temporal_diagnostics
   USE mpi
   USE mpi_type_constants, ONLY: mpidbl
   USE output_data, ONLY: dive_computed, temdiag_act_list, temdiag_format,            &
-    temdiag_frequency, temdiag_i_list, temdiag_nb, temdiag_nb_values,                &
-    temdiag_totvalues
+    temdiag_frequency, temdiag_i_list, temdiag_name_list, temdiag_nb,                &
+    temdiag_nb_values, temdiag_totvalues
   USE params, ONLY: it
   USE particle_properties, ONLY: nspecies
   USE picsar_precision, ONLY: idp, isp, num
@@ -252,7 +252,7 @@ SUBROUTINE output_temporal_diagnostics
 
   REAL(num), dimension(:), allocatable :: local_values, global_values
   INTEGER(idp) :: ispecies
-  INTEGER(isp) :: i
+  INTEGER(isp) :: i, ifile
   REAL(num) :: tmptime
 
 #if defined(DEBUG)
@@ -412,37 +412,27 @@ SUBROUTINE output_temporal_diagnostics
 
     ! Output
     ! Each mpi task will write in a given file according to their rank
-    IF (nproc.ge.temdiag_nb) then
-      IF ((rank.ge.0).and.(rank.le.temdiag_nb)) then
-
-        ! Ascii format
-        IF (temdiag_format.eq.1) then
-          write(42, *)                                                                &
-          global_values(temdiag_i_list(rank+1):temdiag_i_list(rank+1)+temdiag_nb_values(rank+1)-1)
-
-
-          ! Binary format
-        ELSE
-          write(42)                                                                   &
-          global_values(temdiag_i_list(rank+1):temdiag_i_list(rank+1)+temdiag_nb_values(rank+1)-1)
-
-        ENDIF
-
-      end if
-    else
-      if (rank.eq.0) then
-        DO i=1, temdiag_nb
-          IF (temdiag_format.eq.1) then
-            write(42+i, *)                                                            &
-            global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
-            ! Binary format
-          else
-            write(42+i)                                                               &
-            global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
-          end if
-        ENDDO
+    ! If there is not enough proc, only the first one deals with it
+    ifile = 0
+    DO i=1, SIZE(temdiag_name_list)
+      IF (temdiag_act_list(i) .le. 0) CYCLE
+      ! Position of this diagnostic among the active ones
+      ifile = ifile + 1
+      IF (nproc.ge.temdiag_nb) then
+        IF (rank.ne.ifile-1) CYCLE
+      ELSE
+        IF (rank.ne.0) CYCLE
       ENDIF
-    ENDIF
+      ! Ascii format
+      IF (temdiag_format.eq.1) then
+        write(42+i, *)                                                                &
+        global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
+        ! Binary format
+      ELSE
+        write(42+i)                                                                   &
+        global_values(temdiag_i_list(i):temdiag_i_list(i)+temdiag_nb_values(i)-1)
+      ENDIF
+    ENDDO
 
     localtimes(9) = localtimes(9) + (MPI_WTIME() - tmptime)
 
-- 
2.43.0


From c02fedfa9cb0db35ddc9baccb327c39f5e206ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:29 +0000
Subject: [PATCH 52/79] fix: temporal diagnostics of the 2D fields summed the
 wrong plane

---
 src/ios/simple_io.F90 | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 2cefeb1..2fe4bad 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -282,7 +282,7 @@ SUBROUTINE output_temporal_diagnostics
       nzguards, local_values(temdiag_i_list(2)))
       local_values(temdiag_i_list(2)) = local_values(temdiag_i_list(2))*eps0
       ELSE IF(c_dim==2) THEN 
-          CALL get_loc_field_energy_2d(ex, nx, nz, dx, dz, nxguards,nzguards,         &
+          CALL get_loc_field_energy_2d(ex(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,         &
          local_values(temdiag_i_list(2)))
          local_values(temdiag_i_list(2)) = local_values(temdiag_i_list(2))*eps0
       ENDIF
@@ -295,7 +295,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(3)))
         local_values(temdiag_i_list(3)) = local_values(temdiag_i_list(3))*eps0
       ELSE IF(c_dim==2) THEN 
-          CALL get_loc_field_energy_2d(ey, nx, nz, dx, dz, nxguards,nzguards,         &
+          CALL get_loc_field_energy_2d(ey(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,         &
          local_values(temdiag_i_list(3)))
          local_values(temdiag_i_list(3)) = local_values(temdiag_i_list(3))*eps0
       ENDIF
@@ -310,7 +310,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(4)))
         local_values(temdiag_i_list(4)) = local_values(temdiag_i_list(4))*eps0
       ELSE IF(c_dim==2) THEN
-        CALL get_loc_field_energy_2d(ez, nx, nz, dx, dz, nxguards,nzguards,           &
+        CALL get_loc_field_energy_2d(ez(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,           &
         local_values(temdiag_i_list(4)))
         local_values(temdiag_i_list(4)) = local_values(temdiag_i_list(4))*eps0
       ENDIF
@@ -325,7 +325,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(5)))
         local_values(temdiag_i_list(5)) = local_values(temdiag_i_list(5))*imu0
       ELSE IF(c_dim==2) THEN
-         CALL get_loc_field_energy_2d(bx, nx, nz, dx, dz, nxguards,nzguards,          &
+         CALL get_loc_field_energy_2d(bx(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,          &
          local_values(temdiag_i_list(5)))
          local_values(temdiag_i_list(5)) = local_values(temdiag_i_list(5))*imu0
       ENDIF
@@ -339,7 +339,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(6)))
         local_values(temdiag_i_list(6)) = local_values(temdiag_i_list(6))*imu0
       ELSE IF(c_dim==2) THEN
-         CALL get_loc_field_energy_2d(by, nx, nz, dx, dz, nxguards,nzguards,          &
+         CALL get_loc_field_energy_2d(by(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,          &
          local_values(temdiag_i_list(6)))
          local_values(temdiag_i_list(6)) = local_values(temdiag_i_list(6))*imu0
       ENDIF
@@ -353,7 +353,7 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, local_values(temdiag_i_list(7)))
         local_values(temdiag_i_list(7)) = local_values(temdiag_i_list(7))*imu0
       ELSE IF(c_dim==2) THEN
-         CALL get_loc_field_energy_2d(bz, nx, nz, dx, dz, nxguards,nzguards,            &
+         CALL get_loc_field_energy_2d(bz(:, 0, :), nx, nz, dx, dz, nxguards,nzguards,            &
          local_values(temdiag_i_list(7)))
          local_values(temdiag_i_list(7)) = local_values(temdiag_i_list(7))*imu0
       ENDIF
@@ -368,15 +368,24 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, dx, dy, dz)
         divE_computed = .true.
       ENDIF
+      IF(c_dim == 2) THEN
+        local_values(temdiag_i_list(8)) =                                             &
+        SUM((dive(1:nx, 0, 1:nz)*eps0 - rho(1:nx, 0, 1:nz))**2)
+      ELSE
       CALL get_loc_norm_divErho(dive, rho, nx, ny, nz, nxguards, nyguards, nzguards,  &
       local_values(temdiag_i_list(8)))
+      ENDIF
       local_values(temdiag_i_list(8)) = local_values(temdiag_i_list(8))
     end if
 
     ! ||rho||
     if (temdiag_act_list(9).gt.0) then
+      IF(c_dim == 2) THEN
+        local_values(temdiag_i_list(9)) = SUM(rho(1:nx, 0, 1:nz)**2)
+      ELSE
       CALL get_loc_norm_2(rho, nx, ny, nz, nxguards, nyguards, nzguards,              &
       local_values(temdiag_i_list(9)))
+      ENDIF
       local_values(temdiag_i_list(9)) = local_values(temdiag_i_list(9))
     end if
 
@@ -388,8 +397,12 @@ SUBROUTINE output_temporal_diagnostics
         nzguards, dx, dy, dz)
         divE_computed = .true.
       ENDIF
+      IF(c_dim == 2) THEN
+        local_values(temdiag_i_list(10)) = SUM(dive(1:nx, 0, 1:nz)**2)
+      ELSE
       CALL get_loc_norm_2(dive, nx, ny, nz, nxguards, nyguards, nzguards,             &
       local_values(temdiag_i_list(10)))
+      ENDIF
       local_values(temdiag_i_list(10)) = local_values(temdiag_i_list(10))
     end if
 
-- 
2.43.0


From e3c7592d8a859a4b6ce61f2f8992ea228d5eedab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 53/79] fix: particle dumps wrote the wrong particles when
 there are several tiles

---
 src/ios/simple_io.F90 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 2fe4bad..111205b 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -721,12 +721,13 @@ SUBROUTINE get_particles_to_dump(idump, mask, narr, ndump)
   INTEGER(idp), INTENT(IN) :: idump, narr
   INTEGER(idp), INTENT(IN OUT) :: ndump
   LOGICAL(lp), DIMENSION(narr), INTENT(IN OUT) :: mask
-  INTEGER(idp) :: ix, iy, iz, count, ip
+  INTEGER(idp) :: ix, iy, iz, count, ip, np
   TYPE(particle_species), POINTER :: curr
   TYPE(particle_dump), POINTER :: dp
   TYPE(particle_tile), POINTER :: curr_tile
   REAL(num) :: partx, party, partz, partux, partuy, partuz
   ndump = 0
+  np = 0
   mask = .FALSE.
 
   dp => particle_dumps(idump)
@@ -740,6 +741,7 @@ SUBROUTINE get_particles_to_dump(idump, mask, narr, ndump)
           CYCLE
         ELSE
           DO ip = 1, count
+            np = np+1
             partx= curr_tile%part_x(ip)
             party= curr_tile%part_y(ip)
             partz= curr_tile%part_z(ip)
@@ -753,7 +755,7 @@ SUBROUTINE get_particles_to_dump(idump, mask, narr, ndump)
             dp%dump_uy_min) .AND. (partuy .LT. dp%dump_uy_max) .AND. (partuz .GT.     &
             dp%dump_uz_min) .AND. (partuz .LT. dp%dump_uz_max)) THEN
             ndump = ndump+1
-            mask(ip) = .TRUE.
+            mask(np) = .TRUE.
           ENDIF
         END DO
       ENDIF
-- 
2.43.0


From c81cc999365051a67e6d9706e9ea0989b5401a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 54/79] fix: particle dumps of several processes overwrote each
 other

---
 src/ios/simple_io.F90 | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 111205b..610874c 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -602,6 +602,7 @@ END SUBROUTINE write_single_array_to_file
 !> Creation 2015
 ! ________________________________________________________________________________________
 SUBROUTINE write_particles_to_file
+  USE diagnostics, ONLY: get_local_number_of_particles_from_species
   USE mpi
   USE params, ONLY: it
   USE particle_speciesmodule, ONLY: particle_species
@@ -611,7 +612,8 @@ SUBROUTINE write_particles_to_file
 
   REAL(num), ALLOCATABLE, DIMENSION(:)    :: arr
   LOGICAL(lp), ALLOCATABLE, DIMENSION(:) :: mask
-  INTEGER(idp)                            :: narr, idump, ncurr, ndump
+  INTEGER(idp)                            :: narr, idump, ncurr, ndump, nbefore
+  INTEGER(idp)                            :: ntot(1)
   INTEGER(isp)                            :: fh
   INTEGER(idp)                            :: offset
   TYPE(particle_species), POINTER         :: curr
@@ -635,13 +637,18 @@ SUBROUTINE write_particles_to_file
     tmptime = MPI_WTIME()
 
     curr => species_parray(dp%ispecies)
-    narr = curr%species_npart
+    CALL get_local_number_of_particles_from_species(dp%ispecies, ntot)
+    narr = ntot(1)
 
     ! GET TOTAL NUMBER OF PART TO DUMP
     ALLOCATE(mask(narr))
     CALL get_particles_to_dump(idump, mask, narr, ndump)
 
     CALL MPI_ALLREDUCE(ndump, ncurr, 1_isp, MPI_INTEGER8, MPI_SUM, comm, errcode)
+    ! NUMBER OF PARTICLES WRITTEN BY THE PREVIOUS RANKS
+    nbefore = 0
+    CALL MPI_EXSCAN(ndump, nbefore, 1_isp, MPI_INTEGER8, MPI_SUM, comm, errcode)
+    IF (rank .EQ. 0) nbefore = 0
 
     ! OPENING INPUT FILE
     CALL MPI_FILE_OPEN(comm, TRIM('./RESULTS/'//TRIM(ADJUSTL(curr%name))//'_it_'//    &
@@ -651,36 +658,36 @@ SUBROUTINE write_particles_to_file
     ALLOCATE(arr(ndump))
 
     ! WRITE - X
-    offset = 0
+    offset = nbefore * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 1_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
     ! WRITE - Y
 
-    offset = offset + ndump* SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 2_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
     ! WRITE - Z
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 3_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Ux
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 4_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Uy
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 5_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Uz
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 6_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
     ! WRITE - Weight
-    offset = offset + ndump * SIZEOF(arr(1))
+    offset = offset + ncurr * SIZEOF(arr(1))
     CALL concatenate_particle_variable(idump, 7_idp, arr, ndump, mask, narr)
     CALL write_particle_variable(fh, arr, ndump, mpidbl, errcode, offset)
 
-- 
2.43.0


From b2d10d4f2da26b40eae830e1f045732b6e7f82d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 55/79] fix: every process wrote its own buffer over the time
 statistics of the first one

---
 src/diags/diags.F90   | 8 +++++---
 src/ios/simple_io.F90 | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/diags/diags.F90 b/src/diags/diags.F90
index 0c53371..5b9e792 100644
--- a/src/diags/diags.F90
+++ b/src/diags/diags.F90
@@ -428,9 +428,11 @@ MODULE diagnostics
 
       nb_timestat = 13
 
-      OPEN(unit=41, file="./RESULTS/time_stat", FORM="unformatted", ACCESS='stream')
-      WRITE(41) nb_timestat
-      WRITE(41) timestat_period*dt
+      IF (rank.eq.0) THEN
+        OPEN(unit=41, file="./RESULTS/time_stat", FORM="unformatted", ACCESS='stream')
+        WRITE(41) nb_timestat
+        WRITE(41) timestat_period*dt
+      ENDIF
 
       IF (rank.eq.0) WRITE(0, *) ' Initialization of the time statistics output: ',   &
       nb_timestat
diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index 610874c..b1d293f 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -972,12 +972,14 @@ END SUBROUTINE
 !> Creation 2016
 ! ________________________________________________________________________________________
 SUBROUTINE final_output_time_statistics
+USE shared_data, ONLY: rank
 USE time_stat, ONLY: buffer_timestat, itimestat, timestat_activated
 IMPLICIT NONE
 
-IF (timestat_activated.gt.0) THEN
+IF ((timestat_activated.gt.0).and.(rank.eq.0).and.(itimestat.gt.1)) THEN
 
-  write(41) buffer_timestat(1:13, 1:itimestat)
+  write(41) buffer_timestat(1:13, 1:itimestat-1)
+  itimestat = 1
 
 END IF
 
-- 
2.43.0


From 75cd499b669778e22b8e49cf1e40d60f894fb009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 56/79] fix: the temporal section of the input file never ended

---
 src/initialization/control_file.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index 6b828ab..b947cde 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -1305,6 +1305,8 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'divE') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), '(i10)') temdiag_act_list(10)
+      ELSE IF (INDEX(buffer, 'end::temporal') .GT. 0) THEN
+        end_section =.TRUE.
       ENDIF
     ENDDO
     RETURN
-- 
2.43.0


From 7793fba5aa766c0f90baebccaacdf6cf0c1e878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:25 +0000
Subject: [PATCH 57/79] fix: currents and charge density were written with the
 wrong array layout when their guard cells differ from those of the fields

---
 src/ios/simple_io.F90                    | 23 ++++++++++++-----------
 src/parallelization/mpi/mpi_routines.F90 |  3 ++-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/ios/simple_io.F90 b/src/ios/simple_io.F90
index b1d293f..97122c9 100755
--- a/src/ios/simple_io.F90
+++ b/src/ios/simple_io.F90
@@ -144,29 +144,29 @@ MODULE simple_io
         IF (rank.eq.0) WRITE(0, *) "Write current density jx"
         CALL write_3d_field_array_to_file('./RESULTS/'//TRIM(ADJUSTL(filejx))//       &
         TRIM(ADJUSTL(strtemp))//'.pxr', jx, xmin, xmax, ymin, ymax, zmin, zmax,       &
-        nxguards, nyguards, nzguards, nx, ny, nz, nx_global, ny_global, nz_global)
+        nxjguards, nyjguards, nzjguards, nx, ny, nz, nx_global, ny_global, nz_global)
       ENDIF
       IF (c_output_jy .EQ. 1) THEN
         ! - Write current density jy
         IF (rank.eq.0) WRITE(0, *) "Write current density jy"
         CALL write_3d_field_array_to_file('./RESULTS/'//TRIM(ADJUSTL(filejy))//       &
         TRIM(ADJUSTL(strtemp))//'.pxr', jy, xmin, xmax, ymin, ymax, zmin, zmax,       &
-        nxguards, nyguards, nzguards, nx, ny, nz, nx_global, ny_global, nz_global)
+        nxjguards, nyjguards, nzjguards, nx, ny, nz, nx_global, ny_global, nz_global)
       ENDIF
       IF (c_output_jz .EQ. 1) THEN
         ! - Write current density jz
         IF (rank.eq.0) WRITE(0, *) "Write current density jz"
         CALL write_3d_field_array_to_file('./RESULTS/'//TRIM(ADJUSTL(filejz))//       &
         TRIM(ADJUSTL(strtemp))//'.pxr', jz, xmin, xmax, ymin, ymax, zmin, zmax,       &
-        nxguards, nyguards, nzguards, nx, ny, nz, nx_global, ny_global, nz_global)
+        nxjguards, nyjguards, nzjguards, nx, ny, nz, nx_global, ny_global, nz_global)
       ENDIF
       IF (c_output_divj .EQ. 1) THEN 
-        CALL calc_field_div(divj, jx, jy, jz, nx, ny, nz, nxguards, nyguards,&
-          nzguards, dx, dy, dz)
+        CALL calc_field_div(divj, jx, jy, jz, nx, ny, nz, nxjguards, nyjguards,&
+          nzjguards, dx, dy, dz)
         IF (rank.eq.0) WRITE(0, *) "Write electric field divergence div J"
         CALL write_3d_field_array_to_file('./RESULTS/'//TRIM(ADJUSTL(filedivj))//     &
         TRIM(ADJUSTL(strtemp))//'.pxr', divj, xmin, xmax, ymin, ymax, zmin,zmax,     &
-        nxguards, nyguards, nzguards, nx, ny, nz, nx_global, ny_global,nz_global)
+        nxjguards, nyjguards, nzjguards, nx, ny, nz, nx_global, ny_global,nz_global)
       ENDIF
       IF (c_output_divb .EQ. 1) THEN
         CALL calc_field_divB(divb, bx, by, bz, nx, ny, nz, nxguards, nyguards,&
@@ -194,7 +194,7 @@ MODULE simple_io
         IF (rank.eq.0) WRITE(0, *) "Write total charge density rho"
         CALL write_3d_field_array_to_file('./RESULTS/'//TRIM(ADJUSTL(filerho))//      &
         TRIM(ADJUSTL(strtemp))//'.pxr', rho, xmin, xmax, ymin, ymax, zmin, zmax,      &
-        nxguards, nyguards, nzguards, nx, ny, nz, nx_global, ny_global, nz_global)
+        nxjguards, nyjguards, nzjguards, nx, ny, nz, nx_global, ny_global, nz_global)
       ENDIF
 
       tmptime2 = MPI_WTIME() - tmptime2
@@ -236,7 +236,8 @@ END SUBROUTINE output_routines
 SUBROUTINE output_temporal_diagnostics
   USE constants, ONLY: clight, emass, eps0, imu0
   USE diagnostics
-  USE fields, ONLY: bx, by, bz, ex, ey, ez, nxguards, nyguards, nzguards
+  USE fields, ONLY: bx, by, bz, ex, ey, ez, nxguards, nxjguards, nyguards, nyjguards, &
+    nzguards, nzjguards
   USE mpi
   USE mpi_type_constants, ONLY: mpidbl
   USE output_data, ONLY: dive_computed, temdiag_act_list, temdiag_format,            &
@@ -372,8 +373,8 @@ SUBROUTINE output_temporal_diagnostics
         local_values(temdiag_i_list(8)) =                                             &
         SUM((dive(1:nx, 0, 1:nz)*eps0 - rho(1:nx, 0, 1:nz))**2)
       ELSE
-      CALL get_loc_norm_divErho(dive, rho, nx, ny, nz, nxguards, nyguards, nzguards,  &
-      local_values(temdiag_i_list(8)))
+      CALL get_loc_norm_divErho(dive(0:nx, 0:ny, 0:nz), rho(0:nx, 0:ny, 0:nz), nx,    &
+      ny, nz, 0_idp, 0_idp, 0_idp, local_values(temdiag_i_list(8)))
       ENDIF
       local_values(temdiag_i_list(8)) = local_values(temdiag_i_list(8))
     end if
@@ -383,7 +384,7 @@ SUBROUTINE output_temporal_diagnostics
       IF(c_dim == 2) THEN
         local_values(temdiag_i_list(9)) = SUM(rho(1:nx, 0, 1:nz)**2)
       ELSE
-      CALL get_loc_norm_2(rho, nx, ny, nz, nxguards, nyguards, nzguards,              &
+      CALL get_loc_norm_2(rho, nx, ny, nz, nxjguards, nyjguards, nzjguards,           &
       local_values(temdiag_i_list(9)))
       ENDIF
       local_values(temdiag_i_list(9)) = local_values(temdiag_i_list(9))
diff --git a/src/parallelization/mpi/mpi_routines.F90 b/src/parallelization/mpi/mpi_routines.F90
index ceb412e..0a50e24 100644
--- a/src/parallelization/mpi/mpi_routines.F90
+++ b/src/parallelization/mpi/mpi_routines.F90
@@ -1822,7 +1822,8 @@ ALLOCATE(rhoold(-nxjguards:nx+nxjguards, -nyjguards:ny+nyjguards,
 -nzjguards:nz+nzjguards))
 ALLOCATE(dive(-nxguards:nx+nxguards, -nyguards:ny+nyguards,                       &
 -nzguards:nz+nzguards))
-ALLOCATE(divj(-nxguards:nx+nxguards, -nyguards:ny+nyguards, -nzguards:nz+nzguards))
+ALLOCATE(divj(-nxjguards:nx+nxjguards, -nyjguards:ny+nyjguards,                    &
+-nzjguards:nz+nzjguards))
 ALLOCATE(divb(-nxguards:nx+nxguards, -nyguards:ny+nyguards, -nzguards:nz+nzguards))
 ! --- Initialize auxiliary field arrays for gather to particles
 ex_p => ex
-- 
2.43.0


From ba4532ac95a5747339147709aca9cfc7fd97576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:39 +0000
Subject: [PATCH 58/79] fix: nxpml, nypml, nzpml and lvec_fieldgathe on the
 command line

The branches of nx, ny, nz and fieldgathe came first and took these keys.
---
 src/initialization/control_file.F90 | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index b947cde..544cce3 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -303,6 +303,15 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'dtcoef') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) dtcoef
+      ELSE IF (INDEX(buffer, 'nxpml') .GT. 0) THEN
+        CALL GETARG(i+1, buffer)
+        READ(buffer, '(i10)') nx_pml
+      ELSE IF (INDEX(buffer, 'nypml') .GT. 0) THEN
+        CALL GETARG(i+1, buffer)
+        READ(buffer, '(i10)') ny_pml
+      ELSE IF (INDEX(buffer, 'nzpml') .GT. 0) THEN
+        CALL GETARG(i+1, buffer)
+        READ(buffer, '(i10)') nz_pml
       ELSE IF (INDEX(buffer, 'nx') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) nx_global_grid
@@ -312,6 +321,9 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'nz') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) nz_global_grid
+      ELSE IF (INDEX(buffer, 'lvec_fieldgathe') .GT. 0) THEN
+        CALL GETARG(i+1, buffer)
+        READ(buffer, *) lvec_fieldgathe
       ELSE IF (INDEX(buffer, 'fieldgathe') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) fieldgathe
@@ -348,15 +360,6 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'absorbing_bcs_z') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) absorbing_bcs_z
-      ELSE IF (INDEX(buffer, 'nxpml') .GT. 0) THEN
-        CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') nx_pml
-      ELSE IF (INDEX(buffer, 'nypml') .GT. 0) THEN
-        CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') ny_pml
-      ELSE IF (INDEX(buffer, 'nzpml') .GT. 0) THEN
-        CALL GETARG(i+1, buffer)
-        READ(buffer, '(i10)') nz_pml
       ELSE IF (INDEX(buffer, 'g_spectral') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) g_spectral
@@ -378,9 +381,6 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'lvec_charge_depo') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) lvec_charge_depo
-      ELSE IF (INDEX(buffer, 'lvec_fieldgathe') .GT. 0) THEN
-        CALL GETARG(i+1, buffer)
-        READ(buffer, *) lvec_fieldgathe
       ELSE IF (INDEX(buffer, 'mpicom_curr') .GT. 0) THEN
         CALL GETARG(i+1, buffer)
         READ(buffer, *) mpicom_curr
-- 
2.43.0


From ec4a4d8a51aa8be691ac13d1605cef58dbd20c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:39 +0000
Subject: [PATCH 59/79] fix: read mpi_buf_size and the vector lengths in the
 solver section

They are documented there; mpi_buf_size was matched and not read, and lvec_fieldgathe set fieldgathe.
---
 src/initialization/control_file.F90 | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index 544cce3..6a07271 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -659,6 +659,15 @@ MODULE control_file
       ELSE IF (INDEX(buffer, 'currdepo') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), '(i10)') currdepo
+      ELSE IF (INDEX(buffer, 'lvec_curr_depo') .GT. 0) THEN
+        ix = INDEX(buffer, "=")
+        READ(buffer(ix+1:string_length), '(i10)') lvec_curr_depo
+      ELSE IF (INDEX(buffer, 'lvec_charge_depo') .GT. 0) THEN
+        ix = INDEX(buffer, "=")
+        READ(buffer(ix+1:string_length), '(i10)') lvec_charge_depo
+      ELSE IF (INDEX(buffer, 'lvec_fieldgathe') .GT. 0) THEN
+        ix = INDEX(buffer, "=")
+        READ(buffer(ix+1:string_length), '(i10)') lvec_fieldgathe
       ELSE IF (INDEX(buffer, 'fieldgathe') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), '(i10)') fieldgathe
@@ -670,6 +679,7 @@ MODULE control_file
         READ(buffer(ix+1:string_length), '(i10)') partcom
       ELSE IF (INDEX(buffer, 'mpi_buf_size') .GT. 0) THEN
         ix = INDEX(buffer, "=")
+        READ(buffer(ix+1:string_length), '(i10)') mpi_buf_size
       ELSE IF (INDEX(buffer, 'l_spectral') .GT. 0) THEN
         ix = INDEX(buffer, "=")
         READ(buffer(ix+1:string_length), *) l_spectral
-- 
2.43.0


From b324bcfcf3878955796d5181afbb10aa13312104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:43 +0000
Subject: [PATCH 60/79] fix: a section that is commented out was opened, and
 took the lines that follow

Lines with # are comments inside the sections, and so is the commented end:: line.
---
 src/initialization/control_file.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/initialization/control_file.F90 b/src/initialization/control_file.F90
index 6a07271..d1211bc 100755
--- a/src/initialization/control_file.F90
+++ b/src/initialization/control_file.F90
@@ -470,6 +470,9 @@ MODULE control_file
        
     DO WHILE(ios==0)
       READ(fh_input, '(A)', iostat=ios) buffer
+      IF (INDEX(buffer, '#') .GT. 0) THEN
+        CYCLE
+      ENDIF
       ix=INDEX(buffer, 'section::')
       IF (ix .GT. 0) THEN
         section_name=buffer(ix:string_length)
-- 
2.43.0


From ef9516e7c3b28d9442ef2e17f41100f23d8b6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:56 +0000
Subject: [PATCH 61/79] fix: group guard cells along z that differ from the
 local ones, with one process per group

---
 src/parallelization/mpi/mpi_routines.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parallelization/mpi/mpi_routines.F90 b/src/parallelization/mpi/mpi_routines.F90
index 0a50e24..bc63137 100644
--- a/src/parallelization/mpi/mpi_routines.F90
+++ b/src/parallelization/mpi/mpi_routines.F90
@@ -1406,6 +1406,9 @@ IF(fftw_hybrid) THEN
   ! - Properly sets group guard cells along X
   ! - As there is no groups along X, nxg_group and nxguards must be identical
   ENDIF
+  ! - A group with a single process along Z is filled from the local arrays
+  ! - alone: it has their guard cells
+  IF (nprocz .EQ. nb_group_z) nzg_group=nzguards
 ENDIF
 IF(p3dfft_flag) THEN
   fftw_with_mpi = .TRUE.
-- 
2.43.0


From fd18fd17dd0777562ffdd8d1d0286d9c6e518f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:33 +0000
Subject: [PATCH 62/79] fix: write past the end of the wave vector of an axis
 with a single cell

---
 src/field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90 b/src/field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90
index f0f47ba..4ebb616 100644
--- a/src/field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90
+++ b/src/field_solvers/Maxwell/GPSTD_solver/init_kspace_3D.F90
@@ -856,7 +856,7 @@ MODULE gpstd_solver
         kxx(i+1)=kxx(i)+(1., 0.)
       END DO
       ! Second part of k [-(n-1)/2, -1]
-      kxx((n-1_idp)/2_idp+2_idp)=-DCMPLX((n-1_idp)/2_idp, 0.0_num)
+      IF (n .GT. 1_idp) kxx((n-1_idp)/2_idp+2_idp)=-DCMPLX((n-1_idp)/2_idp, 0.0_num)
       DO i=(n-1_idp)/2_idp+2_idp, n-1
         kxx(i+1)=kxx(i)+(1.0_num, 0.0_num)
       END DO
-- 
2.43.0


From a29931c89914a1ea6e21b7004172524eac126448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 63/79] fix: charge density of the last step, not initialised
 in 2D and lost between calls to step in 3D

---
 src/submain.F90 | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/submain.F90 b/src/submain.F90
index 7d49745..8f5c9be 100644
--- a/src/submain.F90
+++ b/src/submain.F90
@@ -99,8 +99,6 @@ USE sorting
   ! ___________________________________________
   ! Loop in 3D
   IF (c_dim.eq.3) THEN
-    rhoold=0.0_num
-    rho = 0.0_num
     DO i=1, nst
       CALL begin_timestep
       IF (rank .EQ. 0) startit=MPI_WTIME()
@@ -817,6 +815,7 @@ SUBROUTINE initall
   ex=0.0_num;ey=0.0_num;ez=0.0_num
   bx=0.0_num;by=0.0_num;bz=0.0_num
   jx=0.0_num;jy=0.0_num;jz=0.0_num
+  rho=0.0_num;rhoold=0.0_num
   IF(absorbing_bcs) THEN
     CALL init_splitted_fields_random()
   ENDIF
-- 
2.43.0


From 1e68f22bcba8870a7418ff866495fbe012e16bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:28 +0000
Subject: [PATCH 64/79] fix: amplitude of the laser antenna depended on the
 direction of its polarisation

---
 src/parallelization/tiling/tiling.F90 | 30 +++++++--------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index 2900afc..bb10629 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -1748,7 +1748,6 @@ MODULE tiling
     INTEGER(idp) :: i1, i2, inonz
     TYPE(particle_antenna), POINTER ::  laser
     REAL(num), DIMENSION(2, 2)      :: M1, M2, M3
-    REAL(num)  :: sx(3) , sy(3)
     laser=>curr%antenna_params
 
     IF(c_dim == 2) THEN
@@ -1834,31 +1833,16 @@ MODULE tiling
     pos = (/0._num, 0._num, 0._num/)
 
     !-> Compute particle weight coeff depending on polarization direction
-    sx = 1._num 
-    sy = 1._num
-
-    IF(c_dim == 3) THEN
-      IF(laser%polvector1(1) .NE. 0._num) sx(1) = ABS(dx/laser%polvector1(1))
-      IF(laser%polvector1(2) .NE. 0._num) sx(2) = ABS(dy/laser%polvector1(2))
-      IF(laser%polvector1(3) .NE. 0._num) sx(3) = ABS(dz/laser%polvector1(3))
-      IF(laser%polvector2(1) .NE. 0._num) sy(1) = ABS(dx/laser%polvector2(1))
-      IF(laser%polvector2(2) .NE. 0._num) sy(2) = ABS(dy/laser%polvector2(2))
-      IF(laser%polvector2(3) .NE. 0._num) sy(3) = ABS(dz/laser%polvector2(3))
-    ELSE IF (c_dim == 2) THEN
-      IF(laser%polvector2(2) == 0.0_num) THEN 
-        IF(laser%polvector2(1) .NE. 0._num) sx(1) = ABS(dx/laser%polvector2(1))
-        IF(laser%polvector2(3) .NE. 0._num) sx(3) = ABS(dz/laser%polvector2(3))
-      ELSE IF(laser%polvector1(2) == 0.0_num) THEN
-        IF(laser%polvector1(1) .NE. 0._num) sx(1) = ABS(dx/laser%polvector1(1))
-        IF(laser%polvector1(3) .NE. 0._num) sx(3) = ABS(dz/laser%polvector1(3))
-      ENDIF
-    ENDIF
     spot=(/laser%spot_x, laser%spot_y, laser%spot_z/)
+    ! -- Area of the antenna per particle (one particle per cell along i1 and i2)
     IF(c_dim == 3) THEN
-      weight_laser = eps0*laser%Emax/(0.01_num)*MINVAL(sx)*MINVAL(sy)
-    ELSE IF(c_dim == 2) THEN
-       weight_laser = eps0*laser%Emax/(0.01_num)*MINVAL(sx)
+      weight_laser = dst(i1)*dst(i2)/ABS(laser%vector(inonz))
+    ELSE IF(inonz == 3_idp) THEN
+      weight_laser = dx/ABS(laser%vector(3))
+    ELSE
+      weight_laser = dz/ABS(laser%vector(1))
     ENDIF
+    weight_laser = eps0*laser%Emax/(0.01_num)*weight_laser
 
     DO l=1, lmax
       pos(i2) = (mins(i2)+(l-1)*dst(i2))+(dst(i2))/2.0_num
-- 
2.43.0


From 0fadfbff080058d03760224f0e26007fe59f5641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:28 +0000
Subject: [PATCH 65/79] fix: phase between the two polarisations ignored for a
 laser of constant amplitude

---
 src/particle_pushers/laser_pusher_manager_3d.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particle_pushers/laser_pusher_manager_3d.F90 b/src/particle_pushers/laser_pusher_manager_3d.F90
index 3d35ae5..96520b6 100644
--- a/src/particle_pushers/laser_pusher_manager_3d.F90
+++ b/src/particle_pushers/laser_pusher_manager_3d.F90
@@ -396,7 +396,8 @@ SUBROUTINE gaussian_profile(xx, yy, amp1, amp2, amp3, emax, emax1, emax2, polvec
   j=(0.0_num, 1.0_num)
   IF (temporal_order .EQ. 0_idp) THEN 
     u1 = j*k0_laser*clight*(real_time-t_peak) - j*k0_laser*(xx**2+yy**2)/(2*q_z)
-    u2 = j*k0_laser*clight*(real_time-t_peak) - j*k0_laser*(xx**2+yy**2)/(2*q_z)
+    u2 = j*k0_laser*clight*(real_time-t_peak) - j*k0_laser*(xx**2+yy**2)/(2*q_z) +      &
+    polangle*2.0_num*pi*j
   ELSE
     u1 = j*k0_laser*clight*(real_time-t_peak)- j*k0_laser*(xx**2+yy**2)/(2*q_z) -       &
     ((real_time - t_peak )/laser_tau)**temporal_order
-- 
2.43.0


From 6624ca5b7f4ad4bdc5e9a80ff01208bed7733875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 66/79] fix: a simulation without particle species crashed in
 2D, and in 3D with several threads

---
 src/boundary_conditions/particle_boundaries.F90               | 3 +++
 src/housekeeping/sorting.F90                                  | 4 +++-
 .../current_deposition/current_deposition_manager_2d.F90      | 4 ++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/boundary_conditions/particle_boundaries.F90 b/src/boundary_conditions/particle_boundaries.F90
index 38406f8..280a8be 100644
--- a/src/boundary_conditions/particle_boundaries.F90
+++ b/src/boundary_conditions/particle_boundaries.F90
@@ -92,6 +92,8 @@ MODULE particle_boundary
     REAL(num) :: tdeb, tend
     REAL(num) :: tmptime
 
+    IF (nspecies .EQ. 0_idp) RETURN
+
     IF (it.ge.timestat_itstart) THEN
       tmptime = MPI_WTIME()
     ENDIF
@@ -268,6 +270,7 @@ MODULE particle_boundary
     IMPLICIT NONE
     REAL(num) :: tdeb, tend
     REAL(num) :: tmptime
+    IF (nspecies .EQ. 0_idp) RETURN
     tmptime = MPI_WTIME()
     tdeb=MPI_WTIME()
 
diff --git a/src/housekeeping/sorting.F90 b/src/housekeeping/sorting.F90
index 7661594..05ef9f9 100644
--- a/src/housekeeping/sorting.F90
+++ b/src/housekeeping/sorting.F90
@@ -67,7 +67,8 @@ MODULE sorting
   SUBROUTINE pxr_particle_sorting
     USE mpi
     USE params, ONLY: it
-    USE picsar_precision, ONLY: num
+    USE particle_properties, ONLY: nspecies
+    USE picsar_precision, ONLY: idp, num
     USE shared_data, ONLY: sorting_activated
     USE tiling
     USE time_stat, ONLY: localtimes, timestat_itstart
@@ -76,6 +77,7 @@ MODULE sorting
     !LOGICAL(lp)  :: verbose=.TRUE.
     REAL(num) :: tdeb, tend
 
+    IF (nspecies .EQ. 0_idp) RETURN
     IF ((sorting_activated.gt.0)) THEN
       IF (it.ge.timestat_itstart) THEN
         tdeb=MPI_WTIME()
diff --git a/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90 b/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
index 79c4c60..32d5fe4 100644
--- a/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
+++ b/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
@@ -336,6 +336,7 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_2d
     nzjguards
   USE mpi
   USE params, ONLY: currdepo, dt, lvec_curr_depo
+  USE particle_properties, ONLY: nspecies
   USE picsar_precision, ONLY: idp, lp, num
   USE shared_data, ONLY: dx, dy, dz, nx, ny, nz, xmin, zmin
   USE time_stat, ONLY: localtimes
@@ -399,6 +400,9 @@ SUBROUTINE pxrdepose_currents_on_grid_jxjyjz_2d
   jy = 0.0_num
   jz = 0.0_num
 
+  ! - If no particle in the simulation domain return
+  IF (nspecies .EQ. 0_idp) RETURN
+
   ! __ Current deposition ________________________________________________________________
 
   ! _______________________________________________________
-- 
2.43.0


From b52a662c85a233eb5d58b2f50b32892281d0d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:18 +0000
Subject: [PATCH 67/79] fix: rank of a process from its coordinates when the
 axes have different numbers of processes

---
 src/housekeeping/load_balancing.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/housekeeping/load_balancing.F90 b/src/housekeeping/load_balancing.F90
index 1bf76f2..a7c1091 100644
--- a/src/housekeeping/load_balancing.F90
+++ b/src/housekeeping/load_balancing.F90
@@ -139,9 +139,9 @@ MODULE load_balance
       IF (ixt .LT. 0)     ixt=npx-1
       IF (ixt .GT. npx-1) ixt=0
       IF (iyt .LT. 0)     iyt=npy-1
-      IF (iyt .GT. npx-1) iyt=0
+      IF (iyt .GT. npy-1) iyt=0
       IF (izt .LT. 0)     izt=npz-1
-      IF (izt .GT. npx-1) izt=0
+      IF (izt .GT. npz-1) izt=0
       curr_rank= ixt +iyt*npx+izt*npx*npy
     ENDIF
 
-- 
2.43.0


From e7a4d1571ef5be3b574611e1457bf12a0a56d3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:18 +0000
Subject: [PATCH 68/79] fix: load balancing along an axis left cells without
 process and processes without cells

---
 src/housekeeping/load_balancing.F90 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/housekeeping/load_balancing.F90 b/src/housekeeping/load_balancing.F90
index a7c1091..7d44866 100644
--- a/src/housekeeping/load_balancing.F90
+++ b/src/housekeeping/load_balancing.F90
@@ -2013,7 +2013,8 @@ SUBROUTINE compute_send_recv_sizes_and_index_g2l_copies
       curr_proc_load=0_num
       idirmin(iproc)=icell
       delta=0_num
-      DO WHILE((not_balanced) .AND. (icell .LT. ncellmaxdir-1))
+      ! Leave at least one cell to each of the next processes
+      DO WHILE((not_balanced) .AND. (icell .LT. ncellmaxdir-nproc_in_dir+iproc))
         curr_proc_load=curr_proc_load+load_in_dir(icell)
         IF(curr_proc_load .GE. curr_balanced_load)  THEN
           not_balanced=.FALSE.
@@ -2027,8 +2028,8 @@ SUBROUTINE compute_send_recv_sizes_and_index_g2l_copies
       delta=(iproc+1_num)*balanced_load-SUM(load_per_proc)
       curr_balanced_load=balanced_load+delta
       icell=icell+1
-      ! Sanity check
-      IF ((iproc .EQ. nproc_in_dir-1) .AND. (icell .LT. ncellmaxdir-1)) THEN
+      ! The last process takes all remaining cells
+      IF (iproc .EQ. nproc_in_dir-1) THEN
         idirmax(iproc)=ncellmaxdir-1
       ENDIF
     END DO
-- 
2.43.0


From 5344d0afa362ce3328c31312a92484b1397e540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 69/79] fix: wrong nodes in the cylindrical gathering of the
 azimuthal modes above 0

---
 .../energy_conserving/field_gathering_on_circ.F90    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90 b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
index a64c311..f87af73 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
@@ -303,8 +303,8 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
       xy = xy*xy0
       do ll = izmin, izmax+1
         do jj = ixmin0, ixmax0
-          exc = real(erg(j+jj,l+ll,m)*xy, num)
-          eyc = real(etg(j+jj,l+ll,m)*xy, num)
+          exc = real(erg(j0+jj,l+ll,m)*xy, num)
+          eyc = real(etg(j0+jj,l+ll,m)*xy, num)
           ex(ip) = ex(ip) + sx0(jj)*sz(ll)*(exc*costheta - eyc*sintheta)
           ey(ip) = ey(ip) + sx0(jj)*sz(ll)*(exc*sintheta + eyc*costheta)
         end do
@@ -312,7 +312,7 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
 
       do ll = izmin0, izmax0
         do jj = ixmin, ixmax+1
-          ezc = real(ezg(j+jj,l+ll,m)*xy, num)
+          ezc = real(ezg(j+jj,l0+ll,m)*xy, num)
           ez(ip) = ez(ip) + sx(jj)*sz0(ll)*ezc
         end do
       end do
@@ -597,15 +597,15 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
       xy = xy*xy0
       do ll = izmin0, izmax0
         do jj = ixmin, ixmax+1
-          bxc = real(brg(j+jj,l+ll,m)*xy, num)
-          byc = real(btg(j+jj,l+ll,m)*xy, num)
+          bxc = real(brg(j+jj,l0+ll,m)*xy, num)
+          byc = real(btg(j+jj,l0+ll,m)*xy, num)
           bx(ip) = bx(ip) + sx(jj)*sz0(ll)*(bxc*costheta - byc*sintheta)
           by(ip) = by(ip) + sx(jj)*sz0(ll)*(bxc*sintheta + byc*costheta)
         end do
       end do
       do ll = izmin, izmax+1
         do jj = ixmin0, ixmax0
-          bzc = real(bzg(j+jj,l+ll,m)*xy, num)
+          bzc = real(bzg(j0+jj,l+ll,m)*xy, num)
           bz(ip) = bz(ip) + sx0(jj)*sz(ll)*bzc
         end do
       end do
-- 
2.43.0


From c96fd9f7038ef88bf6abe5cc5aa7f8bc3bfc812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 70/79] fix: radial location of Etheta and Btheta in the
 cylindrical gathering

---
 .../field_gathering_on_circ.F90               | 42 ++++++++++++++-----
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90 b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
index f87af73..81a3e4a 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
@@ -286,8 +286,15 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
     ! Mode m = 0
     do ll = izmin, izmax+1
       do jj = ixmin0, ixmax0
-        ex(ip) = ex(ip) + sz(ll)*sx0(jj)*real(erg(j0+jj,l+ll,0)*costheta-etg(j0+jj,l+ll,0)*sintheta)
-        ey(ip) = ey(ip) + sz(ll)*sx0(jj)*real(erg(j0+jj,l+ll,0)*sintheta+etg(j0+jj,l+ll,0)*costheta)
+        exc = real(erg(j0+jj,l+ll,0), num)
+        ex(ip) = ex(ip) + sz(ll)*sx0(jj)*exc*costheta
+        ey(ip) = ey(ip) + sz(ll)*sx0(jj)*exc*sintheta
+      end do
+      ! Etheta is located on the nodes in r
+      do jj = ixmin, ixmax+1
+        eyc = real(etg(j+jj,l+ll,0), num)
+        ex(ip) = ex(ip) - sz(ll)*sx(jj)*eyc*sintheta
+        ey(ip) = ey(ip) + sz(ll)*sx(jj)*eyc*costheta
       end do
     end do
 
@@ -304,9 +311,13 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
       do ll = izmin, izmax+1
         do jj = ixmin0, ixmax0
           exc = real(erg(j0+jj,l+ll,m)*xy, num)
-          eyc = real(etg(j0+jj,l+ll,m)*xy, num)
-          ex(ip) = ex(ip) + sx0(jj)*sz(ll)*(exc*costheta - eyc*sintheta)
-          ey(ip) = ey(ip) + sx0(jj)*sz(ll)*(exc*sintheta + eyc*costheta)
+          ex(ip) = ex(ip) + sx0(jj)*sz(ll)*exc*costheta
+          ey(ip) = ey(ip) + sx0(jj)*sz(ll)*exc*sintheta
+        end do
+        do jj = ixmin, ixmax+1
+          eyc = real(etg(j+jj,l+ll,m)*xy, num)
+          ex(ip) = ex(ip) - sx(jj)*sz(ll)*eyc*sintheta
+          ey(ip) = ey(ip) + sx(jj)*sz(ll)*eyc*costheta
         end do
       end do
 
@@ -580,8 +591,15 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
     ! Mode m = 0
     do ll = izmin0, izmax0
       do jj = ixmin, ixmax+1
-        bx(ip) = bx(ip) + sx(jj)*sz0(ll)*real(brg(j+jj,l0+ll,0)*costheta-btg(j+jj,l0+ll,0)*sintheta)
-        by(ip) = by(ip) + sx(jj)*sz0(ll)*real(brg(j+jj,l0+ll,0)*sintheta+btg(j+jj,l0+ll,0)*costheta)
+        bxc = real(brg(j+jj,l0+ll,0), num)
+        bx(ip) = bx(ip) + sx(jj)*sz0(ll)*bxc*costheta
+        by(ip) = by(ip) + sx(jj)*sz0(ll)*bxc*sintheta
+      end do
+      ! Btheta is staggered in r
+      do jj = ixmin0, ixmax0
+        byc = real(btg(j0+jj,l0+ll,0), num)
+        bx(ip) = bx(ip) - sx0(jj)*sz0(ll)*byc*sintheta
+        by(ip) = by(ip) + sx0(jj)*sz0(ll)*byc*costheta
       end do
     end do
 
@@ -598,9 +616,13 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
       do ll = izmin0, izmax0
         do jj = ixmin, ixmax+1
           bxc = real(brg(j+jj,l0+ll,m)*xy, num)
-          byc = real(btg(j+jj,l0+ll,m)*xy, num)
-          bx(ip) = bx(ip) + sx(jj)*sz0(ll)*(bxc*costheta - byc*sintheta)
-          by(ip) = by(ip) + sx(jj)*sz0(ll)*(bxc*sintheta + byc*costheta)
+          bx(ip) = bx(ip) + sx(jj)*sz0(ll)*bxc*costheta
+          by(ip) = by(ip) + sx(jj)*sz0(ll)*bxc*sintheta
+        end do
+        do jj = ixmin0, ixmax0
+          byc = real(btg(j0+jj,l0+ll,m)*xy, num)
+          bx(ip) = bx(ip) - sx0(jj)*sz0(ll)*byc*sintheta
+          by(ip) = by(ip) + sx0(jj)*sz0(ll)*byc*costheta
         end do
       end do
       do ll = izmin, izmax+1
-- 
2.43.0


From 0dccff8ff3fdc0ca9bc9eeb1c94e03f8ad05df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 71/79] fix: azimuthal phases computed in single precision in
 the cylindrical kernels

---
 .../energy_conserving/field_gathering_on_circ.F90           | 4 ++--
 .../current_deposition/esirkepov/esirkepov_circ.F90         | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90 b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
index 81a3e4a..c8b1f3d 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
@@ -139,7 +139,7 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
       sintheta=0.
     end if
     x = (r-xmin)*dxi
-    xy0 = cmplx(costheta, -sintheta)
+    xy0 = cmplx(costheta, -sintheta, cpx)
 
     z = (zp(ip)-zmin)*dzi
 
@@ -443,7 +443,7 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
       sintheta=0.
     end if
     x = (r-xmin)*dxi
-    xy0 = cmplx(costheta, -sintheta)
+    xy0 = cmplx(costheta, -sintheta, cpx)
 
     z = (zp(ip)-zmin)*dzi
 
diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_circ.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_circ.F90
index 0e66bcd..f7b6ec5 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_circ.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_circ.F90
@@ -175,7 +175,7 @@ subroutine pxr_depose_jrjtjz_esirkepov_n_2d_circ( &
         c = 1._num
         s = 0._num
      end if
-     xy0 = cmplx(c, s)
+     xy0 = cmplx(c, s, num)
      x = r
      x = x*dri
      z = zp(ip)*dzi
@@ -197,7 +197,7 @@ subroutine pxr_depose_jrjtjz_esirkepov_n_2d_circ( &
         cold = 1._num
         sold = 0._num
      end if
-     xyold0 = cmplx(cold, sold)
+     xyold0 = cmplx(cold, sold, num)
      xmid = xmid + 0.5_num*xold
      ymid = ymid + 0.5_num*yold
      rmid = sqrt(xmid*xmid + ymid*ymid)
@@ -209,7 +209,7 @@ subroutine pxr_depose_jrjtjz_esirkepov_n_2d_circ( &
         cmid = 1._num
         smid = 0._num
      end if
-     xymid0 = cmplx(cmid, smid)
+     xymid0 = cmplx(cmid, smid, num)
      xold = rold*dri
      vy = -vx*smid + vy*cmid
      vx = (x - xold)*dr*dti
-- 
2.43.0


From 969f0f958b2b3ec7cb7ed07624e944da95c06cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 72/79] fix: sign of Jtheta folded from below the axis

---
 .../current_deposition/current_deposition_manager_2d.F90        | 2 +-
 .../current_deposition/esirkepov/esirkepov_circ.F90             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90 b/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
index 32d5fe4..2eb0f88 100644
--- a/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
+++ b/src/particle_deposition/current_deposition/current_deposition_manager_2d.F90
@@ -236,7 +236,7 @@ SUBROUTINE apply_rz_volume_scaling_j( jr, jr_nguard, jr_nvalid, jt, jt_nguard,
   if (rmin == 0.) then
     ! This assumes that ir = 0 at rmin == 0
     ! Fields that are located on the boundary
-    jt(1:jt_nguard(1),:) = jt(1:jt_nguard(1),:) + jt(-1:-jt_nguard(1):-1,:)
+    jt(1:jt_nguard(1),:) = jt(1:jt_nguard(1),:) - jt(-1:-jt_nguard(1):-1,:)
     jz(1:jz_nguard(1),:) = jz(1:jz_nguard(1),:) + jz(-1:-jz_nguard(1):-1,:)
     ! Fields that are located off the boundary
     jr(0:jr_nguard(1)-1,:) = jr(0:jr_nguard(1)-1,:) - jr(-1:-jr_nguard(1):-1,:)
diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_circ.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_circ.F90
index f7b6ec5..afabc10 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_circ.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_circ.F90
@@ -504,7 +504,7 @@ subroutine apply_2dcirc_volume_scaling_j( &
         ifact = -1
       end if
       ! Fields that are located on the boundary
-      jt(1:jt_nguard(1),:,m) = jt(1:jt_nguard(1),:,m) + ifact*jt(-1:-jt_nguard(1):-1,:,m)
+      jt(1:jt_nguard(1),:,m) = jt(1:jt_nguard(1),:,m) - ifact*jt(-1:-jt_nguard(1):-1,:,m)
       jz(1:jz_nguard(1),:,m) = jz(1:jz_nguard(1),:,m) + ifact*jz(-1:-jz_nguard(1):-1,:,m)
       ! Fields that are located off the boundary
       jr(0:jr_nguard(1)-1,:,m) = jr(0:jr_nguard(1)-1,:,m) - ifact*jr(-1:-jr_nguard(1):-1,:,m)
-- 
2.43.0


From b04f9f72d1e2f80bd708eab7d2d4ed1eec02bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 73/79] fix: Davoine shapes of the cylindrical deposition: old
 position on the wrong nodes, single precision

---
 .../charge_deposition/charge_deposition_2d.F90              | 2 +-
 .../current_deposition/esirkepov/esirkepov_2d.F90           | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90 b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
index af379eb..01bc378 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
@@ -119,7 +119,7 @@ SUBROUTINE pxr_depose_rho_n_2dxz(rho, np, xp, yp, zp, w, q, xmin, zmin, dx, dz,
 
     ! --- computes coefficients for node centered quantities
     if (type_rz_depose == 2) then! Davoine method, modified particle shapes in r
-      sx(0) = 1. - xint  + 1./(4*j+2)*( -xint + xint**2 )
+      sx(0) = 1. - xint  + 1._num/(4*j+2)*( -xint + xint**2 )
       sx(1) = 1. - sx(0)
     else! Standard method, canonical shapes in r
       select case(nox)
diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 173ab46..7ab6b19 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -240,7 +240,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
 
       ! --- computes coefficients for node centered quantities
       if (type_rz_depose == 2) then! Davoine method, modified particle shapes in r
-        sx0(0) = 1. - xint  + 1./(4*iixp0+2)*( -xint + xint**2 )
+        sx0(0) = 1. - xint  + 1._num/(4*iixp0+2)*( -xint + xint**2 )
         sx0(1) = 1. - sx0(0)
       else! Standard method, canonical shapes in r
         select case(nox)
@@ -313,8 +313,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
 
       ! --- computes coefficients for quantities centered between nodes
       if (type_rz_depose == 2) then! Davoine method, modified particle shapes in r
-        sx(0) = 1. - xint  + 1./(4*iixp+2)*( -xint + xint**2 )
-        sx(1) = 1. - sx(0)
+        sx(0+dix) = 1. - xint  + 1._num/(4*iixp+2)*( -xint + xint**2 )
+        sx(1+dix) = 1. - sx(0+dix)
       else! Standard method, canonical shapes in r
         select case(nox)
         case(0)
-- 
2.43.0


From c2ccc66cdc0f134e6053191e2cc749c55aa1d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:45 +0000
Subject: [PATCH 74/79] fix: loading of particles with a given velocity used a
 species before pointing to it

---
 src/parallelization/tiling/tiling.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index bb10629..2fd6023 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -1007,8 +1007,8 @@ MODULE tiling
       !!! --- Sets-up particle space distribution (random space with a given velocity)
     ELSE IF (pdistr .EQ. 3) THEN
       DO ispecies=1, nspecies
-        IF (curr%is_antenna) CYCLE
         curr=>species_parray(ispecies)
+        IF (curr%is_antenna) CYCLE
         jmin = NINT(MAX(curr%x_min-x_min_local, 0.0_num)/dx)
         jmax = NINT(MIN(curr%x_max-x_min_local, x_max_local-x_min_local)/dx)
         kmin = NINT(MAX(curr%y_min-y_min_local, 0.0_num)/dy)
-- 
2.43.0


From 153dbb18e3a1f042c828a71daaa854f5504f582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:56 +0000
Subject: [PATCH 75/79] fix: random loading ignored the bounds of the species,
 and did not work in 2D

---
 src/parallelization/tiling/tiling.F90 | 60 ++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/parallelization/tiling/tiling.F90 b/src/parallelization/tiling/tiling.F90
index 2fd6023..bb9e109 100644
--- a/src/parallelization/tiling/tiling.F90
+++ b/src/parallelization/tiling/tiling.F90
@@ -966,8 +966,13 @@ MODULE tiling
         IF (curr%is_antenna) CYCLE
         jmin = NINT(MAX(curr%x_min-x_min_local, 0.0_num)/dx)
         jmax = NINT(MIN(curr%x_max-x_min_local, x_max_local-x_min_local)/dx)
-        kmin = NINT(MAX(curr%y_min-y_min_local, 0.0_num)/dy)
-        kmax = NINT(MIN(curr%y_max-y_min_local, y_max_local-y_min_local)/dy)
+        IF (c_dim.eq.2) THEN
+          kmin = 0
+          kmax = 1
+        ELSE
+          kmin = NINT(MAX(curr%y_min-y_min_local, 0.0_num)/dy)
+          kmax = NINT(MIN(curr%y_max-y_min_local, y_max_local-y_min_local)/dy)
+        ENDIF
         lmin = NINT(MAX(curr%z_min-z_min_local, 0.0_num)/dz)
         lmax = NINT(MIN(curr%z_max-z_min_local, z_max_local-z_min_local)/dz)
         DO l=lmin, lmax-1
@@ -976,10 +981,14 @@ MODULE tiling
               DO ipart=1, curr%nppcell
                 CALL RANDOM_NUMBER(rng(1:6))
                 ! Sets positions and weight
-                partx = x_min_local+MIN(rng(1), 0.999_num)*(x_max_local-x_min_local)
-                party = y_min_local+MIN(rng(2), 0.999_num)*(y_max_local-y_min_local)
-                partz = z_min_local+MIN(rng(3), 0.999_num)*(z_max_local-z_min_local)
-                partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
+                partx = x_min_local+(jmin+MIN(rng(1), 0.999_num)*(jmax-jmin))*dx
+                partz = z_min_local+(lmin+MIN(rng(3), 0.999_num)*(lmax-lmin))*dz
+                IF (c_dim.eq.2) THEN
+                  partpid(wpid) = nc*dx*dz/(curr%nppcell)
+                ELSE
+                  party = y_min_local+(kmin+MIN(rng(2), 0.999_num)*(kmax-kmin))*dy
+                  partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
+                ENDIF
                 ! Sets velocity
                 v=MAX(1e-10_num, rng(4))
                 th=2*pi*rng(5)
@@ -995,8 +1004,13 @@ MODULE tiling
                 partuz = partvz /gaminv
 
                 ! Adds particle to array of tiles of current species
-                CALL add_particle_to_species(curr, partx, party, partz, partux,       &
-                partuy, partuz, gaminv, partpid)
+                IF (c_dim.eq.2) THEN
+                  CALL add_particle_to_species_2d(curr, partx, partz, partux, partuy,  &
+                  partuz, gaminv, partpid)
+                ELSE
+                  CALL add_particle_to_species(curr, partx, party, partz, partux,     &
+                  partuy, partuz, gaminv, partpid)
+                ENDIF
               END DO
             END DO
           END DO
@@ -1011,8 +1025,13 @@ MODULE tiling
         IF (curr%is_antenna) CYCLE
         jmin = NINT(MAX(curr%x_min-x_min_local, 0.0_num)/dx)
         jmax = NINT(MIN(curr%x_max-x_min_local, x_max_local-x_min_local)/dx)
-        kmin = NINT(MAX(curr%y_min-y_min_local, 0.0_num)/dy)
-        kmax = NINT(MIN(curr%y_max-y_min_local, y_max_local-y_min_local)/dy)
+        IF (c_dim.eq.2) THEN
+          kmin = 0
+          kmax = 1
+        ELSE
+          kmin = NINT(MAX(curr%y_min-y_min_local, 0.0_num)/dy)
+          kmax = NINT(MIN(curr%y_max-y_min_local, y_max_local-y_min_local)/dy)
+        ENDIF
         lmin = NINT(MAX(curr%z_min-z_min_local, 0.0_num)/dz)
         lmax = NINT(MIN(curr%z_max-z_min_local, z_max_local-z_min_local)/dz)
         DO l=lmin, lmax-1
@@ -1021,10 +1040,14 @@ MODULE tiling
               DO ipart=1, curr%nppcell
                 CALL RANDOM_NUMBER(rng(1:6))
                 ! Sets positions and weight
-                partx = x_min_local+MIN(rng(1), 0.999_num)*(x_max_local-x_min_local)
-                party = y_min_local+MIN(rng(2), 0.999_num)*(y_max_local-y_min_local)
-                partz = z_min_local+MIN(rng(3), 0.999_num)*(z_max_local-z_min_local)
-                partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
+                partx = x_min_local+(jmin+MIN(rng(1), 0.999_num)*(jmax-jmin))*dx
+                partz = z_min_local+(lmin+MIN(rng(3), 0.999_num)*(lmax-lmin))*dz
+                IF (c_dim.eq.2) THEN
+                  partpid(wpid) = nc*dx*dz/(curr%nppcell)
+                ELSE
+                  party = y_min_local+(kmin+MIN(rng(2), 0.999_num)*(kmax-kmin))*dy
+                  partpid(wpid) = nc*dx*dy*dz/(curr%nppcell)
+                ENDIF
 
                 ! Sets velocity
                 v=MAX(1e-10_num, rng(4))
@@ -1041,8 +1064,13 @@ MODULE tiling
                 partuz = partvz /gaminv
 
                 ! Adds particle to array of tiles of current species
-                CALL add_particle_to_species(curr, partx, party, partz, partux,       &
-                partuy, partuz, gaminv, partpid)
+                IF (c_dim.eq.2) THEN
+                  CALL add_particle_to_species_2d(curr, partx, partz, partux, partuy,  &
+                  partuz, gaminv, partpid)
+                ELSE
+                  CALL add_particle_to_species(curr, partx, party, partz, partux,     &
+                  partuy, partuz, gaminv, partpid)
+                ENDIF
               END DO
             END DO
           END DO
-- 
2.43.0


From 96624fca366f1490372665f29a6b4bb372324fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:06 +0000
Subject: [PATCH 76/79] fix: hybrid spectral solver crashed with mpicom_curr=2
 (requests not allocated)

---
 src/housekeeping/load_balancing.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/housekeeping/load_balancing.F90 b/src/housekeeping/load_balancing.F90
index 7d44866..1195358 100644
--- a/src/housekeeping/load_balancing.F90
+++ b/src/housekeeping/load_balancing.F90
@@ -1157,7 +1157,7 @@ END SUBROUTINE get_2Dintersection
   !-- if non blocking comms are used then computes then number of called mpi_isend
   !-- mpi_irecv for each field component exchanged 
   !-- this is important to allocate a suitable mpi_requests array 
-  IF(mpicom_curr .EQ. 0) THEN
+  IF(mpicom_curr .NE. 1) THEN
     n=0
     DO i=1,nprocy
       DO j=1,nprocz
-- 
2.43.0


From ff9d3ae9a803627d56c875533059b2eb673e6ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:23 +0000
Subject: [PATCH 77/79] fix: spacing along z of the field reader was only set
 in 2D

---
 utils/postprocessing/Field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/postprocessing/Field.py b/utils/postprocessing/Field.py
index 55ba236..e2cc477 100644
--- a/utils/postprocessing/Field.py
+++ b/utils/postprocessing/Field.py
@@ -82,7 +82,7 @@ class Field:
     else:
 	#2d case
         self.dy = 1
-        self.dz = self.z[1] - self.z[0]
+    self.dz = self.z[1] - self.z[0]
 
     self.f = np.zeros([self.nz,self.ny,self.nx])
 
-- 
2.43.0


From 40d74a96c045522c8ed006dea700c0c81550f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:23 +0000
Subject: [PATCH 78/79] fix: array reader took the header of the field files
 for data and mixed up the dimensions

---
 utils/postprocessing/PyLoadArrayPicsar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/postprocessing/PyLoadArrayPicsar.py b/utils/postprocessing/PyLoadArrayPicsar.py
index cadd818..0adbb17 100755
--- a/utils/postprocessing/PyLoadArrayPicsar.py
+++ b/utils/postprocessing/PyLoadArrayPicsar.py
@@ -47,10 +47,11 @@ def LoadBinNumPyArray3D(filename,dimx,dimy,dimz):
     Read Picsar output field arrays
     """
     fd=open(filename,'rb');
+    fd.seek(60) # header: limits and number of cells along each axis
     dim=np.zeros(3,dtype=np.int32)
-    dim[0]=dimx;
+    dim[0]=dimz;
     dim[1]=dimy;
-    dim[2]=dimz;
+    dim[2]=dimx;
     Mat3D = np.transpose(np.reshape(np.fromfile(fd,dtype=np.float64,count=np.prod(dim)),dim));
     return Mat3D
 
-- 
2.43.0


From 591ef222b84e57b786efebdac3a0136348cedfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:23 +0000
Subject: [PATCH 79/79] fix: times of the temporal diagnostics reader were not
 spaced by the period

---
 utils/postprocessing/PyLoadArrayPicsar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/postprocessing/PyLoadArrayPicsar.py b/utils/postprocessing/PyLoadArrayPicsar.py
index 0adbb17..df06bc0 100755
--- a/utils/postprocessing/PyLoadArrayPicsar.py
+++ b/utils/postprocessing/PyLoadArrayPicsar.py
@@ -77,14 +77,14 @@ def read_picsar_temporal_diags(filename):
   
   if nc > 1:
     array = zeros([nc,nl])
-    t = linspace(0,nl*dt,nl)
+    t = dt*arange(nl)
     
     for i in range(nl):
       for j in range(nc):
         array[j,i] = struct.unpack("d", fileContent[l:l+8])[0]; l+=8
   else:
     array = zeros(nl)
-    t = linspace(0,nl*dt,nl)
+    t = dt*arange(nl)
     
     for i in range(nl):
         array[i] = struct.unpack("d", fileContent[l:l+8])[0]; l+=8   
-- 
2.43.0

