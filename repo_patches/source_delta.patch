From ccdd59e22a13ea5eb602e3ec9f9c5ddcb6b00cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 01/87] fix: use the y size for the second index in
 Grid::overlay_xy

overlay_xy addressed the second dimension with x_real_size (and the first
one with y_real_size), so diagonal domains of non-square grids exchanged
wrong cells or memory outside of the grid.
---
 include/algo/grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index 1343cd4..ff18a30 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -138,11 +138,11 @@ public:
       for (unsigned int d = 0; d < o_s; ++d)
         for (unsigned int e = 0; e < o_s; ++e)
         {
-          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][x_real_size-1-e];
-          grid[x_real_size-2*o_s+d][x_real_size-2*o_s+e] += rhsgrid.grid[d][e];
+          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][y_real_size-1-e];
+          grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e] += rhsgrid.grid[d][e];
 
-          rhsgrid.grid[d][e] = grid[y_real_size-2*o_s+d][y_real_size-2*o_s+e];
-          grid[x_real_size-1-d][x_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
+          rhsgrid.grid[d][e] = grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e];
+          grid[x_real_size-1-d][y_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
         }
     else
     {
-- 
2.43.0


From 1e84c9d718d88bb8c43ce982aa63b5b62d0c41bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:54 +0000
Subject: [PATCH 02/87] fix: stitch anti-diagonal domains' corner cells

Overlays exchanged the corner cells of (i,j) with (i+1,j+1), but never of
(i+1,j) with (i,j+1): currents deposited to the anti-diagonal domain were
lost and fields, seen there by particles, were zero.
---
 include/algo/grid.hpp   | 19 +++++++++++++++++++
 include/algo/grid3d.hpp |  7 +++++++
 src/SMB.cpp             | 10 ++++++++++
 3 files changed, 36 insertions(+)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index ff18a30..b5f6c9b 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -150,6 +150,25 @@ public:
     }
   };
 
+  void overlay_yx(Grid<T> rhsgrid)
+  // anti-diagonal neighbour: rhs grid is next by x and previous by y
+  {
+    if (x_real_size == rhsgrid.x_real_size && y_real_size == rhsgrid.y_real_size)
+      for (unsigned int d = 0; d < o_s; ++d)
+        for (unsigned int e = 0; e < o_s; ++e)
+        {
+          rhsgrid.grid[2*o_s-d-1][y_real_size-2*o_s+e] += grid[x_real_size-1-d][e];
+          grid[x_real_size-2*o_s+d][2*o_s-e-1] += rhsgrid.grid[d][y_real_size-1-e];
+
+          rhsgrid.grid[d][y_real_size-1-e] = grid[x_real_size-2*o_s+d][2*o_s-e-1];
+          grid[x_real_size-1-d][e] = rhsgrid.grid[2*o_s-d-1][y_real_size-2*o_s+e];
+        }
+    else
+    {
+      LOG_S(FATAL) << "overlay_yx: X or Y sizes of top-left and bottom-right grid are not equal. Can not overlay";
+    }
+  };
+
   void copy(Grid<T> rhs)
   // fully copy rhs grid to current grid element-by-element
   {
diff --git a/include/algo/grid3d.hpp b/include/algo/grid3d.hpp
index b525241..5e7f25e 100644
--- a/include/algo/grid3d.hpp
+++ b/include/algo/grid3d.hpp
@@ -61,6 +61,13 @@ public:
     z_component.overlay_xy(trgrid.z_component);
   };
 
+  void overlay_yx(Grid3D<T> trgrid)
+  {
+    r_component.overlay_yx(trgrid.r_component);
+    phi_component.overlay_yx(trgrid.phi_component);
+    z_component.overlay_yx(trgrid.z_component);
+  };
+
   void overlay_set(T value)
   {
     r_component.overlay_set(value);
diff --git a/src/SMB.cpp b/src/SMB.cpp
index b3677ba..eb71a97 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -591,6 +591,9 @@ void SMB::current_overlay ()
           {
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->current->current.overlay_xy(dst_domain->current->current);
+
+            // anti-diagonal neighbours share corner cells too
+            domains(i, j + 1)->current->current.overlay_yx(domains(i + 1, j)->current->current);
           }
         }
     }
@@ -818,6 +821,10 @@ void SMB::field_h_overlay ()
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->maxwell_solver->field_h.overlay_xy(dst_domain->maxwell_solver->field_h);
             sim_domain->maxwell_solver->field_h_at_et.overlay_xy(dst_domain->maxwell_solver->field_h_at_et);
+
+            // anti-diagonal neighbours share corner cells too
+            domains(i, j + 1)->maxwell_solver->field_h.overlay_yx(domains(i + 1, j)->maxwell_solver->field_h);
+            domains(i, j + 1)->maxwell_solver->field_h_at_et.overlay_yx(domains(i + 1, j)->maxwell_solver->field_h_at_et);
           }
         }
     }
@@ -1039,6 +1046,9 @@ void SMB::field_e_overlay ()
           {
             Domain *dst_domain = domains(i + 1, j + 1);
             sim_domain->maxwell_solver->field_e.overlay_xy(dst_domain->maxwell_solver->field_e);
+
+            // anti-diagonal neighbours share corner cells too
+            domains(i, j + 1)->maxwell_solver->field_e.overlay_yx(domains(i + 1, j)->maxwell_solver->field_e);
           }
         }
     }
-- 
2.43.0


From 40b488880c3e1f57c707a3fe4ecc544bdee02ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 03/87] fix: initialize use_rel in the adaptive Boris pusher

---
 src/pusher/pusherBoris.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pusher/pusherBoris.cpp b/src/pusher/pusherBoris.cpp
index 046e90d..10637b0 100644
--- a/src/pusher/pusherBoris.cpp
+++ b/src/pusher/pusherBoris.cpp
@@ -35,7 +35,7 @@ void PusherBoris::operator()()
       // define vars directly in loop, because of multithreading
       double charge_over_2mass_dt, const2, sq_velocity;
 #ifdef SWITCH_PUSHER_BORIS_ADAPTIVE
-      bool use_rel; // use relativistic calculations
+      bool use_rel = false; // use relativistic calculations
 #endif // SWITCH_PUSHER
 #if defined(SWITCH_PUSHER_BORIS_ADAPTIVE) || defined(SWITCH_PUSHER_BORIS_RELATIVISTIC) // do not use gamma in non-relativistic boris pusher
       double gamma = 1;
-- 
2.43.0


From 482837046499cb691eb7550024c7a0bc2d9048b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 04/87] fix: correct the rotation matrix and gamma
 normalization of the Higuera-Cary pusher

---
 src/pusher/pusherHC.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pusher/pusherHC.cpp b/src/pusher/pusherHC.cpp
index 7b39a80..cfe7b48 100644
--- a/src/pusher/pusherHC.cpp
+++ b/src/pusher/pusherHC.cpp
@@ -72,7 +72,7 @@ void PusherHC::operator()()
       um += psm;
       // Intermediate gamma factor: only this part differs from the Boris scheme
       // Square Gamma factor from um
-      double gfm2 = (1. + um.length2());
+      double gfm2 = (1. + um.length2() / LIGHT_VEL_POW_2);
 
       b *= charge_over_2mass_dt * MAGN_CONST;
       B2 = b.length2();
@@ -82,7 +82,7 @@ void PusherHC::operator()()
                                 sqrt ( pow( gfm2 - B2, 2 )
                                        + 4.0 * ( B2 + pow( b[0]*um[0]
                                                            + b[1]*um[1]
-                                                           + b[2]*um[2], 2 ) ) ) ) );
+                                                           + b[2]*um[2], 2 ) / LIGHT_VEL_POW_2 ) ) ) );
 
       b *= gamma;
       b2 = b;
@@ -91,10 +91,10 @@ void PusherHC::operator()()
       b_cross[0] = b[0]*b[1];
       b_cross[1] = b[1]*b[2];
       b_cross[2] = b[2]*b[0];
-      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[0] );
+      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[2] );
 
       up[0] = ( ( 1.0+b2[0]-b2[1]-b2[2] ) * um[0] + 2. * ( b_cross[0]+b[2] )
-                * um[1] + 2. * ( b_cross[2] - b[2] ) * um[2] ) * inv_det_B;
+                * um[1] + 2. * ( b_cross[2] - b[1] ) * um[2] ) * inv_det_B;
       up[1] = ( 2. * ( b_cross[0]-b[2] ) * um[0] + ( 1. - b2[0]+b2[1]-b2[2] )
                 * um[1] + 2. * ( b_cross[1] + b[0] ) * um[2] ) * inv_det_B;
       up[2] = ( 2. * ( b_cross[2] + b[1] ) * um[0] + 2. * ( b_cross[1] - b[0] )
-- 
2.43.0


From cfbcfbb00788d4574b9c6935643d686dc143e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 05/87] fix: normalize momentum by the light velocity in the
 Vay pusher's gamma

---
 src/pusher/pusherVay.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherVay.cpp b/src/pusher/pusherVay.cpp
index 025c5b8..299a080 100644
--- a/src/pusher/pusherVay.cpp
+++ b/src/pusher/pusherVay.cpp
@@ -78,7 +78,7 @@ void PusherVay::operator()()
       uplocity[2] += gamma * ( velocity[0] * b[1] - velocity[1] * b[0] );
 
       // alpha is gamma^2
-      alpha = 1. + uplocity.length2();
+      alpha = 1. + uplocity.length2() / LIGHT_VEL_POW_2;
       B2 = b.length2();
 
       //
@@ -88,7 +88,7 @@ void PusherVay::operator()()
       // s is sigma
       s = alpha - B2;
       // TODO: implement * operator for vector3d
-      us2 = pow(uplocity.dot(b), 2);
+      us2 = pow(uplocity.dot(b), 2) / LIGHT_VEL_POW_2;
 
       // alpha becomes 1/gamma^{i+1}
       alpha = 1. / sqrt( 0.5 * ( s + sqrt( s * s + 4. * ( B2 + us2 ) ) ) );
-- 
2.43.0


From dcd312213fb731670a2dbba4c57b5478d8181860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 06/87] fix: add the last E_phi contribution to the azimuthal
 component in get_field_e

---
 include/maxwellSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maxwellSolver.hpp b/include/maxwellSolver.hpp
index 9a5bf8d..eb05e6d 100644
--- a/include/maxwellSolver.hpp
+++ b/include/maxwellSolver.hpp
@@ -310,7 +310,7 @@ public:
     cmp[1] += field_e(1, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
 
     // weighting Efi[i+1][k+1]
-    cmp[2] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[1] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
 
     return cmp;
   };
-- 
2.43.0


From d3b77ea1821b0750102cc0233a3b0e9f420e4269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 07/87] fix: use the volume of the next cell, not 2i+2, in
 weight_cylindrical

---
 include/algo/weighter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/algo/weighter.hpp b/include/algo/weighter.hpp
index 5891039..ea5273c 100644
--- a/include/algo/weighter.hpp
+++ b/include/algo/weighter.hpp
@@ -44,7 +44,7 @@ void weight_cylindrical(Geometry *geometry, Grid<T> *grid, double pos_r, double
 
   // volumes
   T v_1 = CELL_VOLUME(r_i, dr, dz);
-  T v_2 = CELL_VOLUME(r_i + 1, dr, dz);
+  T v_2 = CELL_VOLUME((r_i + 1), dr, dz);
 
   if (pos_r > dr)
   {
@@ -109,7 +109,7 @@ void weight_cylindrical(Geometry *geometry, Grid<T> *grid, double pos_r, double
     dz2 = (pos_z + 0.5 * dz) - (z_k + 0.5) * dz;
     v_0 = 2. * constant::PI * dz * dr * pos_r;
     v_1 = CYL_VOL(dz, dr);
-    v_2 = CELL_VOLUME(r_i + 1, dr, dz);
+    v_2 = CELL_VOLUME((r_i + 1), dr, dz);
 
     rho_w_value = weight_value / v_0;
 
-- 
2.43.0


From 9a5ea755c6831fe2b1d448b11620ac19144b0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 08/87] fix: use the volume of the next cell for the azimuthal
 current

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 3c248b9..b5764a8 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -417,7 +417,7 @@ void CurrentVB::azimuthal_current_distribution()
       int z_k = P_CELL_Z((**i));
 
       double v_1 = CELL_VOLUME(r_i, dr, dz);  // volume of [i][k] cell
-      double v_2 = CELL_VOLUME(r_i + 1, dr, dz);  // volume of [i + 1][k] cell
+      double v_2 = CELL_VOLUME((r_i + 1), dr, dz);  // volume of [i + 1][k] cell
 
       double p_charge = (**ps).charge * P_WEIGHT((**i));
 
-- 
2.43.0


From 6dda5600866d641b178d62e01c3ea26e2b0edeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 09/87] fix: reflect particles whose local coordinate is
 exactly zero

---
 src/specieP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 1999711..4c5d84d 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -519,7 +519,7 @@ void SpecieP::reflect ()
     double pos_delta_z = pos_z - pos_old_z;
 
     while ( // catch multiple reflections
-      isnormal(pos_r) && isnormal(pos_z) && // ensure, that position components are not NANs
+      isfinite(pos_r) && isfinite(pos_z) && // ensure, that position components are not NANs
       (
         (pos_r > radius_wall && geometry->walls[2])
         || (pos_z > longitude_wall && geometry->walls[3])
-- 
2.43.0


From 9e237e3e5ee57a22dab12a333b84d1b45fd6551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 10/87] fix: keep the rotation finite for a particle landing on
 the axis

---
 src/specieP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 4c5d84d..f038df8 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -615,7 +615,7 @@ void SpecieP::back_position_to_rz()
     double pos_r = P_POS_R((**p));
     double pos_phi = P_POS_PHI((**p));
     double r = algo::common::sq_rt(pos_r * pos_r + pos_phi * pos_phi);
-    P_SIN((**p)) = pos_phi / r;
+    P_SIN((**p)) = (r > 0) ? pos_phi / r : 0;
     P_POS_R((**p)) = r;
     P_POS_PHI((**p)) = 0;
   }
-- 
2.43.0


From ed162b70f3b37e1d38c2b0300eeb21dc26518c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 11/87] fix: apply gamma to the momentum of relativistic
 particles

---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index f038df8..e816829 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -729,7 +729,7 @@ void SpecieP::calc_momentum_abs_w()
 
     double p_abs = mass * P_WEIGHT((**i)) * v_abs;
 
-    if (v_abs < REL_LIMIT)
+    if (v_abs > REL_LIMIT)
     {
       double gamma = phys::rel::lorenz_factor(pow(v_abs, 2));
       p_abs *= gamma;
@@ -761,7 +761,7 @@ void SpecieP::calc_momentum_w()
 
     // check for relativistic case
     double v_abs_2 = pow(v_r, 2) + pow(v_phi, 2) + pow(v_z, 2);
-    if (v_abs_2 < REL_LIMIT_POW_2)
+    if (v_abs_2 > REL_LIMIT_POW_2)
     {
       double gamma = phys::rel::lorenz_factor(v_abs_2);
       p_r *= gamma;
-- 
2.43.0


From 348ca59705249a430ebc02aa1065bfc6077611a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 12/87] fix: compute absolute momentum before it is used by
 calc_temperature

---
 src/specieP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index e816829..fc18281 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -683,7 +683,8 @@ void SpecieP::calc_temperature()
 
   // calculate density initially
   calc_density();
-  calc_momentum_w(); // calculates absolute momentum values also
+  calc_momentum_w();
+  calc_momentum_abs_w();
 
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
-- 
2.43.0


From b3de4e25ef98b1ec064a4537dab4e5dd64b502e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:19 +0000
Subject: [PATCH 13/87] fix: report z moves over more than one cell in the
 Villasenor-Buneman current

---
 src/current/currentVB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index b5764a8..830f468 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -196,7 +196,7 @@ void CurrentVB::rz_current_distribution()
 
       int res_cell = abs(i_n - i_o) + abs(k_n - k_o);
 
-      if (abs (i_n - i_o) > 1 || abs (i_n - i_o) > 1)
+      if (abs (i_n - i_o) > 1 || abs (k_n - k_o) > 1)
       {
         LOG_S(ERROR) << "rz_current_distribution: can not weight particle's currents. It moved to more than one grid cell. Particle's position (r_old:r_new, z_old:z_new): "
                      << i_o << ":" << i_n << ", "
-- 
2.43.0


From f79d7008793dc72b13b1a2722cc9e41d63704a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:19 +0000
Subject: [PATCH 14/87] fix: do not erase the radial current of other particles
 on strict axial motion

---
 src/current/currentVB.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 830f468..4ea7193 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -543,11 +543,6 @@ void CurrentVB::strict_motion_distribution(double radius_new,
       / (delta_t * 2 * PI * (i_n + 1) * dr * dr)
       * PI * (r3 * r3 - r2 * r2) / value_part;
 
-    // this_j->inc_j_r(i_n, k_n, 0.);
-    // this_j->inc_j_r(i_n, k_n + 1,0.);
-    current[0].set(i_n_shift, k_n_shift, 0.);
-    current[0].set(i_n_shift, k_n_shift + 1, 0.);
-
     int res_k = k_n - k_o;
 
     switch(res_k)
-- 
2.43.0


From 4b081f3612b6fe6962e225e9a83c2da117ad7c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:19 +0000
Subject: [PATCH 15/87] fix: operator precedence in the strict radial motion
 current

---
 src/current/currentVB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 4ea7193..7ebba69 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -665,7 +665,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / (i_n * dr + delta_r)
-           + r0 * r0 / i_n * dr
+           + r0 * r0 / (i_n * dr)
            + dr * dr / (4. * (i_n * dr + delta_r))
            - dr * dr / (4. * i_n * dr));
 
@@ -706,7 +706,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / ((i_n + 1) * dr + delta_r)
-           + r0 * r0 / (i_n + 1) * dr
+           + r0 * r0 / ((i_n + 1) * dr)
            + dr * dr / (4. * ((i_n + 1) * dr + delta_r))
            - dr * dr / (4. * (i_n + 1) * dr));
 
-- 
2.43.0


From eb27cde52f03db8803f2c10e7c4da8fba6b90f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:19 +0000
Subject: [PATCH 16/87] fix: weight the current of moves through an exact cell
 corner or edge

---
 src/current/currentVB.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 7ebba69..bd4753d 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -224,7 +224,7 @@ void CurrentVB::rz_current_distribution()
           if ((i_n != i_o) && (k_n == k_o))
           {
             // moving to center from outer to innter cell
-            if (P_POS_OLD_R((**i)) > (i_n + 1) * dr)
+            if (P_POS_OLD_R((**i)) >= (i_n + 1) * dr)
             {
               double a = (P_POS_OLD_R((**i)) - P_POS_R((**i))) / (P_POS_OLD_Z((**i)) - P_POS_Z((**i)));
               double r_boundary = (i_n + 1) * dr;
@@ -301,7 +301,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>k_n * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -325,7 +325,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n-1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n-1, k_n, p_charge);
@@ -354,7 +354,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n-1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1>(k_n) * dz)
+              else
               {
                 simple_current_distribution(r2, z2 ,P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n-1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
@@ -380,7 +380,7 @@ void CurrentVB::rz_current_distribution()
                 simple_current_distribution(r2, z2, r1, z1, i_n, k_n + 1, p_charge);
                 simple_current_distribution(P_POS_R((**i)), P_POS_Z((**i)), r2, z2, i_n, k_n, p_charge);
               }
-              else if (z1<(k_n + 1) * dz)
+              else
               {
                 simple_current_distribution(r2, z2, P_POS_OLD_R((**i)), P_POS_OLD_Z((**i)), i_n + 1, k_n + 1, p_charge);
                 simple_current_distribution(r1, z1, r2, z2,i_n + 1, k_n, p_charge);
-- 
2.43.0


From b8ce79b406b665bed2a794264e31b80846e68106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:19 +0000
Subject: [PATCH 17/87] fix: keep the azimuthal current in the overlay until
 domains are stitched

---
 src/current/currentVB.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index bd4753d..415972b 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -174,8 +174,6 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
 void CurrentVB::rz_current_distribution()
 {
-  current.overlay_set(0);
-
   double dr = geometry->cell_size[0];
   double dz = geometry->cell_size[1];
 
-- 
2.43.0


From d4904f53ae9d59e5fc624abdf6d5f97d0af5d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:19 +0000
Subject: [PATCH 18/87] fix: normalize the ZigZag shape factors by the cell
 size

---
 src/current/currentZigZag.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/current/currentZigZag.cpp b/src/current/currentZigZag.cpp
index 0bfd07c..993a2ac 100644
--- a/src/current/currentZigZag.cpp
+++ b/src/current/currentZigZag.cpp
@@ -78,10 +78,10 @@ void CurrentZigZag::current_distribution()
       double F_z1 = charge_over_dt * (z_relay_pos - z_pos_old);
       double F_z2 = charge_over_dt * (z_pos_new - z_relay_pos);
 
-      double W_r1 = (r_pos_old + r_relay_pos) / 2 - i_o * dr;
-      double W_r2 = (r_pos_new + r_relay_pos) / 2 - i_n * dr;
-      double W_z1 = (z_pos_old + z_relay_pos) / 2 - k_o * dz;
-      double W_z2 = (z_pos_new + z_relay_pos) / 2 - k_n * dz;
+      double W_r1 = (r_pos_old + r_relay_pos) / (2 * dr) - i_o;
+      double W_r2 = (r_pos_new + r_relay_pos) / (2 * dr) - i_n;
+      double W_z1 = (z_pos_old + z_relay_pos) / (2 * dz) - k_o;
+      double W_z2 = (z_pos_new + z_relay_pos) / (2 * dz) - k_n;
 
       double one_minus_Wr1 = 1 - W_r1;
       double one_minus_Wr2 = 1 - W_r2;
@@ -101,7 +101,7 @@ void CurrentZigZag::current_distribution()
       // Let \f$ \phi_{relay} = \phi_{1} = 0
       // because geometry is axisymmetric
       double Jphi_i_jh_k = one_over_volume * F_phi * one_minus_Wr2 * one_minus_Wz2;
-      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z1;
+      double Jphi_i_jh_k_1 = one_over_volume * F_phi * one_minus_Wr2 * W_z2;
       double Jphi_i_1_jh_k = one_over_volume * F_phi * W_r2 * one_minus_Wz2;
       double Jphi_i_1_jh_k_1 = one_over_volume * F_phi * W_r2 * W_z2;
 
-- 
2.43.0


From e81a89aecb180fbb124bf501a345f1b6f84cd8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:22 +0000
Subject: [PATCH 19/87] fix: round the global cell amount instead of truncating
 it

---
 include/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometry.hpp b/include/geometry.hpp
index 64b09ab..fcc5fd8 100644
--- a/include/geometry.hpp
+++ b/include/geometry.hpp
@@ -68,7 +68,7 @@ public:
       cell_size.push_back(size[i] / cell_amount[i]);
 
     for (size_t i = 0; i < _global_size.size(); ++i)
-      global_cell_amount.push_back(global_size[i] / cell_size[i]);
+      global_cell_amount.push_back(global_size[i] / cell_size[i] + 0.5);
 
     walls = _walls;
     pml_size = _pml_size;
-- 
2.43.0


From 0ed91214dcc60bbf1d646bab6c3511cecd46d0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:31 +0000
Subject: [PATCH 20/87] fix: test the left PML by cell numbers, as the other
 walls do

With several domains, k * dz + offset could fall below the layer's length by
rounding and put one more cell into the layer than a single domain has.
---
 src/maxwellSolver/maxwellSolverYee.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maxwellSolver/maxwellSolverYee.cpp b/src/maxwellSolver/maxwellSolverYee.cpp
index bb9345d..eb41a34 100644
--- a/src/maxwellSolver/maxwellSolverYee.cpp
+++ b/src/maxwellSolver/maxwellSolverYee.cpp
@@ -89,7 +89,7 @@ void MaxwellSolverYee::set_pml()
     for(int k = 0; k < geometry->cell_amount[1]; k++)
       for(int i = 0; i < geometry->cell_amount[0]; i++)
         // z=0 wall
-        if (cell_size_z * k + longitudinal_cell_offset < lenght_sigma_left)
+        if (cell_size_z * (k + geometry->cell_dims[1]) < lenght_sigma_left)
           sigma.inc(i, k, geometry->pml_sigma[0]
                     + delta_sigma
                     / pow(lenght_sigma_left, 2)
-- 
2.43.0


From ca69dbcd27f2fd803a29960e1df972ced7563414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:31 +0000
Subject: [PATCH 21/87] fix: advance E_z on the axis in the cell next to the
 left wall

E_z at the left wall is advanced from r_begin on and E_z on the axis from
z_begin on, so the node (0, 0) was never advanced.
---
 src/maxwellSolver/maxwellSolverYee.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/maxwellSolver/maxwellSolverYee.cpp b/src/maxwellSolver/maxwellSolverYee.cpp
index eb41a34..da06603 100644
--- a/src/maxwellSolver/maxwellSolverYee.cpp
+++ b/src/maxwellSolver/maxwellSolverYee.cpp
@@ -169,7 +169,7 @@ void MaxwellSolverYee::calc_field_e()
 
   // E at the center axis (r=0) case
   if (geometry->walls[0]) // calculate only at the center axis (r=0)
-    for (unsigned int k = z_begin; k < z_end; ++k)
+    for (unsigned int k = 0; k < z_end; ++k)
     {
       int i = 0;
       double epsilonx2 = 2 * epsilon(i, k);
@@ -183,10 +183,14 @@ void MaxwellSolverYee::calc_field_e()
       double koef_e = (epsilonx2 - sigma_t) / (epsilonx2 + sigma_t);
       double koef_h =  2 * time->step / (epsilonx2 + sigma_t);
 
-      field_e[0].m_a(i, k, koef_e);
-      field_e[0].dec(i, k, (curr(0, i, k)
-                            + (field_h_at_et(1, i, k)
-                               - field_h_at_et(1, i, k-1)) / dz) * koef_h);
+      // E_r is zero at the left wall, E_z is half a cell inside it
+      if (k >= z_begin)
+      {
+        field_e[0].m_a(i, k, koef_e);
+        field_e[0].dec(i, k, (curr(0, i, k)
+                              + (field_h_at_et(1, i, k)
+                                 - field_h_at_et(1, i, k-1)) / dz) * koef_h);
+      }
 
       field_e[2].m_a(i, k, koef_e);
       field_e[2].dec(i, k, (curr(2, i, k)
-- 
2.43.0


From de8fe7d1c247ba2a03903f58abdd6dac2fd6bbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:04 +0000
Subject: [PATCH 22/87] fix: turn the velocity of a moved particle with its
 position

The rz plane follows the particle by the angle asin(phi / r), so the components
of its velocity change by the inverse rotation: a free particle with azimuthal
velocity must drift outwards, but it was turned inwards. The walls reflect the
velocity as it is at the new position, so reflect after the rotation.
---
 src/SMB.cpp     | 5 +++--
 src/specieP.cpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index eb71a97..f9af6a7 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -1306,10 +1306,11 @@ void SMB::advance_particles()
       sim_domain->update_particles_coords();
       sim_domain->particles_back_position_to_rz();
 
-      sim_domain->reflect();
-
       sim_domain->particles_back_velocity_to_rz();
 
+      // walls are seen from the place, where the particle is
+      sim_domain->reflect();
+
       sim_domain->bind_cell_numbers();
     }
   particles_runaway_collector();
diff --git a/src/specieP.cpp b/src/specieP.cpp
index fc18281..88b73b4 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -632,8 +632,8 @@ void SpecieP::back_velocity_to_rz()
     double v_r = P_VEL_R((**p));
     double v_phi = P_VEL_PHI((**p));
 
-    double u_2 = cos * v_r - sin * v_phi;
-    double v_2 = sin * v_r + cos * v_phi;
+    double u_2 = cos * v_r + sin * v_phi;
+    double v_2 = cos * v_phi - sin * v_r;
     P_VEL_R((**p)) = u_2;
     P_VEL_PHI((**p)) = v_2;
   }
-- 
2.43.0


From 10587435a6325fa555f0c4f41741f1436417f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:04 +0000
Subject: [PATCH 23/87] fix: turn the velocity of a particle that flew over the
 axis

Its radial velocity pointed to the axis it had just passed.
---
 src/specieP.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 88b73b4..989799c 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -616,6 +616,14 @@ void SpecieP::back_position_to_rz()
     double pos_phi = P_POS_PHI((**p));
     double r = algo::common::sq_rt(pos_r * pos_r + pos_phi * pos_phi);
     P_SIN((**p)) = (r > 0) ? pos_phi / r : 0;
+    if (pos_r < 0)
+    {
+      // the particle flew over the axis, so it turned by more, than pi/2
+      // (P_COS could not be less, than zero)
+      P_SIN((**p)) = - P_SIN((**p));
+      P_VEL_R((**p)) = - P_VEL_R((**p));
+      P_VEL_PHI((**p)) = - P_VEL_PHI((**p));
+    }
     P_POS_R((**p)) = r;
     P_POS_PHI((**p)) = 0;
   }
-- 
2.43.0


From 23ea036cc66a6a7f33ec2e5917e301c4169f1199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:01 +0000
Subject: [PATCH 24/87] fix: do not hand particles over to a domain from two
 threads at once

With four or more domains by radius, domains 0 and 2 are handled in parallel
and both may push particles to domain 1.
---
 src/SMB.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index f9af6a7..1d8d9ac 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -254,6 +254,7 @@ void SMB::particles_runaway_collector ()
                     LOG_S(ERROR) << "Particle's position is less, than 0. Position is: ["
                                  << P_POS_R((*o)) << ", "
                                  << P_POS_Z((*o)) << "]. Removing";
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -264,12 +265,14 @@ void SMB::particles_runaway_collector ()
 #ifdef ENABLE_MPI
                   else if (z_cell < __geometry->cell_dims[1])
                   {
+#pragma omp critical
                     queue_particles_minus.push_back(o);
                     res = true;
                   }
                   // send particle to next SMB
                   else if (z_cell >= __geometry->cell_dims[3])
                   {
+#pragma omp critical
                     queue_particles_plus.push_back(o);
                     res = true;
                   }
@@ -291,6 +294,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -312,6 +316,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -319,6 +324,7 @@ void SMB::particles_runaway_collector ()
                   // move particles between cells
                   else if (i_dst != i || j_dst != j) // check that destination domain is different, than source
                   {
+#pragma omp atomic
                     ++j_c;
 
                     Domain *dst_domain = __domains(i_dst, j_dst);
@@ -331,6 +337,8 @@ void SMB::particles_runaway_collector ()
                                    << i << "," << j
                                    << "'' to domain ``"
                                    << i_dst << "," << j_dst << "''";
+                        // domain could get particles from both sides at once
+#pragma omp critical
                         (**pd).particles.push_back(o);
                       }
 
-- 
2.43.0


From 49ae858bd40ce7f9110d1248a862b0ee40b1b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:01 +0000
Subject: [PATCH 25/87] fix: use a random numbers generator per thread

The domains draw velocities and inject beams in parallel from a shared
generator.
---
 src/math/rand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/rand.cpp b/src/math/rand.cpp
index b80387c..bc4354c 100644
--- a/src/math/rand.cpp
+++ b/src/math/rand.cpp
@@ -21,8 +21,8 @@ using namespace std;
 
 namespace math::random
 {
-  std::random_device device;
-  std::mt19937 gen(device());
+  // domains are filled in parallel, so every thread needs its own generator
+  thread_local std::mt19937 gen(std::random_device{}());
 
   std::uniform_real_distribution<double> uniform_distribution(0., 1.);
   double uniform()
-- 
2.43.0


From 331c0a66ccd805b547fb2caace5cd8fca38281a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:15 +0000
Subject: [PATCH 26/87] fix: align macroparticles amount by the number of cells

The ratio of sizes is not always a whole number because of rounding, so
the search for the nearest divisible number ran until the overflow
---
 src/specieP.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 989799c..9a4bb53 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -45,12 +45,7 @@ SpecieP::SpecieP (unsigned int p_id,
 /// spatial distributions
 #if defined(SWITCH_PLASMA_SPATIAL_REGULAR) || defined(SWITCH_PLASMA_SPATIAL_CENTERED)
   LOG_S(MAX) << "Correcting domain plasma particles macro amount to satisfy spatial distribution";
-  double r_size = geometry->size[0];
-  double z_size = geometry->size[1];
-  double dr = geometry->cell_size[0];
-  double dz = geometry->cell_size[1];
-
-  macro_amount = algo::common::nearest_divide(p_macro_amount, r_size / dr * z_size / dz);
+  macro_amount = algo::common::nearest_divide(p_macro_amount, geometry->cell_amount[0] * geometry->cell_amount[1]);
 #else
   macro_amount = p_macro_amount;
 #endif // WITH_PLASMA_SPATIAL
-- 
2.43.0


From 60104a3eea708877bee41fe391664b1ed4a86f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:39 +0000
Subject: [PATCH 27/87] fix: give thermal particles their configured
 temperature

The Maxwell-Juettner sampling expects temperature in units of rest
energy, not in electronvolts
---
 src/specieP.cpp | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 9a4bb53..0747ef3 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -340,39 +340,28 @@ void SpecieP::velocity_distribution ()
 
 void SpecieP::thermal_velocity_distribution ()
 {
+  // rest energy in electronvolts
+  const double rest_energy = mass * LIGHT_VEL_POW_2 * EL_CHARGE_INV;
+
   // Sample the energies in the MJ distribution
-  vector<double> energies = math::maxwell_juettner::maxwellJuettner(macro_amount, temperature);
+  // (temperature and energies are in units of the rest energy)
+  vector<double> energies = math::maxwell_juettner::maxwellJuettner(macro_amount, temperature / rest_energy);
 
   unsigned int macro_count = 0;
 
-  double two_over_mass = 2 * EL_CHARGE / mass; // '* EL_CHARGE' - convert eV to J
-  double mc_inv = EL_CHARGE / (mass * LIGHT_VEL); // 'EL_CHARGE /' - convert eV to J
-
-  // normalize to 1 / sqrt(2).
-  // TODO: I don't know, why, but it returns temperature correct values
-  const double norm = 0.7071067811865475;
-
   for (auto p = particles.begin(); p != particles.end(); ++p)
   {
-    double therm_vel_cmp = energies[macro_count] * mc_inv;
+    double energy = energies[macro_count];
+    double therm_vel = LIGHT_VEL * algo::common::sq_rt(energy * (energy + 2)) / (energy + 1);
 
-    if (therm_vel_cmp > REL_LIMIT)
-    {
-      double gamma_inv = phys::rel::lorenz_factor_inv(pow(therm_vel_cmp, 2));
-      therm_vel_cmp *= gamma_inv;
-    }
-    else
-      therm_vel_cmp = algo::common::sq_rt(energies[macro_count] * two_over_mass);
-
-    therm_vel_cmp *= norm;
-
-    double rnd_0 = math::random::uniform2();
-    double rnd_1 = math::random::uniform2();
-    double rnd_2 = math::random::uniform2();
+    // all directions are equally possible
+    double cos_theta = math::random::uniform2();
+    double sin_theta = algo::common::sq_rt(1 - cos_theta * cos_theta);
+    double phi = math::random::uniform_angle();
 
-    P_VEL_R((**p)) = rnd_0 * therm_vel_cmp;
-    P_VEL_PHI((**p)) = rnd_1 * therm_vel_cmp;
-    P_VEL_Z((**p)) = rnd_2 * therm_vel_cmp;
+    P_VEL_R((**p)) = therm_vel * sin_theta * cos(phi);
+    P_VEL_PHI((**p)) = therm_vel * sin_theta * sin(phi);
+    P_VEL_Z((**p)) = therm_vel * cos_theta;
 
     ++macro_count;
   }
-- 
2.43.0


From 9407e25450aa2dc41e1be04f3f062aeb836ab530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:34 +0000
Subject: [PATCH 28/87] fix: do not start hot particles faster than light

Gamma of the rectangular and eigen velocity distributions was computed
from one of three components
---
 src/specieP.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 0747ef3..4bc7b89 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -377,7 +377,8 @@ void SpecieP::rectangular_velocity_distribution ()
 
   if (therm_vel_cmp > REL_LIMIT)
   {
-    double gamma_inv = phys::rel::lorenz_factor_inv(pow(therm_vel_cmp, 2));
+    // all of three components could have such value
+    double gamma_inv = phys::rel::lorenz_factor_inv(3 * pow(therm_vel_cmp, 2));
     therm_vel_cmp *= gamma_inv;
   }
   else
@@ -408,7 +409,8 @@ void SpecieP::eigen_velocity_distribution ()
 
   if (therm_vel_cmp > REL_LIMIT)
   {
-    double gamma_inv = phys::rel::lorenz_factor_inv(pow(therm_vel_cmp, 2));
+    // all of three components could have such value
+    double gamma_inv = phys::rel::lorenz_factor_inv(3 * pow(therm_vel_cmp, 2));
     therm_vel_cmp *= gamma_inv;
   }
   else
-- 
2.43.0


From bb52e4b018d84384308951315f8b82910cd0ddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:21 +0000
Subject: [PATCH 29/87] fix: invert the Maxwell distribution at low energies

The constant 3/4 was 4/3, and it belongs under the power
---
 include/constant.hpp         | 2 +-
 src/math/maxwellJuettner.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/constant.hpp b/include/constant.hpp
index 95b01eb..c1d8dfb 100644
--- a/include/constant.hpp
+++ b/include/constant.hpp
@@ -31,7 +31,7 @@ namespace constant
   const double ONE_OVER_3 = 1. / 3.;
   const double TWO_OVER_3 = 2. / 3.;
   const double FOUR_OVER_3 = 4. / 3.;
-  const double THREE_OVER_4 = 4. / 3.;
+  const double THREE_OVER_4 = 3. / 4.;
   // PI constant
   const double PI = 3.1415926535897932;
   // Vacuum permittivity (electric constant), F*m(e-1)
diff --git a/src/math/maxwellJuettner.cpp b/src/math/maxwellJuettner.cpp
index c4c412d..83cfa6f 100644
--- a/src/math/maxwellJuettner.cpp
+++ b/src/math/maxwellJuettner.cpp
@@ -345,7 +345,7 @@ namespace math::maxwell_juettner
         // Calculate the inverse of F
         lnlnU = log(-log(U));
         if( lnlnU>2. )
-          invF = constant::THREE_OVER_4 * sqrt(constant::PI) * pow(U, constant::TWO_OVER_3);
+          invF = pow(constant::THREE_OVER_4 * sqrt(constant::PI) * U, constant::TWO_OVER_3);
         else if ( lnlnU<-19. )
           invF = 1.;
         else {
-- 
2.43.0


From 3952cc0a67b33c82d598b3292e2c72e6c4f31e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:21 +0000
Subject: [PATCH 30/87] fix: number the axial cell of an injected particle by
 its axial position

---
 src/beamP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index caeda24..aedef1e 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -134,7 +134,7 @@ void BeamP::inject()
 
         // set cell numbers
         int r_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[0]);
-        int z_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[1]);
+        int z_cell = CELL_NUMBER(P_POS_Z((*v)), geometry->cell_size[1]);
 
         P_CELL_R((*v)) = r_cell;
         P_CELL_Z((*v)) = z_cell;
-- 
2.43.0


From 8be91e8d93289206e250b6734b5d5978d48e6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:21 +0000
Subject: [PATCH 31/87] fix: inject every bunch of a beam in every domain

Bunches were counted by the domain 0,0 only, so other domains injected
just the first one
---
 src/beamP.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index aedef1e..06d3dee 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -70,6 +70,18 @@ BeamP::BeamP (unsigned int id, // ID for every particles specie
 
 void BeamP::inject()
 {
+  // increase current bunch number after whole bunch injection
+  while (current_bunch_number < bunches_amount
+         && time->current >= start_time
+         + (bunch_length + bunches_distance) / velocity * current_bunch_number
+         + bunch_length / velocity)
+  {
+    if (geometry->cell_dims[1] == 0 // print message only for domain 0,0
+        && geometry->cell_dims[0] == 0)
+      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
+    ++current_bunch_number;
+  }
+
   // check if limit of bunches is reached
   if (current_bunch_number < bunches_amount)
   {
@@ -144,15 +156,6 @@ void BeamP::inject()
         // particles_old.push_back(v_old);
       }
     }
-
-    // increase current bunch number after whole bunch injection
-    if (time->current > bunch_finish_time
-        && geometry->cell_dims[1] == 0 // print message only for domain 0,0
-        && geometry->cell_dims[0] == 0)
-    {
-      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
-      ++current_bunch_number;
-    }
   }
 }
 
-- 
2.43.0


From fd26f8c7a07a4007424d579da56dfc66202c41b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:21 +0000
Subject: [PATCH 32/87] fix: inject as many beam macroparticles, as configured

Amounts per bunch were truncated and amounts per step rounded up, so
the beam had wrong charge
---
 include/beamP.hpp | 1 +
 src/beamP.cpp     | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/beamP.hpp b/include/beamP.hpp
index 9d967a7..2ed4b75 100644
--- a/include/beamP.hpp
+++ b/include/beamP.hpp
@@ -38,6 +38,7 @@ public:
   double bunch_length;
   double bunch_macro_amount;
   double macro_per_step_to_inject;
+  double macro_to_inject;
   double domain_radius;
 
 public:
diff --git a/src/beamP.cpp b/src/beamP.cpp
index 06d3dee..fed1376 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -63,9 +63,10 @@ BeamP::BeamP (unsigned int id, // ID for every particles specie
 
   double macro_normalizer = domain_radius / radius;
 
-  bunch_macro_amount = macro_amount / bunches_amount * macro_normalizer;
+  bunch_macro_amount = (double)macro_amount / bunches_amount * macro_normalizer;
 
   macro_per_step_to_inject = bunch_macro_amount * velocity * time->step / bunch_length;
+  macro_to_inject = 0;
 }
 
 void BeamP::inject()
@@ -109,7 +110,10 @@ void BeamP::inject()
       double N_total = PI * radius * radius * bunch_length * bunches_amount * density;
       double n_per_macro_avg = N_total / macro_amount;
 
-      for (unsigned int i = 0; i < macro_per_step_to_inject; ++i)
+      // collect fractional parts of macroparticles from previous steps
+      macro_to_inject += macro_per_step_to_inject;
+
+      for (; macro_to_inject >= 1; --macro_to_inject)
       {
         Particle *v = new Particle();
         P_SPECIE_ID((*v)) = id;
-- 
2.43.0


From b7e4fe14a1faf23b10e5a02640e80e7a6798ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:32 +0000
Subject: [PATCH 33/87] fix: normalize weights of beam particles by their
 actual radii

Particles are shifted from the axis by half of the cell, so the charge
of a beam was bigger, than configured
---
 src/beamP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index fed1376..ada5786 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -106,7 +106,8 @@ void BeamP::inject()
       // average macro volume is max_volume/2
       // so radius to get such volume is r_max/sqrt(2)
       // WARNING: used only for homogenous distribution
-      double v_macro_avg = PI * radius * dr * dz;
+      // (particles are shifted from the axis by half of the cell)
+      double v_macro_avg = PI * (radius + dr) * dr * dz;
       double N_total = PI * radius * radius * bunch_length * bunches_amount * density;
       double n_per_macro_avg = N_total / macro_amount;
 
-- 
2.43.0


From a7dd7b321a762c749f2dea8d108c5db34145e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 34/87] fix: allocate dimensions of col, row and dot probes

---
 src/cfg.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index e2d09e1..c5101e8 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -212,6 +212,8 @@ void Cfg::init_probes ()
 
     object& o = i->get<object>();
 
+    p_p.dims = {0, 0, 0, 0};
+
     p_p.component = o["component"].get<string>().c_str();
 
     try { p_p.specie = o["specie"].get<string>().c_str(); }
@@ -234,10 +236,10 @@ void Cfg::init_probes ()
     if ( p_shape.compare("rec") == 0 )
     {
       p_p.shape = 0;
-      p_p.dims.push_back((size_t)o["start"].get<object>()["r"].get<double>());
-      p_p.dims.push_back((size_t)o["start"].get<object>()["z"].get<double>());
-      p_p.dims.push_back((size_t)o["end"].get<object>()["r"].get<double>());
-      p_p.dims.push_back((size_t)o["end"].get<object>()["z"].get<double>());
+      p_p.dims[0] = (size_t)o["start"].get<object>()["r"].get<double>();
+      p_p.dims[1] = (size_t)o["start"].get<object>()["z"].get<double>();
+      p_p.dims[2] = (size_t)o["end"].get<object>()["r"].get<double>();
+      p_p.dims[3] = (size_t)o["end"].get<object>()["z"].get<double>();
 
       // p_p.dims[2] = (int)o["end"].get<object>()["r"].get<double>();
       // p_p.dims[1] = (int)o["start"].get<object>()["z"].get<double>();
-- 
2.43.0


From 0ecdedf08e5cd7ae52d8e0344b9c1879bb5b12b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 35/87] fix: reject empty probes and probes next to the last
 cell

---
 src/cfg.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index c5101e8..04183e9 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -302,19 +302,25 @@ void Cfg::init_probes ()
 
     p_p.schedule = (int)o["schedule"].get<double>();
 
-    if (p_p.dims[0] > p_p.dims[2] || p_p.dims[1] > p_p.dims[3])
+    // rec covers cells from the start point up to (but not including) the end
+    // point, the others point to the cells itself
+    bool is_rec = (p_p.shape == 0);
+    size_t max_dim_r = geometry->cell_amount[0] - (is_rec || p_p.shape == 1 ? 0 : 1);
+    size_t max_dim_z = geometry->cell_amount[1] - (is_rec || p_p.shape == 2 ? 0 : 1);
+
+    if (is_rec && (p_p.dims[0] >= p_p.dims[2] || p_p.dims[1] >= p_p.dims[3]))
     {
       LOG_S(FATAL) << "Incorrect probe's " << p_p.component << "/" << p_shape << " shape: ["
                    << p_p.dims[0] << "," << p_p.dims[2] << ","
                    << p_p.dims[1] << "," << p_p.dims[3] << "]";
     }
-    else if (p_p.dims[2] > geometry->cell_amount[0])
+    else if (p_p.dims[2] > max_dim_r)
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " radius is out of simulation domain: "
                    << p_p.dims[2] << ". Must be less, than "
                    << geometry->cell_amount[0];
     }
-    else if (p_p.dims[3] > geometry->cell_amount[1])
+    else if (p_p.dims[3] > max_dim_z)
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " longitude is out of simulation domain: "
                    << p_p.dims[3] << ". Must be less, than "
-- 
2.43.0


From be8d2b65b11e95cfc1e0e1bbae0b4432f5882127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 36/87] fix: keep fractional masses and charges of particles

---
 include/cfg.hpp | 4 ++--
 src/cfg.cpp     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cfg.hpp b/include/cfg.hpp
index 3e8ba14..aec029d 100644
--- a/include/cfg.hpp
+++ b/include/cfg.hpp
@@ -93,8 +93,8 @@ struct particle_specie
 {
   unsigned int id;
   std::string name;
-  unsigned int mass;
-  int charge;
+  double mass;
+  double charge;
   double macro_amount;
   double left_density;
   double right_density;
diff --git a/src/cfg.cpp b/src/cfg.cpp
index 04183e9..6d75f11 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -186,8 +186,8 @@ void Cfg::init_particles()
 
     p_s.id = current_specie_id;
     p_s.name = specie_name;
-    p_s.mass = (int)o["mass"].get<double>();
-    p_s.charge = (int)o["charge"].get<double>();
+    p_s.mass = o["mass"].get<double>();
+    p_s.charge = o["charge"].get<double>();
     p_s.left_density = o["density"].get<double>(); // TODO: density profile still not supported, but planned
     p_s.right_density = o["density"].get<double>(); // TODO: density profile still not supported, but planned
     p_s.temperature = o["temperature"].get<double>();
@@ -361,8 +361,8 @@ void Cfg::init_beam()
 
       p_b.id = current_beam_id;
       p_b.name = beam_name;
-      p_b.mass = (int)o["mass"].get<double>();
-      p_b.charge = (int)o["charge"].get<double>();
+      p_b.mass = o["mass"].get<double>();
+      p_b.charge = o["charge"].get<double>();
       p_b.start_time = o["start_time"].get<double>();
       p_b.velocity = o["velocity"].get<double>();
       p_b.bunches_amount = b_o["amount"].get<double>();
-- 
2.43.0


From 34d694c9f75f0ec3281c7ff36527655db676908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 37/87] fix: reject grids, that could not be divided equally to
 domains

---
 src/cfg.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 6d75f11..0695c29 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -592,6 +592,13 @@ bool Cfg::method_limitations_check ()
       LOG_S(FATAL) << "Amount of domains should be multiple of 2, or 1";
     }
 
+  if (geometry->domains_amount[0] == 0 || geometry->domains_amount[1] == 0
+      || geometry->cell_amount[0] % geometry->domains_amount[0] != 0
+      || geometry->cell_amount[1] % geometry->domains_amount[1] != 0)
+    {
+      LOG_S(FATAL) << "Grid size should be multiple of the amount of domains";
+    }
+
   // if (geometry->cell_amount[0] / geometry->domains_amount[0] < MIN_DOMAIN_GRID_AMOUNT)
   //   {
   //     LOG_S(FATAL) << "Too small domain size by r. Must be ``" << MIN_DOMAIN_GRID_AMOUNT << "'' cells or more", 1);
-- 
2.43.0


From ff3412299cc7b7567cc3841dc835152d69301562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 38/87] fix: give different identifiers to species and beams
 with equal name hashes

---
 include/cfg.hpp |  1 +
 src/cfg.cpp     | 25 ++++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/cfg.hpp b/include/cfg.hpp
index aec029d..2e1bbc0 100644
--- a/include/cfg.hpp
+++ b/include/cfg.hpp
@@ -218,6 +218,7 @@ public:
 private:
   picojson::value json_data;
 
+  bool is_id_used(unsigned short id);
   void init_particles();
   void init_probes();
   void init_beam();
diff --git a/src/cfg.cpp b/src/cfg.cpp
index 0695c29..9a4ad70 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -159,6 +159,21 @@ Cfg::~Cfg()
 {
 }
 
+bool Cfg::is_id_used(unsigned short id)
+{
+  //! check if the identifier already belongs to any particles specie or beam
+
+  for (auto sp = particle_species.begin(); sp != particle_species.end(); ++sp)
+    if (sp->id == id)
+      return true;
+
+  for (auto bm = particle_beams.begin(); bm != particle_beams.end(); ++bm)
+    if (bm->id == id)
+      return true;
+
+  return false;
+}
+
 void Cfg::init_particles()
 {
   //! initialize particles charge, mass, number,
@@ -184,6 +199,10 @@ void Cfg::init_particles()
 
     LOG_S(MAX) << "Specie ID is ``" << current_specie_id << "'' for ``" << specie_name << "''";
 
+    // different names could have equal hashes
+    while (is_id_used(current_specie_id))
+      ++current_specie_id;
+
     p_s.id = current_specie_id;
     p_s.name = specie_name;
     p_s.mass = o["mass"].get<double>();
@@ -355,10 +374,14 @@ void Cfg::init_beam()
                        << "'' already exists. Beam names should be unique";
 
       // ! calculate current beam ID from its name:
-      unsigned int current_beam_id = algo::common::hash_from_string(beam_name, BEAM_HASH_SALT);
+      unsigned short current_beam_id = algo::common::hash_from_string(beam_name, BEAM_HASH_SALT);
 
       LOG_S(MAX) << "Beam ID is ``" << current_beam_id << "'' for ``" << beam_name << "''";
 
+      // different names could have equal hashes
+      while (is_id_used(current_beam_id))
+        ++current_beam_id;
+
       p_b.id = current_beam_id;
       p_b.name = beam_name;
       p_b.mass = o["mass"].get<double>();
-- 
2.43.0


From a500fa335491d34e283ea47c4388db9c480ff1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 39/87] fix: pass electron and ion temperatures to the Debye
 length in order

---
 include/phys/plasma.hpp | 2 +-
 src/cfg.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phys/plasma.hpp b/include/phys/plasma.hpp
index 405c1c5..d80e166 100644
--- a/include/phys/plasma.hpp
+++ b/include/phys/plasma.hpp
@@ -25,7 +25,7 @@
 namespace phys::plasma
 {
   double debye_length (double density_el, double density_ion,
-                       double temperature_ion, double temperature_el);
+                       double temperature_el, double temperature_ion);
 
   double plasma_frequency (double density);
 
diff --git a/src/cfg.cpp b/src/cfg.cpp
index 9a4ad70..d322eac 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -689,7 +689,7 @@ bool Cfg::method_limitations_check ()
 
   // cell size d{r,z} < \lambda debye
 
-  double debye_length = phys::plasma::debye_length (electron_density, ion_density, ion_temperature, electron_temperature);
+  double debye_length = phys::plasma::debye_length (electron_density, ion_density, electron_temperature, ion_temperature);
   unsigned int debye_multiplicator = 100;
 
   if ( electron_temperature != 0)
-- 
2.43.0


From 067bbfc0d585f29f9caebfd9b3387bbcfbc951e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:47 +0000
Subject: [PATCH 40/87] fix: do not skip output frames because of rounding of
 the current time

---
 src/msg.cpp           | 2 +-
 src/outController.cpp | 2 +-
 src/outWriter.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msg.cpp b/src/msg.cpp
index d833cfa..bf2a003 100644
--- a/src/msg.cpp
+++ b/src/msg.cpp
@@ -49,7 +49,7 @@ namespace msg
                      unsigned int probe_schedule, TimeSim *time)
   {
 #ifndef ENABLE_DEBUG
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     std::string dump_step = std::to_string((int)current_time_step / probe_schedule);
     std::ostringstream time_conv;
     time_conv << time->current;
diff --git a/src/outController.cpp b/src/outController.cpp
index aeaf1de..af9d045 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -338,7 +338,7 @@ void OutController::init_datasets()
     OutEngineHDF5 engine (hdf5_file, prb->path, hdf5_prb_size, offset, true, false);
 #endif // end of ENABLE_HDF5
 
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     int is_run = current_time_step % prb->schedule;
 
     if (is_run == 0)
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 6dc3912..78b0d9a 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -48,7 +48,7 @@ OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shap
 
 void OutWriter::operator()()
 {
-  int current_time_step = ceil(time->current / time->step);
+  int current_time_step = round(time->current / time->step);
   int is_run = current_time_step % schedule;
 
   if (is_run == 0)
-- 
2.43.0


From 06f5f47c915ee807d9709bcd5206be69f42c0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:47 +0000
Subject: [PATCH 41/87] fix: do not dump probes from domains, that only touch
 them

---
 src/outController.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index af9d045..0dcd32e 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -89,23 +89,23 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
         // check if probe possition intersects the domain
         if (
           ( prb->shape == 0                      // condition for rec
-            && prb_size[0] <= domain_size[2]
-            && prb_size[1] <= domain_size[3]
-            && prb_size[2] >= domain_size[0]
-            && prb_size[3] >= domain_size[1] )
+            && prb_size[0] < domain_size[2]
+            && prb_size[1] < domain_size[3]
+            && prb_size[2] > domain_size[0]
+            && prb_size[3] > domain_size[1] )
           || ( prb->shape == 1                    // condition for column
                && prb_size[3] >= domain_size[1]
-               && prb_size[3] <= domain_size[3]
+               && prb_size[3] < domain_size[3]
             )
           || ( prb->shape == 2                    // condition for row
                && prb_size[2] >= domain_size[0]
-               && prb_size[2] <= domain_size[2]
+               && prb_size[2] < domain_size[2]
             )
           || ( prb->shape == 3                      // condition for dot
                && prb_size[2] >= domain_size[0]
-               && prb_size[2] <= domain_size[2]
+               && prb_size[2] < domain_size[2]
                && prb_size[3] >= domain_size[1]
-               && prb_size[3] <= domain_size[3] )
+               && prb_size[3] < domain_size[3] )
           )
         {
           // calculate effective probe size
-- 
2.43.0


From c17092bab3aed83641aaa3348b1daf8abb0941bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:47 +0000
Subject: [PATCH 42/87] fix: allow several probes of the same component and
 shape

---
 src/outEngine/outEngineHDF5.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/outEngine/outEngineHDF5.cpp b/src/outEngine/outEngineHDF5.cpp
index 446e415..c724a4f 100644
--- a/src/outEngine/outEngineHDF5.cpp
+++ b/src/outEngine/outEngineHDF5.cpp
@@ -123,8 +123,12 @@ void OutEngineHDF5::create_dataset()
   try
   {
     LOG_S(MAX) << "Creating group ``" << group_name << "''";
-    Group group_instance = data_file->createGroup('/' + group_name);
-    LOG_S(MAX) << "Group ``" << group_name << "'' created";
+    // several probes could share the group
+    if (! data_file->exist('/' + group_name))
+    {
+      data_file->createGroup('/' + group_name);
+      LOG_S(MAX) << "Group ``" << group_name << "'' created";
+    }
 
     std::vector<size_t> dims_init = {1};
     std::vector<size_t> dims_final = {DataSpace::UNLIMITED};
-- 
2.43.0


From 457c01f8940405d41f9bbf5004a1671134118533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:47 +0000
Subject: [PATCH 43/87] fix: do not require any probes

---
 src/outController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 0dcd32e..29c2e9e 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -35,7 +35,7 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
 // write metadata
 #ifdef ENABLE_HDF5
   hdf5_file = _file;
-  OutEngineHDF5 engine (hdf5_file, _probes[0].path, {0,0}, {0,0}, true, false);
+  OutEngineHDF5 engine (hdf5_file, "", {0,0}, {0,0}, true, false);
 #endif // end of ENABLE_HDF5
 
   engine.write_metadata( _metadata );
-- 
2.43.0


From 70f1db752c56be1aefb1f5f929718eebcc62f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:47 +0000
Subject: [PATCH 44/87] fix: skip probes with unknown components

---
 src/outController.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/outController.cpp b/src/outController.cpp
index 29c2e9e..b94fc66 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -294,7 +294,10 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
           }
 //////////////////////////////////////////////////////////////////////
           else
+          {
             LOG_S(ERROR) << "Unknown probe component ``" << prb->component << "''";
+            continue;
+          }
 
           // create and push out writer
           OutWriter writer (hdf5_file, prb->path, prb->shape,
-- 
2.43.0


From 0b5dee53ded4425da2270e7d78aba90c33755e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:35 +0000
Subject: [PATCH 45/87] fix: average momentum, energy and temperature over the
 borders of domains

---
 include/specieP.hpp   |  16 ++++--
 src/outController.cpp | 111 +++++++++++++-----------------------------
 src/specieP.cpp       |  63 +++++++++++++++++++++---
 3 files changed, 102 insertions(+), 88 deletions(-)

diff --git a/include/specieP.hpp b/include/specieP.hpp
index 8fe1ec0..eda415e 100644
--- a/include/specieP.hpp
+++ b/include/specieP.hpp
@@ -237,6 +237,19 @@ public:
   void calc_temperature ();
   void calc_energy ();
   void calc_momentum ();
+  void calc_momentum_abs_w ();
+  void calc_momentum_w ();
+
+  // average weighted values (e.g. after overlaying)
+  void norm_temperature ();
+  void norm_energy ();
+  void norm_momentum ();
+
+  // overlay weighted values with ones from neighbour domain
+  void overlay_x (SpecieP *dst);
+  void overlay_y (SpecieP *dst);
+  void overlay_xy (SpecieP *dst);
+  void overlay_yx (SpecieP *dst);
 
 protected:
   void rectangular_random_placement (unsigned int int_cell_number,
@@ -264,9 +277,6 @@ protected:
   void rectangular_velocity_distribution ();
   void eigen_velocity_distribution ();
   void eigen_directed_velocity_distribution (unsigned int dir); // 0,1,2 are for r, phi, z
-
-  void calc_momentum_abs_w ();
-  void calc_momentum_w ();
 };
 
 #endif // end of _SPECIE_P_HPP_
diff --git a/src/outController.cpp b/src/outController.cpp
index b94fc66..b42ff19 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -398,16 +398,9 @@ void OutController::init_datasets()
           if (!specie_exists)
             continue; // skip if there is no specie for probe
 
-          if (prb->component.compare("density") == 0)
-            speciep->calc_density();
-          else if (prb->component.compare("temperature") == 0)
-            speciep->calc_temperature();
-          else if (prb->component.compare("energy") == 0)
-            speciep->calc_energy();
-          else if (prb->component.compare("momentum/r") == 0
-                   || prb->component.compare("momentum/phi") == 0
-                   || prb->component.compare("momentum/z") == 0)
-            speciep->calc_momentum();
+          speciep->calc_density();
+          speciep->calc_momentum_w();
+          speciep->calc_momentum_abs_w();
         }
 
       // overlay domains before dump
@@ -415,83 +408,47 @@ void OutController::init_datasets()
         for (unsigned int j = 0; j < geometry->domains_amount[1]; j++)
         {
           Domain *sim_domain = smb->domains(i, j);
-          SpecieP *speciep;
-          bool specie_exists = false;
+          bool has_next_r = i < geometry->domains_amount[0] - 1;
+          bool has_next_z = j < geometry->domains_amount[1] - 1;
 
-          for (auto ps = sim_domain->species_p.begin(); ps != sim_domain->species_p.end(); ++ps)
-            if (prb->specie.compare((**ps).name) == 0)
+          for (size_t s = 0; s < sim_domain->species_p.size(); ++s)
+            if (prb->specie.compare(sim_domain->species_p[s]->name) == 0)
             {
-              speciep = (*ps);
-              specie_exists = true;
-            }
-
-          if (!specie_exists)
-            continue; // skip if there is no specie for probe
+              // all the domains have the same set of species
+              if (has_next_r)
+                sim_domain->species_p[s]->overlay_x(smb->domains(i + 1, j)->species_p[s]);
 
-          // update grid
-          if (i < geometry->domains_amount[0] - 1)
-          {
-            Domain *dst_domain = smb->domains(i+1, j);
-            SpecieP *speciep_dst;
-            bool specie_exists = false;
+              if (has_next_z)
+                sim_domain->species_p[s]->overlay_y(smb->domains(i, j + 1)->species_p[s]);
 
-            for (auto ps = dst_domain->species_p.begin(); ps != dst_domain->species_p.end(); ++ps)
-              if (prb->specie.compare((**ps).name) == 0)
+              if (has_next_r && has_next_z)
               {
-                speciep_dst = (*ps);
-                specie_exists = true;
+                sim_domain->species_p[s]->overlay_xy(smb->domains(i + 1, j + 1)->species_p[s]);
+                smb->domains(i, j + 1)->species_p[s]->overlay_yx(smb->domains(i + 1, j)->species_p[s]);
               }
-            if (!specie_exists)
-              LOG_S(FATAL) << "There is no particles specie ``"
-                           << prb->specie
-                           << "'' in destination domain, while overlaying for probe dump. Exiting";
-
-            if (prb->component.compare("density") == 0)
-              speciep->density_map.overlay_x(speciep_dst->density_map);
-            else if (prb->component.compare("temperature") == 0)
-              speciep->temperature_map.overlay_x(speciep_dst->temperature_map);
-            else if (prb->component.compare("energy") == 0)
-              speciep->energy_map.overlay_x(speciep_dst->energy_map);
-            else if (prb->component.compare("momentum/r") == 0
-                     || prb->component.compare("momentum/phi") == 0
-                     || prb->component.compare("momentum/z") == 0)
-            {
-              speciep->momentum_map[0].overlay_x(speciep_dst->momentum_map[0]);
-              speciep->momentum_map[1].overlay_x(speciep_dst->momentum_map[1]);
-              speciep->momentum_map[2].overlay_x(speciep_dst->momentum_map[2]);
             }
-          }
-
-          if (j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = smb->domains(i, j + 1);
-            SpecieP *speciep_dst;
-            bool specie_exists = false;
-
-            for (auto ps = dst_domain->species_p.begin(); ps != dst_domain->species_p.end(); ++ps)
-              if (prb->specie.compare((**ps).name) == 0)
-              {
-                speciep_dst = (*ps);
-                specie_exists = true;
-              }
+        }
 
-            if (!specie_exists)
-              LOG_S(FATAL) << "There is no particles specie ``"
-                           << prb->specie
-                           << "'' in destination domain, while overlaying for probe dump. Exiting";
-
-            if (prb->component.compare("density") == 0)
-              speciep->density_map.overlay_y(speciep_dst->density_map);
-            else if (prb->component.compare("temperature") == 0)
-              speciep->temperature_map.overlay_y(speciep_dst->temperature_map);
-          }
+      // average overlaid values
+      for (unsigned int r = 0; r < geometry->domains_amount[0]; ++r)
+        for (unsigned int z = 0; z < geometry->domains_amount[1]; ++z)
+        {
+          Domain *sim_domain = smb->domains(r, z);
 
-          // if (i < geometry_global->domains_amount[0] - 1 && j < geometry_global->domains_amount[1] - 1)
-          // {
-          //   Domain *dst_domain = smb->domains(i + 1, j + 1);
-          //   sim_domain->current->current.overlay_xy(dst_domain->current->current);
-          // }
+          for (auto ps = sim_domain->species_p.begin(); ps != sim_domain->species_p.end(); ++ps)
+            if (prb->specie.compare((**ps).name) == 0)
+            {
+              if (prb->component.compare("temperature") == 0)
+                (**ps).norm_temperature();
+              else if (prb->component.compare("energy") == 0)
+                (**ps).norm_energy();
+              else if (prb->component.compare("momentum/r") == 0
+                       || prb->component.compare("momentum/phi") == 0
+                       || prb->component.compare("momentum/z") == 0)
+                (**ps).norm_momentum();
+            }
         }
+
       if (print_progress_table)
         msg::print_values (prb->path, shape_name, prb->schedule, time);
     }
diff --git a/src/specieP.cpp b/src/specieP.cpp
index 4bc7b89..1a6e012 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -669,17 +669,54 @@ void SpecieP::calc_density()
                                  P_WEIGHT((**i)));
 }
 
-void SpecieP::calc_temperature()
+void SpecieP::overlay_x(SpecieP *dst)
+// ! overlay weighted values with the specie of the next domain by r
 {
-  // clear grid values
-  temperature_map = 0;
-  temperature_map.overlay_set(0);
+  density_map.overlay_x(dst->density_map);
+  momentum_abs_map_w.overlay_x(dst->momentum_abs_map_w);
+  momentum_map_w.overlay_x(dst->momentum_map_w);
+}
 
+void SpecieP::overlay_y(SpecieP *dst)
+// ! overlay weighted values with the specie of the next domain by z
+{
+  density_map.overlay_y(dst->density_map);
+  momentum_abs_map_w.overlay_y(dst->momentum_abs_map_w);
+  momentum_map_w.overlay_y(dst->momentum_map_w);
+}
+
+void SpecieP::overlay_xy(SpecieP *dst)
+// ! overlay weighted values with the specie of the diagonal domain
+{
+  density_map.overlay_xy(dst->density_map);
+  momentum_abs_map_w.overlay_xy(dst->momentum_abs_map_w);
+  momentum_map_w.overlay_xy(dst->momentum_map_w);
+}
+
+void SpecieP::overlay_yx(SpecieP *dst)
+// ! overlay weighted values with the specie of the anti-diagonal domain
+{
+  density_map.overlay_yx(dst->density_map);
+  momentum_abs_map_w.overlay_yx(dst->momentum_abs_map_w);
+  momentum_map_w.overlay_yx(dst->momentum_map_w);
+}
+
+void SpecieP::calc_temperature()
+{
   // calculate density initially
   calc_density();
   calc_momentum_w();
   calc_momentum_abs_w();
 
+  norm_temperature();
+}
+
+void SpecieP::norm_temperature()
+{
+  // clear grid values
+  temperature_map = 0;
+  temperature_map.overlay_set(0);
+
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
     {
@@ -783,14 +820,19 @@ void SpecieP::calc_momentum_w()
 
 void SpecieP::calc_energy()
 {
-  // clear grid values
-  energy_map = 0;
-  energy_map.overlay_set(0);
-
   // calculate density initially
   calc_density();
   calc_momentum_abs_w();
 
+  norm_energy();
+}
+
+void SpecieP::norm_energy()
+{
+  // clear grid values
+  energy_map = 0;
+  energy_map.overlay_set(0);
+
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
     {
@@ -820,6 +862,11 @@ void SpecieP::calc_momentum ()
   calc_density();
   calc_momentum_w(); // calculates absolute momentum values also
 
+  norm_momentum();
+}
+
+void SpecieP::norm_momentum ()
+{
   momentum_map = 0;
   momentum_map.overlay_set(0);
 
-- 
2.43.0


From 51255a2571fd7b415b46cfd8e474f919fb1a4f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:34 +0000
Subject: [PATCH 46/87] fix: make builds with Coulomb collisions compile

---
 include/domain.hpp | 2 +-
 src/domain.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/domain.hpp b/include/domain.hpp
index 1e8a764..fdb99ff 100644
--- a/include/domain.hpp
+++ b/include/domain.hpp
@@ -65,7 +65,7 @@
 #include "collisions/collisionsTA77S.hpp"
 #elif defined(SWITCH_COULOMB_COLLISIONS_SK98)
 #include "collisions/collisionsSK98.hpp"
-#elif defined(SWITCH_COULOMB_COLLISIONS_P12
+#elif defined(SWITCH_COULOMB_COLLISIONS_P12)
 #include "collisions/collisionsP12.hpp"
 #endif
 #endif
diff --git a/src/domain.cpp b/src/domain.cpp
index a15bbeb..6ede8cc 100644
--- a/src/domain.cpp
+++ b/src/domain.cpp
@@ -199,6 +199,6 @@ void Domain::dump_particle_positions_to_old()
 #ifdef ENABLE_COULOMB_COLLISIONS
 void Domain::collide()
 {
-  collisions->run();
+  (*collisions)();
 }
 #endif // ENABLE_COULOMB_COLLISIONS
-- 
2.43.0


From cd7de1ef4c874d34008da48c14688fc096b3b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:34 +0000
Subject: [PATCH 47/87] fix: calculate volumes of cells for collisions outside
 of the first domain

---
 src/collisions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collisions.cpp b/src/collisions.cpp
index acf076d..281d653 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -166,7 +166,7 @@ double Collisions::geometry_cell_volume(int i)
   double dz = geometry->cell_size[1];
   double shift = geometry->cell_dims[0];
 
-  return CELL_VOLUME(i+shift, dr, dz);
+  return CELL_VOLUME((i + shift), dr, dz);
 }
 
 void Collisions::collect_weighted_params_tot_grid ()
-- 
2.43.0


From bdd990672aaaaa934cd56accbf89966bea2cd15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:34 +0000
Subject: [PATCH 48/87] fix: do not skip collisions in the cells after an empty
 one

---
 src/collisions/collisionsP12.cpp   | 8 ++++----
 src/collisions/collisionsSK98.cpp  | 8 ++++----
 src/collisions/collisionsTA77S.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index f7ba7e5..308a999 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -348,10 +348,10 @@ void CollisionsP12::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 0776866..f72f81a 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -258,10 +258,10 @@ void CollisionsSK98::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 83d1e42..d599eb8 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -234,10 +234,10 @@ void CollisionsTA77S::collide ()
       double density_el = get_el_density(i, j);
       double density_ion = get_ion_density(i, j);
 
-      if (!isnormal(temperature_ion)) break;
-      if (!isnormal(temperature_el)) break;
-      if (!isnormal(density_ion)) break;
-      if (!isnormal(density_el)) break;
+      if (!isnormal(temperature_ion)) continue;
+      if (!isnormal(temperature_el)) continue;
+      if (!isnormal(density_ion)) continue;
+      if (!isnormal(density_el)) continue;
 
       double debye = phys::plasma::debye_length(density_el, density_ion,
                                                 temperature_el, temperature_ion);
-- 
2.43.0


From 4cc23c2675cfd4505396b5cba6733843b3538b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:34 +0000
Subject: [PATCH 49/87] fix: collide all of the particles, when numbers of
 electrons and ions differ

---
 src/collisions/collisionsP12.cpp   | 18 ++++++++----------
 src/collisions/collisionsSK98.cpp  | 18 ++++++++----------
 src/collisions/collisionsTA77S.cpp | 18 ++++++++----------
 3 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 308a999..65c888c 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -460,13 +460,12 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = c_i * (vec_size_electrons - els_1st_group);
         // int els_2nd_group = (1 - c_r) * vec_size_electrons;
 
         // TA77: case 2b, 1st group, ions
@@ -495,13 +494,12 @@ void CollisionsP12::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = c_i * (vec_size_ions - ions_1st_group);
         // int ions_2nd_group = (1 - c_r) * vec_size_ions;
 
         // TA77: case 2b, 1st group, electrons
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index f72f81a..65d4686 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -370,13 +370,12 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = c_i * (vec_size_electrons - els_1st_group);
         // int els_2nd_group = (1 - c_r) * vec_size_electrons;
 
         // TA77: case 2b, 1st group, ions
@@ -405,13 +404,12 @@ void CollisionsSK98::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = c_i * (vec_size_ions - ions_1st_group);
         // int ions_2nd_group = (1 - c_r) * vec_size_ions;
 
         // TA77: case 2b, 1st group, electrons
diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index d599eb8..b5e1ef4 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -346,13 +346,12 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions > vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        unsigned int c_i = floor( (float)vec_size_ions / (float)vec_size_electrons );
-        double c_r = (float)vec_size_ions / (float)vec_size_electrons - c_i;
+        unsigned int c_i = vec_size_ions / vec_size_electrons;
 
-        unsigned int ions_1st_group = (c_i + 1) * c_r * vec_size_electrons;
-        unsigned int els_1st_group = c_r * vec_size_electrons;
+        unsigned int els_1st_group = vec_size_ions % vec_size_electrons;
+        unsigned int ions_1st_group = (c_i + 1) * els_1st_group;
 
-        unsigned int ions_2nd_group = c_i * (1 - c_r) * vec_size_electrons;
+        unsigned int ions_2nd_group = c_i * (vec_size_electrons - els_1st_group);
         // int els_2nd_group = (1 - c_r) * vec_size_electrons;
 
         // TA77: case 2b, 1st group, ions
@@ -381,13 +380,12 @@ void CollisionsTA77S::collide ()
       // TA77: case 2b. electrons-ions
       if (vec_size_ions < vec_size_electrons && vec_size_electrons > 0 && vec_size_ions > 0)
       {
-        double c_i = floor( (float)vec_size_electrons / (float)vec_size_ions );
-        double c_r = (float)vec_size_electrons / (float)vec_size_ions - c_i;
+        unsigned int c_i = vec_size_electrons / vec_size_ions;
 
-        unsigned int els_1st_group = (c_i + 1) * c_r * vec_size_ions;
-        unsigned int ions_1st_group = c_r * vec_size_ions;
+        unsigned int ions_1st_group = vec_size_electrons % vec_size_ions;
+        unsigned int els_1st_group = (c_i + 1) * ions_1st_group;
 
-        unsigned int els_2nd_group = c_i * (1 - c_r) * vec_size_ions;
+        unsigned int els_2nd_group = c_i * (vec_size_ions - ions_1st_group);
         // int ions_2nd_group = (1 - c_r) * vec_size_ions;
 
         // TA77: case 2b, 1st group, electrons
-- 
2.43.0


From 69be1807ac6ef57ea75a3f2af0c1f79fc8328c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:34 +0000
Subject: [PATCH 50/87] fix: conserve momentum and energy in TA77S collisions

---
 src/collisions/collisionsTA77S.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index b5e1ef4..67b697a 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -160,7 +160,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta * sin_Phi
       - uy * (1 - cos_Theta);
 
-    d_uz = u_p * sin_Theta * cos_Phi
+    d_uz = -u_p * sin_Theta * cos_Phi
       - uz * (1 - cos_Theta);
 
     ////
@@ -173,7 +173,7 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
       + (ux / u_p) * u * sin_Theta2 * sin_Phi2
       - uy * (1 - cos_Theta2);
 
-    d_uz2 = u_p * sin_Theta2 * cos_Phi2
+    d_uz2 = -u_p * sin_Theta2 * cos_Phi2
       - uz * (1 - cos_Theta2);
   }
 
@@ -181,9 +181,9 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   double vphi_a_new = vphi_a + m_ab/mass_a * d_uy;
   double vz_a_new = vz_a + m_ab/mass_a * d_uz;
 
-  double vr_b_new = vr_b + m_ab/mass_b * d_ux2;
-  double vphi_b_new = vphi_b + m_ab/mass_b * d_uy2;
-  double vz_b_new = vz_b + m_ab/mass_b * d_uz2;
+  double vr_b_new = vr_b - m_ab/mass_b * d_ux2;
+  double vphi_b_new = vphi_b - m_ab/mass_b * d_uy2;
+  double vz_b_new = vz_b - m_ab/mass_b * d_uz2;
 
   // set new velocity components
   if (swap)
-- 
2.43.0


From 05d5099e13abd8b66de15d8ec7b88b1fea781b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:34 +0000
Subject: [PATCH 51/87] fix: restore momentum of species with single particle
 or without own energy in a cell

---
 src/collisions/collisionsTA77S.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 67b697a..70bd85f 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -510,13 +510,11 @@ void CollisionsTA77S::correct_velocities()
           );
 
       // correct ion velocity
-      if (isnormal(alpha_ion)) // FIXME: sometimes E_tot_ion = mass_tot_ion(i, j) * V_0_sq_ion / 2
+      // the momentum should be restored even for the only particle
+      // in the cell, which has no own energy to be corrected
       {
-        // FIXME: quick and dirty workadound
-        // caused negative values under squared root
-        // and zeros
-        if (alpha_ion < 0) alpha_ion = -alpha_ion;
-        if (alpha_ion == 0) alpha_ion = 1;
+        if (!isfinite(alpha_ion)) alpha_ion = 1;
+        if (alpha_ion < 0) alpha_ion = 0; // caused by rounding only
         alpha_ion = algo::common::sq_rt(alpha_ion);
 
         for (unsigned int k = 0; k < vec_size_ions; ++k)
@@ -536,13 +534,11 @@ void CollisionsTA77S::correct_velocities()
       }
 
       // correct electron velocity
-      if (isnormal(alpha_el)) // FIXME: sometimes E_tot_el = mass_tot_el(i, j) * V_0_sq_el / 2
+      // the momentum should be restored even for the only particle
+      // in the cell, which has no own energy to be corrected
       {
-        // FIXME: quick and dirty workadound
-        // caused negative values under squared root
-        // and zeros
-        if (alpha_el < 0) alpha_el = -alpha_el;
-        if (alpha_el == 0) alpha_el = 1;
+        if (!isfinite(alpha_el)) alpha_el = 1;
+        if (alpha_el < 0) alpha_el = 0; // caused by rounding only
         alpha_el = algo::common::sq_rt(alpha_el);
 
         for (unsigned int k = 0; k < vec_size_electrons; ++k)
-- 
2.43.0


From bbc373fec5b82fa289e59456b9038488fe2d4907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:56 +0000
Subject: [PATCH 52/87] fix: use relative velocity of colliding particles in
 SK98 and P12

---
 src/collisions/collisionsP12.cpp  | 2 +-
 src/collisions/collisionsSK98.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 65c888c..4457e36 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -135,7 +135,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   v_a_cm = p_a_cm / (mass_a * gamma_a_cm);
   v_b_cm = p_b_cm / (mass_b * gamma_b_cm);
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm.length() + v_b_cm.length() )
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 65d4686..0ba3e74 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -133,7 +133,7 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   vector3d<double> p_cm; // (0, 0, p_a_cm.length());
   p_cm = p_a_cm;
 
-  double v_rel_abs = ( v_a_cm.length() - v_b_cm.length() )
+  double v_rel_abs = ( v_a_cm.length() + v_b_cm.length() )
     / ( 1 - v_a_cm.dot(v_b_cm) / LIGHT_VEL_POW_2 );
 
   double gamma_rel = phys::rel::lorenz_factor(v_rel_abs * v_rel_abs);
-- 
2.43.0


From f4feb92f46636476ddf493c8c682723d3cdbc619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:13 +0000
Subject: [PATCH 53/87] fix: avoid division by zero in collisions along the
 axis and of opposite momenta

---
 src/collisions/collisionsP12.cpp  | 34 ++++++++++++++++++++---------
 src/collisions/collisionsSK98.cpp | 36 +++++++++++++++++++++----------
 2 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 4457e36..1886832 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -15,6 +15,8 @@
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <limits>
+
 #include "collisions/collisionsP12.hpp"
 
 // say: TA77   - Takizuka, Abe; 1977; DOI: 10.1016/0021-9991(77)90099-7
@@ -110,6 +112,9 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   double v_cm_2 = beta_cm.length2() * LIGHT_VEL_POW_2;
   double gamma_cm = phys::rel::lorenz_factor(v_cm_2);
 
+  // prevent division by zero, when center of mass is at rest
+  double beta_cm_2 = max(beta_cm.length2(), numeric_limits<double>::min());
+
   // convert LAB frame's p^0 momentum (aka \gamma * m * c)
   // to center-of-mass frame's p^0
   double p0_a_cm = gamma_cm * ( p0_a - beta_cm.dot(p_a));
@@ -118,7 +123,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm_2;
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
@@ -238,13 +243,22 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   double p_a_cm_abs = p_a_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_a_cm[0] * p_a_cm[0] + p_a_cm[1] * p_a_cm[1]);
 
-  p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
-    + p_a_cm[0] * cos_xi_cm;
-  p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
-    + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
-    + p_a_cm[1] * cos_xi_cm;
-  p_a_prime_cm[2] = -p_cm_prp * sin_xi_cm * cos_phi_cm + p_a_cm[2] * cos_xi_cm;
+  if (p_cm_prp == 0) // movement along the axis
+  {
+    p_a_prime_cm[0] = p_a_cm_abs * sin_xi_cm * cos_phi_cm;
+    p_a_prime_cm[1] = p_a_cm_abs * sin_xi_cm * sin_phi_cm;
+    p_a_prime_cm[2] = p_a_cm[2] * cos_xi_cm;
+  }
+  else
+  {
+    p_a_prime_cm[0] = p_a_cm[0] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
+      - p_a_cm[1] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+      + p_a_cm[0] * cos_xi_cm;
+    p_a_prime_cm[1] = p_a_cm[1] * p_a_cm[2] / p_cm_prp * sin_xi_cm * cos_phi_cm
+      + p_a_cm[0] * p_a_cm_abs / p_cm_prp * sin_xi_cm * sin_phi_cm
+      + p_a_cm[1] * cos_xi_cm;
+    p_a_prime_cm[2] = -p_cm_prp * sin_xi_cm * cos_phi_cm + p_a_cm[2] * cos_xi_cm;
+  }
 
   // find deflection probability
   double U_defl = math::random::uniform();
@@ -255,7 +269,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   {
     vector3d<double> p_a_prime;
     p_a_prime = p_a_prime_cm;
-    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm_2;
     p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
     v_a_prime = p_a_prime / mass_a;
@@ -272,7 +286,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
     p_b_prime_cm[2] = -p_a_prime_cm[2];
 
     p_b_prime = p_b_prime_cm;
-    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+    p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm_2;
     p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
     v_b_prime = p_b_prime / mass_b;
diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 0ba3e74..96cc02a 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -15,6 +15,8 @@
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <limits>
+
 #include "collisions/collisionsSK98.hpp"
 
 // say: TA77   - Takizuka, Abe; 1977; DOI: 10.1016/0021-9991(77)90099-7
@@ -103,6 +105,9 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double v_cm_2 = beta_cm.length2() * LIGHT_VEL_POW_2;
   double gamma_cm = phys::rel::lorenz_factor(v_cm_2);
 
+  // prevent division by zero, when center of mass is at rest
+  double beta_cm_2 = max(beta_cm.length2(), numeric_limits<double>::min());
+
   // convert LAB frame's p^0 momentum (aka \gamma * m * c)
   // to center-of-mass frame's p^0
   double p0_a_cm = gamma_cm * ( p0_a - beta_cm.dot(p_a));
@@ -111,14 +116,14 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   // convert LAB frame's 3-momentum to center-of-mass frame's 3-momentum
   vector3d<double> p_a_cm, p_b_cm;
   p_a_cm = p_a;
-  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_cm += beta_cm * beta_cm.dot(p_a) * ( gamma_cm - 1 ) / beta_cm_2;
   p_a_cm -= beta_cm * gamma_cm * p0_a;
 
   p_b_cm[0] = -p_a_cm[0];
   p_b_cm[1] = -p_a_cm[1];
   p_b_cm[2] = -p_a_cm[2];
   // p_b_cm = p_b;
-  // p_b_cm += beta_cm * beta_cm.dot(p_b) * ( gamma_cm - 1 ) / beta_cm.length2();
+  // p_b_cm += beta_cm * beta_cm.dot(p_b) * ( gamma_cm - 1 ) / beta_cm_2;
   // p_b_cm -= beta_cm * gamma_cm * p0_b;
 
   // get gamma --- center-of-mass frame
@@ -183,13 +188,22 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double p_cm_abs = p_cm.length();
   double p_cm_prp = algo::common::sq_rt(p_cm[0] * p_cm[0] + p_cm[1] * p_cm[1]);
 
-  d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
-    - p_cm[0] * ( 1 - cos_theta_cm);
-  d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
-    + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
-    - p_cm[1] * ( 1 - cos_theta_cm);
-  d_p[2] = -p_cm_prp * sin_theta_cm * cos_phi - p_cm[2] * ( 1 - cos_theta_cm );
+  if (p_cm_prp == 0) // movement along the axis
+  {
+    d_p[0] = p_cm_abs * sin_theta_cm * cos_phi;
+    d_p[1] = p_cm_abs * sin_theta_cm * sin_phi;
+    d_p[2] = - p_cm[2] * ( 1 - cos_theta_cm );
+  }
+  else
+  {
+    d_p[0] = p_cm[0] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
+      - p_cm[1] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+      - p_cm[0] * ( 1 - cos_theta_cm);
+    d_p[1] = p_cm[1] * p_cm[2] / p_cm_prp * sin_theta_cm * cos_phi
+      + p_cm[0] * p_cm_abs / p_cm_prp * sin_theta_cm * sin_phi
+      - p_cm[1] * ( 1 - cos_theta_cm);
+    d_p[2] = -p_cm_prp * sin_theta_cm * cos_phi - p_cm[2] * ( 1 - cos_theta_cm );
+  }
 
   // get p_a_prime_cm and p_b_prime_cm --- COM frame
   vector3d<double> p_a_prime_cm, p_b_prime_cm;
@@ -198,11 +212,11 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
 
   vector3d<double> p_a_prime, p_b_prime;
   p_a_prime = p_a_prime_cm;
-  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_a_prime += beta_cm * beta_cm.dot(p_a_prime_cm) * ( gamma_cm - 1 ) / beta_cm_2;
   p_a_prime += beta_cm * gamma_cm * p0_a_cm;
 
   p_b_prime = p_b_prime_cm;
-  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm.length2();
+  p_b_prime += beta_cm * beta_cm.dot(p_b_prime_cm) * ( gamma_cm - 1 ) / beta_cm_2;
   p_b_prime += beta_cm * gamma_cm * p0_b_cm;
 
   // calculate velocities
-- 
2.43.0


From 8f87ea7df01a3df6f14ebcb83eba64d25ee81fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:13 +0000
Subject: [PATCH 54/87] fix: use momentum in the center of mass frame for P12
 scattering angle

---
 src/collisions/collisionsP12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 1886832..4fe694d 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -176,7 +176,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
       / ( 4 * constant::PI * pow(constant::EPSILON0 * LIGHT_VEL_POW_2, 2)
           * mass_a * gamma_a * mass_b * gamma_b)
 
-      * gamma_cm * p_a.length()
+      * gamma_cm * p_a_cm.length()
       / (mass_a * gamma_a + mass_b * gamma_b)
 
       * pow(
-- 
2.43.0


From e74d2b56ea9e106181a466bd1360c4c47ea84474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:13 +0000
Subject: [PATCH 55/87] fix: keep cosine of the P12 scattering angle in its
 range

---
 src/collisions/collisionsP12.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 4fe694d..303cfc4 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -232,6 +232,9 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   else
     cos_xi_cm = 2 * U - 1;
 
+  // small random numbers should not lead out of the range of cosine
+  cos_xi_cm = max(-1., min(1., cos_xi_cm));
+
   double sin_xi_cm = algo::common::sq_rt ( 1 - pow(cos_xi_cm, 2) );
 
   // find Phi angle
-- 
2.43.0


From 5a7943bdb6f65a091e09d9e1d98037a15386a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:39 +0000
Subject: [PATCH 56/87] fix: deflect P12 particles with respect to ratio of
 their weights

---
 src/collisions/collisionsP12.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/collisions/collisionsP12.cpp b/src/collisions/collisionsP12.cpp
index 303cfc4..3150872 100644
--- a/src/collisions/collisionsP12.cpp
+++ b/src/collisions/collisionsP12.cpp
@@ -264,11 +264,12 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   }
 
   // find deflection probability
-  double U_defl = math::random::uniform();
-  // double w_ab = min( w_a , w_b);
+  // a-particle always has the lower weight, so it is deflected always,
+  // while b-particle is deflected with probability of weights ratio
+  double U_defl = math::random::uniform() * w_b;
 
   vector3d<double> v_a_prime, v_b_prime;
-  if (U_defl < w_a)
+  if (U_defl < w_b)
   {
     vector3d<double> p_a_prime;
     p_a_prime = p_a_prime_cm;
@@ -280,7 +281,7 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
     v_a_prime *= gamma_a_prime_inv;
   }
 
-  if (U_defl < w_b)
+  if (U_defl < w_a)
   {
     vector3d<double> p_b_prime;
 
@@ -328,14 +329,14 @@ void CollisionsP12::collide_single(double m_real_a, double m_real_b,
   }
   else
   {
-    if (U_defl < w_a)
+    if (U_defl < w_b)
     {
       P_VEL_R(pa) = v_a_prime[0];
       P_VEL_PHI(pa) = v_a_prime[1];
       P_VEL_Z(pa) = v_a_prime[2];
     }
 
-    if (U_defl < w_b)
+    if (U_defl < w_a)
     {
       P_VEL_R(pb) = v_b_prime[0];
       P_VEL_PHI(pb) = v_b_prime[1];
-- 
2.43.0


From bd0b10e092fd74f2c3c0d91dd21dd2aab42d231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:39 +0000
Subject: [PATCH 57/87] fix: deflect SK98 particles with respect to ratio of
 their weights

---
 src/collisions/collisionsSK98.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 96cc02a..81af48d 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -78,6 +78,7 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
     density_b = _density_a;
 
     // swap particles when b-particle is lighter, than a-particle
+    w_ratio = 1 / w_ratio;
     swap = true;
   }
 
@@ -230,6 +231,10 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   v_a_prime *= gamma_a_prime_inv;
   v_b_prime *= gamma_b_prime_inv;
 
+  // the particle with the higher weight should be deflected
+  // only with probability of the weights ratio
+  bool is_b_deflected = math::random::uniform() < w_ratio;
+
   ////
   //// end of main calculation
   ////
@@ -237,9 +242,12 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   // set new velocity components
   if (swap)
   {
-    P_VEL_R(pa) = v_b_prime[0];
-    P_VEL_PHI(pa) = v_b_prime[1];
-    P_VEL_Z(pa) = v_b_prime[2];
+    if (is_b_deflected)
+    {
+      P_VEL_R(pa) = v_b_prime[0];
+      P_VEL_PHI(pa) = v_b_prime[1];
+      P_VEL_Z(pa) = v_b_prime[2];
+    }
 
     P_VEL_R(pb) = v_a_prime[0];
     P_VEL_PHI(pb) = v_a_prime[1];
@@ -251,9 +259,12 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
     P_VEL_PHI(pa) = v_a_prime[1];
     P_VEL_Z(pa) = v_a_prime[2];
 
-    P_VEL_R(pb) = v_b_prime[0];
-    P_VEL_PHI(pb) = v_b_prime[1];
-    P_VEL_Z(pb) = v_b_prime[2];
+    if (is_b_deflected)
+    {
+      P_VEL_R(pb) = v_b_prime[0];
+      P_VEL_PHI(pb) = v_b_prime[1];
+      P_VEL_Z(pb) = v_b_prime[2];
+    }
   }
 }
 
-- 
2.43.0


From 8b78c5d558ce8af913df940ef48a83ab658890e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:39 +0000
Subject: [PATCH 58/87] fix: do not collide heavy species as electrons

---
 src/collisions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/collisions.cpp b/src/collisions.cpp
index 281d653..78ac4b7 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -102,7 +102,9 @@ void Collisions::sort_to_cells()
       string cname = "Ions";
       if (name.compare((**ps).name) == 0 || cname.compare((**ps).name) == 0)
         map_ion2cell(i_n_shift, k_n_shift).push_back((*i));
-      else
+      // other species could be collided as electrons
+      // (i.e. electron beam) only when they are the same particles
+      else if ((**ps).mass == mass_el && (**ps).charge == charge_el)
         map_el2cell(i_n_shift, k_n_shift).push_back((*i));
     }
 }
-- 
2.43.0


From ecf915b6b7690e004b92aad0d164544372840ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:12 +0000
Subject: [PATCH 59/87] fix: respect direction of relative velocity along the
 axis in TA77S collisions

---
 src/collisions/collisionsTA77S.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collisions/collisionsTA77S.cpp b/src/collisions/collisionsTA77S.cpp
index 70bd85f..15cf260 100644
--- a/src/collisions/collisionsTA77S.cpp
+++ b/src/collisions/collisionsTA77S.cpp
@@ -144,11 +144,11 @@ void CollisionsTA77S::collide_single(double m_real_a, double m_real_b,
   {
     d_ux = u * sin_Theta * cos_Phi;
     d_uy = u * sin_Theta * sin_Phi;
-    d_uz = -u * (1 - cos_Theta);
+    d_uz = -uz * (1 - cos_Theta);
 
     d_ux2 = u * sin_Theta2 * cos_Phi2;
     d_uy2 = u * sin_Theta2 * sin_Phi2;
-    d_uz2 = -u * (1 - cos_Theta2);
+    d_uz2 = -uz * (1 - cos_Theta2);
   }
   else
   {
-- 
2.43.0


From 74207f6b1e90a0bc436373dd921f8afaed2ae99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:57 +0000
Subject: [PATCH 60/87] fix: select external electric field by name of its
 profile

---
 src/maxwellSolver/externalFields.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 438e2d6..620d979 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -48,20 +48,20 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
     z_end = geometry->cell_amount[1];
 
   // set electric and magnetic profiles
-  if ( _el_field_profile.compare("none") )
+  if ( _el_field_profile.compare("none") == 0 )
     e_profile_enum = 0;
-  else if ( _el_field_profile.compare("const_r") )
+  else if ( _el_field_profile.compare("const_r") == 0 )
     e_profile_enum = 1;
-  else if ( _el_field_profile.compare("const_phi") )
+  else if ( _el_field_profile.compare("const_phi") == 0 )
     e_profile_enum = 2;
-  else if ( _el_field_profile.compare("const_z") )
+  else if ( _el_field_profile.compare("const_z") == 0 )
     e_profile_enum = 3;
-  else if ( _el_field_profile.compare("linerad_r") )
+  else if ( _el_field_profile.compare("linerad_r") == 0 )
     e_profile_enum = 4;
-  else if ( _el_field_profile.compare("linerad_z") )
+  else if ( _el_field_profile.compare("linerad_z") == 0 )
     e_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no electric field profile, named ``" << _el_field_profile;
 
   if ( _magn_field_profile.compare("none") == 0 )
     m_profile_enum = 0;
@@ -76,7 +76,7 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
   else if ( _magn_field_profile.compare("linerad_z") == 0 )
     m_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _magn_field_profile;
 
   e_field_params = _el_field_params;
   m_field_params = _magn_field_params;
-- 
2.43.0


From 720f1ba2bdfffe7bfe215a99037c8ec2ce8335b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:57 +0000
Subject: [PATCH 61/87] fix: allow to use external electric and magnetic fields
 together

---
 src/maxwellSolver/externalFields.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 620d979..321c947 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -229,10 +229,6 @@ void ExternalFields::set_pml()
 
 void ExternalFields::set_el_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_h = 0;
-  field_h.overlay_set(0);
-
   // set electric field's overlay to 0
   field_e = 0; // reset electric field
   field_e.overlay_set(0);
@@ -278,12 +274,8 @@ void ExternalFields::set_el_field_homogenous_z ()
 
 void ExternalFields::set_magn_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_e = 0;
-  field_e.overlay_set(0);
-
-  // set electric field's overlay to 0
-  field_h = 0; // reset electric field
+  // set magnetic field's overlay to 0
+  field_h = 0; // reset magnetic field
   field_h.overlay_set(0);
 
   double dr = geometry->cell_size[0];
-- 
2.43.0


From ec0c9dda1b8d2ca1c42a8a196ce0cb7716beea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:57 +0000
Subject: [PATCH 62/87] fix: set external fields in guard cells between the
 domains

---
 include/maxwellSolver/externalFields.hpp |  8 +++----
 src/maxwellSolver/externalFields.cpp     | 27 +++++++++++++-----------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/maxwellSolver/externalFields.hpp b/include/maxwellSolver/externalFields.hpp
index ec66fb8..154b1bc 100644
--- a/include/maxwellSolver/externalFields.hpp
+++ b/include/maxwellSolver/externalFields.hpp
@@ -29,10 +29,10 @@ public:
 
 private:
   // internal variables to calculation for dielectric walls
-  unsigned int r_begin;
-  unsigned int z_begin;
-  unsigned int r_end;
-  unsigned int z_end;
+  int r_begin;
+  int z_begin;
+  int r_end;
+  int z_end;
 
   unsigned short e_profile_enum; // electric profile enum
   unsigned short m_profile_enum; // magnetic profile enum
diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 321c947..f0f188e 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -26,26 +26,29 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
                                  std::vector<double> _magn_field_params )
   : MaxwellSolver(_geometry, _time)
 {
+  // guard cells at the borders with other domains
+  int o_s = field_e[0].o_s;
+
   // emulate dielectric walls
   if (geometry->walls[0]) // r=0
     r_begin = 1;
   else
-    r_begin = 0;
+    r_begin = -o_s;
 
   if (geometry->walls[1]) // z=0
     z_begin = 1;
   else
-    z_begin = 0;
+    z_begin = -o_s;
 
   if (geometry->walls[2]) // r=r
     r_end = geometry->cell_amount[0] - 1;
   else
-    r_end = geometry->cell_amount[0];
+    r_end = geometry->cell_amount[0] + o_s;
 
   if (geometry->walls[3]) // z=z
     z_end = geometry->cell_amount[1] - 1;
   else
-    z_end = geometry->cell_amount[1];
+    z_end = geometry->cell_amount[1] + o_s;
 
   // set electric and magnetic profiles
   if ( _el_field_profile.compare("none") == 0 )
@@ -240,7 +243,7 @@ void ExternalFields::set_el_field_homogenous_z ()
 
   // E at the center axis (r=0) case
   if (geometry->walls[0]) // calculate only at the center axis (r=0)
-    for (unsigned int k = z_begin; k < z_end; ++k)
+    for (int k = z_begin; k < z_end; ++k)
     {
       field_e[0].set(0, k, 0);
       field_e[2].set(0, k, 0);
@@ -248,12 +251,12 @@ void ExternalFields::set_el_field_homogenous_z ()
 
   // E_z at the left wall (z=0) case
   if (geometry->walls[1]) // calculate only at the left wall (z=0)
-    for (unsigned int i = r_begin; i < r_end; ++i)
+    for (int i = r_begin; i < r_end; ++i)
       field_e[2].set(i, 0, 0);
 
   // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  for (int i = r_begin; i < r_end; i++)
+    for (int k = z_begin; k < z_end; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
@@ -285,7 +288,7 @@ void ExternalFields::set_magn_field_homogenous_z ()
 
   // E at the center axis (r=0) case
   if (geometry->walls[0]) // calculate only at the center axis (r=0)
-    for (unsigned int k = z_begin; k < z_end; ++k)
+    for (int k = z_begin; k < z_end; ++k)
     {
       field_h[0].set(0, k, 0);
       field_h[2].set(0, k, 0);
@@ -293,12 +296,12 @@ void ExternalFields::set_magn_field_homogenous_z ()
 
   // E_z at the left wall (z=0) case
   if (geometry->walls[1]) // calculate only at the left wall (z=0)
-    for (unsigned int i = r_begin; i < r_end; ++i)
+    for (int i = r_begin; i < r_end; ++i)
       field_h[2].set(i, 0, 0);
 
   // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  for (int i = r_begin; i < r_end; i++)
+    for (int k = z_begin; k < z_end; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
-- 
2.43.0


From 8da299229b43dbf5454ae867155c9eb0a6dc02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:20 +0000
Subject: [PATCH 63/87] fix: do not write duration of the simulation outside of
 allocated memory

---
 src/algo/common.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 76182c8..3eee907 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -66,7 +66,7 @@ namespace algo::common
 
     int d, hr, min;
     double sec;
-    char* the_time = new char;
+    char the_time[64];
 
     int sec_in_min = 60;
     int sec_in_hr = 3600;
@@ -76,14 +76,14 @@ namespace algo::common
     {
       min = (int)time_sec / sec_in_min;
       sec = time_sec - min * sec_in_min;
-      sprintf(the_time, "%dm %.0fs", min, sec);
+      snprintf(the_time, sizeof(the_time), "%dm %.0fs", min, sec);
     }
     else if (time_sec > sec_in_hr && time_sec < sec_in_day)
     {
       hr = (int)time_sec / sec_in_hr;
       min = (int)((time_sec - hr * sec_in_hr) / sec_in_min);
       sec = time_sec - hr * sec_in_hr - min * sec_in_min;
-      sprintf(the_time, "%dh %dm %.0fs", hr, min, sec);
+      snprintf(the_time, sizeof(the_time), "%dh %dm %.0fs", hr, min, sec);
     }
     else if (time_sec > sec_in_day)
     {
@@ -91,10 +91,10 @@ namespace algo::common
       hr = (int)((time_sec - d * sec_in_day) / sec_in_hr);
       min = (int)((time_sec - d * sec_in_day - hr * sec_in_hr) / sec_in_min);
       sec = time_sec - d * sec_in_day - hr * sec_in_hr - min * sec_in_min;
-      sprintf(the_time, "%dd %dh %dm %.0fs", d, hr, min, sec);
+      snprintf(the_time, sizeof(the_time), "%dd %dh %dm %.0fs", d, hr, min, sec);
     }
     else
-      sprintf(the_time, "%.0fs", time_sec);
+      snprintf(the_time, sizeof(the_time), "%.0fs", time_sec);
 
     return (std::string)the_time;
   }
-- 
2.43.0


From 9facd3587cbcc58de8583db9079ca67d221aae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:20 +0000
Subject: [PATCH 64/87] fix: refuse option -f without name of the file

---
 src/PiCoPiC.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 23ddffe..6dd49d2 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -116,7 +116,9 @@ string parse_argv_get_config(int argc, char **argv)
 
   if (algo::common::cmd_option_exists(argv, argv+argc, "-f"))
   {
-    filename = algo::common::get_cmd_option(argv, argv + argc, "-f");
+    const char *option = algo::common::get_cmd_option(argv, argv + argc, "-f");
+    if (option)
+      filename = option;
   }
   else
   {
-- 
2.43.0


From 990f2dd42d0b2d82e2a0b9d20694ae188e6198d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:08 +0000
Subject: [PATCH 65/87] fix: continue to write data after the pause

---
 include/outController.hpp |  4 ++++
 include/outWriter.hpp     |  6 ++++++
 src/PiCoPiC.cpp           | 45 ++++++++++++++++++---------------------
 src/outController.cpp     | 16 ++++++++++++++
 4 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/include/outController.hpp b/include/outController.hpp
index f00dd41..37c6639 100644
--- a/include/outController.hpp
+++ b/include/outController.hpp
@@ -64,6 +64,10 @@ public:
 
   void operator()(); // launch writers on all domains of all SMBs
 
+#ifdef ENABLE_HDF5
+  void set_file(HighFive::File *_file); // make all of the writers use another (or reopened) file
+#endif // ENABLE_HDF5
+
 private:
   void init_datasets();
   bool print_progress_table;
diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index 401e7fa..3cdde47 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -60,6 +60,12 @@ public:
   void operator()();
 
 #ifdef ENABLE_HDF5
+  void set_file(HighFive::File *_file)
+  {
+    hdf5_file = _file;
+    engine.data_file = _file;
+  };
+
   HighFive::File *hdf5_file;
 #endif
 };
diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 6dd49d2..b0c5b5c 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -53,7 +53,7 @@ string hdf5_filepath;
 
 // using namespace HighFive;
 
-HighFive::File *file;
+HighFive::File *file = nullptr;
 #endif // ENABLE_HDF5
 
 void signal_handler( int signum )
@@ -61,12 +61,9 @@ void signal_handler( int signum )
 #ifdef ENABLE_HDF5
   if (signum == SIGUSR1 && !lock_)
   {
+    // data file is released at the end of the current step
     LOG_S(INFO) << "Pause calculation";
-    LOG_S(INFO) << "Unlocking data file...";
-    delete file;
     lock_.store(true, std::memory_order_relaxed);
-    LOG_S(INFO) << "Unlocked";
-    cout << "Waiting for ``USR2'' OS signal to continue" << flush;
   }
   else if (signum == SIGUSR2 && lock_) // reopen
   {
@@ -89,7 +86,9 @@ void signal_handler( int signum )
        || signum == SIGSEGV )
   {
 #ifdef ENABLE_HDF5
-    delete file;
+    HighFive::File *file_to_close = file;
+    file = nullptr;
+    delete file_to_close;
 #endif // ENABLE_HDF5
 
     const char * sigstr = strsignal(signum);
@@ -353,13 +352,23 @@ int main(int argc, char **argv)
 #ifdef ENABLE_HDF5
       while (lock_)
       {
+        if (file)
+        {
+          LOG_S(INFO) << "Unlocking data file...";
+          HighFive::File *file_to_close = file;
+          file = nullptr;
+          delete file_to_close;
+          LOG_S(INFO) << "Unlocked";
+          cout << "Waiting for ``USR2'' OS signal to continue" << flush;
+        }
+
         if (recreate_writers_)
         {
           // reopen HDF file initially
           try
           {
             LOG_S(INFO) << "Locking data file...";
-            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite | HighFive::File::Excl);
+            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite);
             LOG_S(INFO) << "Locked";
           }
           catch (const HighFive::Exception&)
@@ -367,23 +376,9 @@ int main(int argc, char **argv)
             LOG_S(FATAL) << "Can not open data file ``" << hdf5_filepath << "''. Not accessible, or corrupted";
           }
 
-          // recreate all of the writers
-          // data_writers.clear();
-
-          // for (auto i = cfg.probes.begin(); i != cfg.probes.end(); ++i)
-          // {
-          //   int probe_size[4] = {i->dims[0], i->dims[1], i->dims[2], i->dims[3]};
-
-          //   DataWriter writer (cfg.output_data->data_root, i->component,
-          //                      i->specie, i->shape, probe_size, i->schedule,
-          //                      cfg.output_data->compress, cfg.output_data->compress_level,
-          //                      geometry_global, sim_time_clock, domains, cfg.cfg2str());
-
-          //   writer.hdf5_file = file; // pass pointer to opened HDF5 file to outEngineHDF5's object
-          //   writer.hdf5_init(cfg.cfg2str());
+          // let all of the writers use the reopened file
+          out_controller.set_file(file);
 
-          //   data_writers.push_back(writer);
-          // }
           lock_.store(false, std::memory_order_relaxed);
           recreate_writers_.store(false, std::memory_order_relaxed);
         }
@@ -397,7 +392,9 @@ int main(int argc, char **argv)
     }
 
 #ifdef ENABLE_HDF5
-    delete file;
+    HighFive::File *file_to_close = file;
+    file = nullptr;
+    delete file_to_close;
 #endif
     if (print_progress_table)
       msg::print_final();
diff --git a/src/outController.cpp b/src/outController.cpp
index b42ff19..12676a8 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -312,6 +312,22 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
   }
 }
 
+#ifdef ENABLE_HDF5
+void OutController::set_file(HighFive::File *_file)
+{
+  hdf5_file = _file;
+
+  for (unsigned int r = 0; r < geometry->domains_amount[0]; ++r)
+    for (unsigned int z = 0; z < geometry->domains_amount[1]; ++z)
+    {
+      Domain *dmn = smb->domains(r, z);
+
+      for (auto w = dmn->out_writers.begin(); w != dmn->out_writers.end(); ++w)
+        w->set_file(_file);
+    }
+}
+#endif // ENABLE_HDF5
+
 void OutController::init_datasets()
 {
   // create empty
-- 
2.43.0


From 697de261c14ed51c79bdddc18cd22b13f2dedfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:26 +0000
Subject: [PATCH 66/87] fix: do not require alignment of local array in square
 root

---
 src/algo/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 3eee907..29f5856 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -35,7 +35,7 @@ namespace algo::common
     double d[4];
     __m256d c = _mm256_sqrt_pd(_mm256_set_pd(x, 0, 0, 0));
 
-    _mm256_store_pd(d, c);
+    _mm256_storeu_pd(d, c); // local array is not necessarily aligned
 
     return d[3];
   }
-- 
2.43.0


From f2b3e12a0cb56746d5644f3befa60d5a0826d009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:14 +0000
Subject: [PATCH 67/87] fix: make directories for paths with doubled or
 trailing slashes

---
 src/algo/common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 29f5856..849b5cd 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -147,7 +147,8 @@ namespace algo::common
 #ifdef _WIN32
     return 0 == _mkdir(path.c_str());
 #else
-    return 0 == mkdir(path.c_str(), mode);
+    // (path with extra slashes could be already created with its parent)
+    return 0 == mkdir(path.c_str(), mode) || directory_exists(path);
 #endif
 
     case EEXIST:
-- 
2.43.0


From 97c8b7b483e17c31f09b1801b5fd5aa298e0cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:10 +0000
Subject: [PATCH 68/87] fix: do not write to /tmp, when python library is
 imported

---
 lib/python/picopic/tinycache.py | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/lib/python/picopic/tinycache.py b/lib/python/picopic/tinycache.py
index 2f8df33..4e5afbb 100644
--- a/lib/python/picopic/tinycache.py
+++ b/lib/python/picopic/tinycache.py
@@ -65,22 +65,3 @@ class TinyCache:
         intvalue = numpy.asarray(value, dtype='float')
         self.__cache__[key] = intvalue
         intvalue.tofile(cache_file)
-
-
-# In[42]:
-
-
-tc = TinyCache("/tmp/tinycache")
-
-
-# In[43]:
-
-
-tc.update_cache("test", 150)
-
-
-# In[44]:
-
-
-tc.get_cache("test")
-
-- 
2.43.0


From 15c87804fb95293280265849dd12cf488214394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:10 +0000
Subject: [PATCH 69/87] fix: report missing data file as such

---
 lib/python/picopic/h5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 07e9778..5d7ef50 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -17,7 +17,7 @@ GNU General Public License for more details.
 You should have received a copy of the GNU General Public License
 along with this program.  If not, see <http://www.gnu.org/licenses/>.
 """
-import os, sys, re
+import os, sys, re, errno
 
 import json
 import h5py
-- 
2.43.0


From 9f69877a6612b41449d87caeaa06e17c65ed9ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:10 +0000
Subject: [PATCH 70/87] fix: allow to use h5 reader as context manager

---
 lib/python/picopic/h5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 5d7ef50..5f95bef 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -65,7 +65,7 @@ class H5Reader (Reader):
         return self
 
 
-    def __exit__(self):
+    def __exit__(self, exc_type, exc_value, traceback):
         self.__del__()
 
 
-- 
2.43.0


From 31d35c29a0fb805ebeb437fe720fbfa0fb69511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:10 +0000
Subject: [PATCH 71/87] fix: get number of frames from dimensions of the
 dataset

---
 lib/python/picopic/h5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 5f95bef..0b17025 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -71,7 +71,7 @@ class H5Reader (Reader):
 
     def __ds_range__(self, p_component, p_type, shape):
         path = self.__path__(p_component, p_type, shape)
-        frange = len(self.file[path].keys())
+        frange = self.file[path].shape[0]
 
         return frange
 
-- 
2.43.0


From d1625448ca08016b5a375d6af940fbf32aa962f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:10 +0000
Subject: [PATCH 72/87] fix: read columns, rows and ranges of dots from their
 datasets

---
 lib/python/picopic/h5_reader.py | 8 ++++----
 lib/python/picopic/reader.py    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 0b17025..86651e0 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -99,11 +99,11 @@ class H5Reader (Reader):
     def col(self, p_component, z, number): # longitude and number by time
         '''get column by number.'''
         p_type = 'col'
-        shape = [0, 0, z, 0]
+        shape = [0, 0, 0, z]
         path = self.__path__(p_component, p_type, shape)
         if self.__verbose__:
             sys.stdout.write("Loading data set {}/{}/{}..."
-                             .format(p_component, p_type, shape[2], number))
+                             .format(p_component, p_type, shape[3], number))
             sys.stdout.flush()
         self.__validate_col__(p_component, shape, number)
         col = self.file[path][number]
@@ -116,7 +116,7 @@ class H5Reader (Reader):
     def row(self, p_component, r, number): # latitude and number by time
         '''get row by number'''
         p_type = 'row'
-        shape = [0, 0, 0, r]
+        shape = [0, 0, r, 0]
         path = self.__path__(p_component, p_type, shape)
         if self.__verbose__:
             sys.stdout.write("Loading data set {}/{}/{}..."
@@ -133,7 +133,7 @@ class H5Reader (Reader):
     def dot(self, p_component, r, z, number): # latitude, longitude and number by time
         ''' get dot by number. Find required dataset automatically '''
         p_type = 'dot'
-        shape = [0, 0, z, r]
+        shape = [0, 0, r, z]
         path = self.__path__(p_component, p_type, shape)
         self.__validate_dot__(p_component, shape, number)
         if self.__verbose__:
diff --git a/lib/python/picopic/reader.py b/lib/python/picopic/reader.py
index 6efe75b..bdc055e 100644
--- a/lib/python/picopic/reader.py
+++ b/lib/python/picopic/reader.py
@@ -56,7 +56,7 @@ class Reader:
         elif p_type == 'row':
             path = "/{}/{}/{}".format(p_component, p_type, shape[2])
         elif p_type == 'dot':
-            path = "/{}/{}/{}_{}".format(p_component, p_type, shape[3], shape[2])
+            path = "/{}/{}/{}_{}".format(p_component, p_type, shape[2], shape[3])
         else:
             raise TypeError("Incorrect data type {}. Must be rec/col/row/dot".format(p_type))
 
-- 
2.43.0


From 46a3d07a3675baa65d096a716df442dff02dab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:10 +0000
Subject: [PATCH 73/87] fix: read ranges of columns

---
 lib/python/picopic/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/python/picopic/reader.py b/lib/python/picopic/reader.py
index bdc055e..e8e6c8c 100644
--- a/lib/python/picopic/reader.py
+++ b/lib/python/picopic/reader.py
@@ -227,11 +227,11 @@ class Reader:
         csize = self.meta.geometry_grid[0]
         if end_number == None:
             end_number = self.__ds_range__(p_component, 'col', [0, 0, 0, z])
-        crange = start_number - end_number
+        crange = end_number - start_number
         cols = np.zeros((crange, csize))
 
         for i in range(start_number, end_number):
-            cols[i-start_number] = self.col(p_component, [0, 0, csize, z], i)
+            cols[i-start_number] = self.col(p_component, z, i)
 
         return(cols)
 
-- 
2.43.0


From e665ef2bf8b77e4beefee4891e84624e933d591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:10 +0000
Subject: [PATCH 74/87] fix: read ranges of columns, rows and dots of
 rectangles

---
 lib/python/picopic/reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/python/picopic/reader.py b/lib/python/picopic/reader.py
index e8e6c8c..5b44c3d 100644
--- a/lib/python/picopic/reader.py
+++ b/lib/python/picopic/reader.py
@@ -265,9 +265,9 @@ class Reader:
 
     def col_rec_range(self, p_component, z, rec_shape, start_number=0, end_number=None):
         '''get column range from rec range'''
-        rsize = self.meta.geometry_grid[0]
+        rsize = self.__rec_size__(rec_shape)[0]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         crange = end_number - start_number
         recs = np.zeros((crange, rsize))
         for i in range(start_number, end_number):
@@ -279,9 +279,9 @@ class Reader:
 
     def row_rec_range(self, p_component, r, rec_shape, start_number=0, end_number=None):
         '''get row range from rec range'''
-        rsize = self.meta.geometry_grid[1]
+        rsize = self.__rec_size__(rec_shape)[1]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         rrange = end_number - start_number
         recs = np.zeros((rrange, rsize))
         for i in range(start_number, end_number):
@@ -295,7 +295,7 @@ class Reader:
         '''get dot range from rec range'''
         dsize = self.meta.geometry_grid[1]
         if end_number == None:
-            end_number = self.__ds_range__(p_component, 'rec', shape)
+            end_number = self.__ds_range__(p_component, 'rec', rec_shape)
         drange = end_number - start_number
         recs = np.zeros((drange))
         for i in range(start_number, end_number):
-- 
2.43.0


From 6eb10cee2fcc95bbc7f26e164b280feb7e541076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 75/87] fix: read range of dots, stored as arrays of single
 item

---
 lib/python/picopic/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python/picopic/reader.py b/lib/python/picopic/reader.py
index 5b44c3d..2dd4501 100644
--- a/lib/python/picopic/reader.py
+++ b/lib/python/picopic/reader.py
@@ -258,7 +258,7 @@ class Reader:
         dots = np.zeros((drange))
 
         for i in range(start_number, end_number):
-            dots[i-start_number] = self.dot(p_component, r, z, i)
+            dots[i-start_number] = np.ravel(self.dot(p_component, r, z, i))[0]
 
         return(dots)
 
-- 
2.43.0


From f02d82ea4925423ff4d023baeb22bf28449db508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 76/87] fix: do not close data file, which was not opened

---
 lib/python/picopic/h5_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/python/picopic/h5_reader.py b/lib/python/picopic/h5_reader.py
index 86651e0..414e8ac 100644
--- a/lib/python/picopic/h5_reader.py
+++ b/lib/python/picopic/h5_reader.py
@@ -37,6 +37,7 @@ class H5Reader (Reader):
     dot: dot in frame, column, or row with coords
     '''
     def __init__(self, path, use_cache=False, verbose=False):
+        self.file = None
         real_path = ""
         if os.path.isfile(path):
             self.file = h5py.File(path, 'r')
@@ -51,7 +52,8 @@ class H5Reader (Reader):
         super(H5Reader, self).__init__(real_path, config_json, use_cache, verbose)
 
     def __del__(self):
-        self.file.close()
+        if self.file is not None:
+            self.file.close()
 
 
     def __enter__(self):
-- 
2.43.0


From f07ccaef8e70368aff60087739974f8ac59dfe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:21 +0000
Subject: [PATCH 77/87] fix: draw pairs of colliding particles anew for every
 cell and step

---
 include/collisions.hpp |  2 +-
 src/collisions.cpp     | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/collisions.hpp b/include/collisions.hpp
index 38a0a1e..3e9019f 100644
--- a/include/collisions.hpp
+++ b/include/collisions.hpp
@@ -19,7 +19,7 @@
 #define _COLLISIONS_HPP_
 
 #include <vector>
-#include <algorithm>    // std::min, std::random_shuffle
+#include <algorithm>    // std::min, std::max
 
 #include "defines.hpp"
 #include "msg.hpp"
diff --git a/src/collisions.cpp b/src/collisions.cpp
index 78ac4b7..98fee09 100644
--- a/src/collisions.cpp
+++ b/src/collisions.cpp
@@ -16,6 +16,7 @@
  */
 
 #include "collisions.hpp"
+#include "math/rand.hpp"
 
 using namespace std;
 using namespace constant;
@@ -109,15 +110,24 @@ void Collisions::sort_to_cells()
     }
 }
 
+//! put particles to the random order
+static void shuffle (vector<Particle *> &particles)
+{
+  for (size_t n = particles.size(); n > 1; --n)
+  {
+    size_t k = min(n - 1, (size_t)(math::random::uniform() * n));
+    swap(particles[n - 1], particles[k]);
+  }
+}
+
 //! TA77: 6. resort cell elements randomly to simply prepare the pairs
 void Collisions::random_sort ()
 {
   for (int i = 0; i < geometry->cell_amount[0]; ++i)
     for (int j = 0; j < geometry->cell_amount[1]; ++j)
     {
-      std::srand ( unsigned ( std::time(0) ) );
-      std::random_shuffle(map_el2cell(i, j).begin(), map_el2cell(i, j).end());
-      std::random_shuffle(map_ion2cell(i, j).begin(), map_ion2cell(i, j).end());
+      shuffle(map_el2cell(i, j));
+      shuffle(map_ion2cell(i, j));
     }
 }
 
-- 
2.43.0


From 29c83c053a29d319b76ee86c86af74a3a738b56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:30 +0000
Subject: [PATCH 78/87] fix: begin the simulation at the configured start time

---
 src/cfg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index d322eac..2da466b 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -466,7 +466,7 @@ void Cfg::init_time ()
   time->start = json_root["start"].get<double>();
   time->end = json_root["end"].get<double>();
   time->step = json_root["step"].get<double>();
-  time->current = 0;
+  time->current = time->start;
 }
 
 void Cfg::init_output_data()
-- 
2.43.0


From 34c97bcd4d91a043ac8c9f124bc8bc288986827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:51 +0000
Subject: [PATCH 79/87] fix: scatter SK98 particles by angle of the rest frame
 of one of them

Standard deviation of the angle is found in the frame, where one of particles
is at rest, but it was converted to the center of mass frame with velocity
and gamma of this frame in the laboratory. So deflection depended on motion of
the whole pair, and light particles were deflected by heavy ones by square of
the masses ratio weaker. Also angles over pi/2 were folded to the first quarter
---
 src/collisions/collisionsSK98.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/collisions/collisionsSK98.cpp b/src/collisions/collisionsSK98.cpp
index 81af48d..28427eb 100644
--- a/src/collisions/collisionsSK98.cpp
+++ b/src/collisions/collisionsSK98.cpp
@@ -176,9 +176,11 @@ void CollisionsSK98::collide_single(double m_real_a, double m_real_b,
   double cos_theta = 1 - 2 * pow(delta, 2) / (1 + pow(delta, 2));
 
   // find theta angle for the COM frame
-  double tg_theta_cm = sin_theta / (gamma_cm * ( cos_theta - algo::common::sq_rt(v_cm_2) / v_rel_abs ) );
-  double sin_theta_cm = sin(atan(tg_theta_cm));
-  double cos_theta_cm = cos(atan(tg_theta_cm));
+  // (angle above is for the frame, where the a-particle is at rest, p_rel_abs is also there,
+  // so the center of mass moves with velocity of the a-particle in the COM frame)
+  double theta_cm = atan2(sin_theta, gamma_a_cm * ( cos_theta - v_a_cm.length() / v_rel_abs ));
+  double sin_theta_cm = sin(theta_cm);
+  double cos_theta_cm = cos(theta_cm);
 
   // find Phi angle
   double phi_angle = math::random::uniform_angle();
-- 
2.43.0


From 38d24fee137ab42fc57f43724171a0c533f91a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 80/87] fix: do not truncate schedules and positions of probes

---
 include/outWriter.hpp | 12 ++++++------
 src/outController.cpp |  2 +-
 src/outWriter.cpp     | 16 ++++++++--------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index 3cdde47..7119845 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -37,23 +37,23 @@ private:
 #endif // end of ENABLE_HDF5
 
   TimeSim *time;
-  unsigned short schedule;
+  unsigned int schedule;
   unsigned short shape; // 0 - cube; 1 - rec; 2 - vec; 3 - dot
-  std::vector<short> position; // { a_start, b_start, c_start, ... a_end, b_end, c_end ... } for rectangles and cubes - diagonal points
+  std::vector<int> position; // { a_start, b_start, c_start, ... a_end, b_end, c_end ... } for rectangles and cubes - diagonal points
   Grid<double> *values;
   std::string path;
 
 public:
   OutWriter () {};
   OutWriter ( std::string _path, unsigned short _shape,
-              std::vector<short> _position, std::vector<size_t> _engine_offset,
-              unsigned short _schedule, bool _append, unsigned short _compress,
+              std::vector<int> _position, std::vector<size_t> _engine_offset,
+              unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 
 #ifdef ENABLE_HDF5
   OutWriter ( HighFive::File* _file, std::string _path, unsigned short _shape,
-              std::vector<short> _position, std::vector<size_t> _engine_offset,
-              unsigned short _schedule, bool _append, unsigned short _compress,
+              std::vector<int> _position, std::vector<size_t> _engine_offset,
+              unsigned int _schedule, bool _append, unsigned short _compress,
               TimeSim *_time, Grid<double> *_values );
 #endif // ENABLE_HDF5
 
diff --git a/src/outController.cpp b/src/outController.cpp
index 12676a8..ebe2882 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -109,7 +109,7 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
           )
         {
           // calculate effective probe size
-          vector<short> eff_prb_size = {0,0,0,0};
+          vector<int> eff_prb_size = {0,0,0,0};
           if (prb_size[0] < domain_size[0])
             eff_prb_size[0] = domain_size[0];
           else
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 78b0d9a..214e70d 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -20,8 +20,8 @@
 using namespace std;
 
 OutWriter::OutWriter ( string _path, unsigned short _shape,
-                       vector<short> _position, vector<size_t> _engine_offset,
-                       unsigned short _schedule, bool _append, unsigned short _compress,
+                       vector<int> _position, vector<size_t> _engine_offset,
+                       unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : time(_time)
 {
@@ -34,8 +34,8 @@ OutWriter::OutWriter ( string _path, unsigned short _shape,
 
 #ifdef ENABLE_HDF5
 OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shape,
-                       vector<short> _position, vector<size_t> _engine_offset,
-                       unsigned short _schedule, bool _append, unsigned short _compress,
+                       vector<int> _position, vector<size_t> _engine_offset,
+                       unsigned int _schedule, bool _append, unsigned short _compress,
                        TimeSim *_time, Grid<double> *_values )
   : OutWriter ( _path, _shape, _position, _engine_offset, _schedule,
                 _append, _compress, _time, _values)
@@ -63,8 +63,8 @@ void OutWriter::operator()()
       vector<vector<double>> val (position[2] - position[0],
                                   vector<double> (position[3] - position[1], 0));
 
-      for (short i = position[0]; i < position[2]; ++i)
-        for (short j = position[1]; j < position[3]; ++j)
+      for (int i = position[0]; i < position[2]; ++i)
+        for (int j = position[1]; j < position[3]; ++j)
           val[i - position[0]][j - position[1]] = (*values)(i, j);
 
       engine.write_rec(slice, val);
@@ -73,7 +73,7 @@ void OutWriter::operator()()
     case 1: // column shape
     {
       vector<double> val;
-      short col_offset = position[3];
+      int col_offset = position[3];
       for (unsigned int i = 0; i < values->x_size; ++i)
         val.push_back( (*values)(i, col_offset) );
 
@@ -83,7 +83,7 @@ void OutWriter::operator()()
     case 2: // row shape
     {
       vector<double> val;
-      short row_offset = position[2];
+      int row_offset = position[2];
       for (unsigned int i = 0; i < values->y_size; ++i)
         val.push_back( (*values)(row_offset, i) );
 
-- 
2.43.0


From 4769b9bb6386bf0f4c701ea38876b11fed70bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:41 +0000
Subject: [PATCH 81/87] fix: refuse probes with schedule below 1

---
 src/cfg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 2da466b..917bf29 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -321,6 +321,9 @@ void Cfg::init_probes ()
 
     p_p.schedule = (int)o["schedule"].get<double>();
 
+    if (o["schedule"].get<double>() < 1)
+      LOG_S(FATAL) << "Incorrect schedule of the probe ``" << p_p.path << "''. Must be 1 or more";
+
     // rec covers cells from the start point up to (but not including) the end
     // point, the others point to the cells itself
     bool is_rec = (p_p.shape == 0);
-- 
2.43.0


From 9fd27dbaba30f779261906876d8bfe82b71fffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:41 +0000
Subject: [PATCH 82/87] fix: refuse time step, that is not positive

---
 src/cfg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 917bf29..f32e000 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -470,6 +470,9 @@ void Cfg::init_time ()
   time->end = json_root["end"].get<double>();
   time->step = json_root["step"].get<double>();
   time->current = time->start;
+
+  if (time->step <= 0)
+    LOG_S(FATAL) << "Time step must be positive. Actual value is: ``" << time->step << "''";
 }
 
 void Cfg::init_output_data()
-- 
2.43.0


From fea4bfe8a32c5d52f4752085ea5ba0e69a934c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:08 +0000
Subject: [PATCH 83/87] fix: tell the path, when physical info is asked for a
 missing data file

---
 tools/parse_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/parse_metadata.py b/tools/parse_metadata.py
index ee0e203..7007070 100755
--- a/tools/parse_metadata.py
+++ b/tools/parse_metadata.py
@@ -47,7 +47,7 @@ def phys_info(properties_path):
     if os.path.isfile(properties_path) or os.path.isfile(os.path.join(properties_path, "data.h5")):
         reader = H5Reader(path = properties_path, use_cache=False, verbose=False)
     else:
-        raise EnvironmentError("There is no corresponding data files in the path " + args.properties_path + ". Can not continue.")
+        raise EnvironmentError("There is no corresponding data files in the path " + properties_path + ". Can not continue.")
 
     config = reader.meta
 
-- 
2.43.0


From 6433a199391a086b2538f594b4afd277e37d9306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:08 +0000
Subject: [PATCH 84/87] fix: show physical info of plasma without beams

---
 tools/parse_metadata.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/parse_metadata.py b/tools/parse_metadata.py
index 7007070..e72ac55 100755
--- a/tools/parse_metadata.py
+++ b/tools/parse_metadata.py
@@ -64,6 +64,15 @@ def phys_info(properties_path):
     elif not ion_density:
         print("Incorrect {} file (no particles->particle_kind->ions section)".format(properties_path))
     else:
+        if not config.beams:
+            w_p = langmur_freq(el_density)
+            print("General:")
+            print("Expected plasma frequency:\t %.4g Hz"%(w_p/(2 * math.pi)))
+            print("Expected Debye length:\t\t %.4g m"%(debye_length(el_density, ion_density, el_temperature, ion_temperature)))
+            print("Number of calculation steps is\t %.4g"%((config.time[1] - config.time[0]) / float(config.time[2])))
+            print()
+            return
+
         bunch_duration = config.beams[0].bunch_length / config.beams[0].velocity
         interval_bunches_duration = config.beams[0].bunches_distance / config.beams[0].velocity
         beam_length = config.beams[0].bunch_length * config.beams[0].bunch_amount + config.beams[0].bunches_distance * (config.beams[0].bunch_amount - 1)
-- 
2.43.0


From 307cdc781b1336fc465a94de98569887f48d8f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:35 +0000
Subject: [PATCH 85/87] fix: let tick labels of plots begin and end at zero

---
 lib/python/picopic/plot_builder.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/python/picopic/plot_builder.py b/lib/python/picopic/plot_builder.py
index 9849d66..275c650 100644
--- a/lib/python/picopic/plot_builder.py
+++ b/lib/python/picopic/plot_builder.py
@@ -54,9 +54,9 @@ class PlotBuilder:
         self.y_ticklabel_start = y_ticklabel_start
         self.z_ticklabel_start = z_ticklabel_start
 
-        self.x_ticklabel_end = x_ticklabel_end or x_plot_size
-        self.y_ticklabel_end = y_ticklabel_end or y_plot_size
-        self.z_ticklabel_end = z_ticklabel_end or z_plot_size
+        self.x_ticklabel_end = x_plot_size if x_ticklabel_end is None else x_ticklabel_end
+        self.y_ticklabel_end = y_plot_size if y_ticklabel_end is None else y_ticklabel_end
+        self.z_ticklabel_end = z_plot_size if z_ticklabel_end is None else z_ticklabel_end
 
         # calculate accurate ticks number automatically (recommended)
         if x_plot_size > 0 and y_plot_size > 0:
@@ -161,12 +161,12 @@ class PlotBuilder:
         y_ticks = number_y_ticks or self.number_y_ticks
         z_ticks = number_z_ticks or self.number_z_ticks
 
-        x_tlabel_start = x_ticklabel_start or self.x_ticklabel_start
-        y_tlabel_start = y_ticklabel_start or self.y_ticklabel_start
-        z_tlabel_start = z_ticklabel_start or self.z_ticklabel_start
-        x_tlabel_end = x_ticklabel_end or self.x_ticklabel_end
-        y_tlabel_end = y_ticklabel_end or self.y_ticklabel_end
-        z_tlabel_end = z_ticklabel_end or self.z_ticklabel_end
+        x_tlabel_start = self.x_ticklabel_start if x_ticklabel_start is None else x_ticklabel_start
+        y_tlabel_start = self.y_ticklabel_start if y_ticklabel_start is None else y_ticklabel_start
+        z_tlabel_start = self.z_ticklabel_start if z_ticklabel_start is None else z_ticklabel_start
+        x_tlabel_end = self.x_ticklabel_end if x_ticklabel_end is None else x_ticklabel_end
+        y_tlabel_end = self.y_ticklabel_end if y_ticklabel_end is None else y_ticklabel_end
+        z_tlabel_end = self.z_ticklabel_end if z_ticklabel_end is None else z_ticklabel_end
 
         x_tick_grid_size = np.linspace(0, x_size, x_ticks + 1)
         y_tick_grid_size = np.linspace(0, y_size, y_ticks + 1)
-- 
2.43.0


From 83249c6b60341f5b6dc701543e9ce1b4962b0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 86/87] fix: show labels of the third axis of plots, when sizes
 are small

---
 lib/python/picopic/plot_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python/picopic/plot_builder.py b/lib/python/picopic/plot_builder.py
index 275c650..7a58d34 100644
--- a/lib/python/picopic/plot_builder.py
+++ b/lib/python/picopic/plot_builder.py
@@ -181,7 +181,7 @@ class PlotBuilder:
         x_tlabel_range = list(map(lambda a: float("{:.2e}".format(a)), np.linspace(x_tlabel_start, x_tlabel_end, x_ticks + 1)))
         y_tlabel_range = list(map(lambda a: float("{:.2e}".format(a)), np.linspace(y_tlabel_start, y_tlabel_end, y_ticks + 1)))
 
-        if projection == '3d': z_tlabel_range = np.around(np.linspace(z_tlabel_start, z_tlabel_end, z_ticks + 1), 5)
+        if projection == '3d': z_tlabel_range = list(map(lambda a: float("{:.2e}".format(a)), np.linspace(z_tlabel_start, z_tlabel_end, z_ticks + 1)))
 
         if x_size > 0: subplot.set_xticklabels(x_tlabel_range)
         if y_size > 0: subplot.set_yticklabels(y_tlabel_range)
-- 
2.43.0


From f58b1d993d419c9b2cd35fbced59064c7e92a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:35 +0000
Subject: [PATCH 87/87] fix: format numbers for plots in LaTeX

---
 lib/python/picopic/plot_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python/picopic/plot_builder.py b/lib/python/picopic/plot_builder.py
index 7a58d34..fb3b8a9 100644
--- a/lib/python/picopic/plot_builder.py
+++ b/lib/python/picopic/plot_builder.py
@@ -316,8 +316,9 @@ class PlotBuilder:
             cbar.set_ticklabels(__ticklabels)
             cbar.ax.tick_params(labelsize=font_size)
 
+    @staticmethod
     def latex_float(number):
-        float_str = "{0:.2g}".format(f)
+        float_str = "{0:.2g}".format(number)
         if "e" in float_str:
             base, exponent = float_str.split("e")
             return r"{0:.2} \times 10^{{{1}}}".format(float(base), int(exponent))
-- 
2.43.0

