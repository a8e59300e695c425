From ce8eda159c28974f0df418a968881198ef2690cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 01/25] fix: keep both PML stretching profiles when one patch
 holds both layers of an axis

---
 src/lambdapic/core/maxwell/solver/solver.py | 29 +++++++++++----------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/lambdapic/core/maxwell/solver/solver.py b/src/lambdapic/core/maxwell/solver/solver.py
index 147690b..9b5ac63 100644
--- a/src/lambdapic/core/maxwell/solver/solver.py
+++ b/src/lambdapic/core/maxwell/solver/solver.py
@@ -86,24 +86,25 @@ class MaxwellSolver(PickleableTypedList):
         self.kappa_bz_list = typed.List()
 
         for p in self.patches_pml_boundary:
-            kappa_ex = p.pml_boundary[0].kappa_ex
-            kappa_ey = p.pml_boundary[0].kappa_ey
-            kappa_ez = p.pml_boundary[0].kappa_ez
-            kappa_bx = p.pml_boundary[0].kappa_bx
-            kappa_by = p.pml_boundary[0].kappa_by
-            kappa_bz = p.pml_boundary[0].kappa_bz
-
-            # Populate kappa values from PML boundaries
+            kappa_ex = np.ones_like(p.pml_boundary[0].kappa_ex)
+            kappa_ey = np.ones_like(p.pml_boundary[0].kappa_ey)
+            kappa_ez = np.ones_like(p.pml_boundary[0].kappa_ez)
+            kappa_bx = np.ones_like(p.pml_boundary[0].kappa_bx)
+            kappa_by = np.ones_like(p.pml_boundary[0].kappa_by)
+            kappa_bz = np.ones_like(p.pml_boundary[0].kappa_bz)
+
+            # Combine kappa values from PML boundaries, each of which is 1 outside
+            # its own layer (a patch may hold both layers of an axis)
             for pml in p.pml_boundary:
                 if isinstance(pml, PMLX):
-                    kappa_ex = pml.kappa_ex
-                    kappa_bx = pml.kappa_bx
+                    kappa_ex = kappa_ex * pml.kappa_ex
+                    kappa_bx = kappa_bx * pml.kappa_bx
                 elif isinstance(pml, PMLY):
-                    kappa_ey = pml.kappa_ey
-                    kappa_by = pml.kappa_by
+                    kappa_ey = kappa_ey * pml.kappa_ey
+                    kappa_by = kappa_by * pml.kappa_by
                 elif isinstance(pml, PMLZ):
-                    kappa_ez = pml.kappa_ez
-                    kappa_bz = pml.kappa_bz
+                    kappa_ez = kappa_ez * pml.kappa_ez
+                    kappa_bz = kappa_bz * pml.kappa_bz
 
             self.kappa_ex_list.append(kappa_ex)
             self.kappa_ey_list.append(kappa_ey)
-- 
2.43.0


From 7d27c31d2016fa4df909ad03d209685941c582ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 02/25] fix: do not add received currents into overlapping
 strips of a patch from several threads

---
 src/lambdapic/core/mpi/sync_fields2d.c | 3 ++-
 src/lambdapic/core/mpi/sync_fields3d.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/mpi/sync_fields2d.c b/src/lambdapic/core/mpi/sync_fields2d.c
index d011de3..de137fd 100644
--- a/src/lambdapic/core/mpi/sync_fields2d.c
+++ b/src/lambdapic/core/mpi/sync_fields2d.c
@@ -472,7 +472,8 @@ static PyObject* sync_currents_2d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    // strips of one patch overlap: a patch is unpacked by a single thread
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
diff --git a/src/lambdapic/core/mpi/sync_fields3d.c b/src/lambdapic/core/mpi/sync_fields3d.c
index d05d587..86dc3b9 100644
--- a/src/lambdapic/core/mpi/sync_fields3d.c
+++ b/src/lambdapic/core/mpi/sync_fields3d.c
@@ -824,7 +824,8 @@ static PyObject* sync_currents_3d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    // strips of one patch overlap: a patch is unpacked by a single thread
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
-- 
2.43.0


From d1092c11d4b86c817d56cc9096a514eb9209f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 03/25] fix: look up 3D neighbour ranks in the rank map, as in
 2D

---
 src/lambdapic/core/patch/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/core/patch/patch.py b/src/lambdapic/core/patch/patch.py
index 0b666d8..b5fcd44 100644
--- a/src/lambdapic/core/patch/patch.py
+++ b/src/lambdapic/core/patch/patch.py
@@ -633,7 +633,7 @@ class Patches:
             for bound in Boundary3D:
                 neighbor_index = p.neighbor_index[bound]
                 if neighbor_index >= 0:
-                    neighbor_rank = self.patches[neighbor_index].rank
+                    neighbor_rank = patch_rank_map[neighbor_index]
                     if neighbor_rank != p.rank:
                         p.set_neighbor_rank(**{bound.name.lower(): neighbor_rank})
 
-- 
2.43.0


From d9896b4db0868f398536f654983ca36d86500280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 04/25] fix: move particles of 3D simulations in the separate
 position push

---
 src/lambdapic/core/pusher/cpu.py    | 41 ++++++++++++++++++++++++++++-
 src/lambdapic/core/pusher/pusher.py |  9 ++++++-
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/pusher/cpu.py b/src/lambdapic/core/pusher/cpu.py
index 35a5824..1fae570 100644
--- a/src/lambdapic/core/pusher/cpu.py
+++ b/src/lambdapic/core/pusher/cpu.py
@@ -88,4 +88,43 @@ def push_position_patches_2d(
 
         is_dead = is_dead_list[ipatch]
         npart = len(is_dead)
-        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
\ No newline at end of file
+        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
+
+
+@njit(cache=True)
+def push_position_3d( x, y, z, ux, uy, uz, inv_gamma, N, is_dead, dt):
+    """
+    Advance the particles' positions over `dt` using the momenta `ux`, `uy`, `uz`,
+    """
+    # Timestep, multiplied by c
+    cdt = c*dt
+
+    for ip in range(N) :
+        if is_dead[ip]:
+            continue
+        x[ip] += cdt * inv_gamma[ip] * ux[ip]
+        y[ip] += cdt * inv_gamma[ip] * uy[ip]
+        z[ip] += cdt * inv_gamma[ip] * uz[ip]
+
+@jit_spinner
+@njit(parallel=True, cache=True)
+def push_position_patches_3d(
+    x_list, y_list, z_list,
+    ux_list, uy_list, uz_list, inv_gamma_list,
+    is_dead_list, 
+    npatches, dt,
+) -> None:
+    for _ipatch in prange(npatches):
+        ipatch = np.int64(_ipatch)
+        x = x_list[ipatch]
+        y = y_list[ipatch]
+        z = z_list[ipatch]
+
+        ux = ux_list[ipatch]
+        uy = uy_list[ipatch]
+        uz = uz_list[ipatch]
+        inv_gamma = inv_gamma_list[ipatch]
+
+        is_dead = is_dead_list[ipatch]
+        npart = len(is_dead)
+        push_position_3d( x, y, z, ux, uy, uz, inv_gamma, npart, is_dead, dt )
diff --git a/src/lambdapic/core/pusher/pusher.py b/src/lambdapic/core/pusher/pusher.py
index 4fab2dd..ddacfdb 100644
--- a/src/lambdapic/core/pusher/pusher.py
+++ b/src/lambdapic/core/pusher/pusher.py
@@ -9,7 +9,7 @@ from lambdapic.core.particles import SpinParticles
 from ..patch import Patches
 from ..utils.pickle_list import PickleableTypedList
 from ..utils.enable_mixin import EnableMixin, if_enabled
-from .cpu import boris_push_patches, photon_push_patches, push_position_patches_2d
+from .cpu import boris_push_patches, photon_push_patches, push_position_patches_2d, push_position_patches_3d
 
 
 class PusherBase(PickleableTypedList,EnableMixin):
@@ -108,6 +108,13 @@ class PusherBase(PickleableTypedList,EnableMixin):
                 self.is_dead_list, 
                 self.npatches, dt,
             )
+        elif self.dimension == 3:
+            push_position_patches_3d(
+                self.x_list, self.y_list, self.z_list,
+                self.ux_list, self.uy_list, self.uz_list, self.inv_gamma_list,
+                self.is_dead_list, 
+                self.npatches, dt,
+            )
 
     def __call__(self, dt: float) -> None:
         raise NotImplementedError
-- 
2.43.0


From 3b003e8aca108fad8d9c44358bcb4813ee619e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 05/25] fix: moving window drops the particles of the column it
 leaves behind

---
 src/lambdapic/callback/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 3a93972..dd29561 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -574,6 +574,12 @@ class MovingWindow:
             return
         
         self._update_patch_info(sim)
+
+        # particles of the dropped column leave with it
+        for p in new_patches:
+            for particles in p.particles:
+                particles.is_dead[:] = True
+
         self._fill_particles(sim, new_patches)
 
         # reset fields and pml data
-- 
2.43.0


From 3fb8a2a500e4c68fef117f5851d475513230614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 06/25] fix: moving window refreshes particle lists after
 filling new patches

---
 src/lambdapic/callback/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index dd29561..c997b62 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -785,6 +785,8 @@ class MovingWindow:
 
             for ipatch, p in enumerate(patches):
                 p.particles[ispec].initialize(num_macro_particles[ipatch])
+                # storage was replaced, let update_lists() refresh the modules
+                p.particles[ispec].extended = True
 
                 x_list[ipatch] = p.particles[ispec].x
                 y_list[ipatch] = p.particles[ispec].y
@@ -827,6 +829,8 @@ class MovingWindow:
 
             for ipatch, p in enumerate(patches):
                 p.particles[ispec].initialize(num_macro_particles[ipatch])
+                # storage was replaced, let update_lists() refresh the modules
+                p.particles[ispec].extended = True
 
                 x_list[ipatch] = p.particles[ispec].x
                 y_list[ipatch] = p.particles[ispec].y
-- 
2.43.0


From 07f0905da78d7221296bc797b3b4f38911ec5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 07/25] fix: moving window hands the new bucket bounds to the
 collision module

---
 src/lambdapic/callback/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index c997b62..8d99e88 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -595,6 +595,9 @@ class MovingWindow:
         for sorter in sim.sorter:
             sorter.generate_field_lists()
             sorter.generate_particle_lists()
+        if sim.collision is not None:
+            # bucket bounds of the sorters were replaced
+            sim.collision.generate_field_lists()
 
 
     def _shift_right(self, sim: Simulation) -> Sequence[Union[Patch3D, Patch2D]]:
-- 
2.43.0


From 27fc9c2ea9c58908251f034bd6a8d01337422f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 08/25] fix: refuse patches narrower than the guard region

---
 src/lambdapic/simulation/simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index a36f7a8..972a500 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -84,12 +84,16 @@ class SimulationConfig(BaseModel):
     def validate_nx_divisible(self):
         if self.nx % self.npatch_x != 0:
             raise ValueError(f'nx ({self.nx}) must be divisible by npatch_x ({self.npatch_x})')
+        if self.nx // self.npatch_x < self.n_guard:
+            raise ValueError(f'patches must have at least n_guard ({self.n_guard}) cells in x, got {self.nx // self.npatch_x}')
         return self
 
     @model_validator(mode='after')
     def validate_ny_divisible(self):
         if self.ny % self.npatch_y != 0:
             raise ValueError(f'ny ({self.ny}) must be divisible by npatch_y ({self.npatch_y})')
+        if self.ny // self.npatch_y < self.n_guard:
+            raise ValueError(f'patches must have at least n_guard ({self.n_guard}) cells in y, got {self.ny // self.npatch_y}')
         return self
 
     @model_validator(mode='after')
@@ -113,6 +117,8 @@ class Simulation3DConfig(SimulationConfig):
     def validate_nz_divisible(self):
         if self.nz % self.npatch_z != 0:
             raise ValueError(f'nz ({self.nz}) must be divisible by npatch_z ({self.npatch_z})')
+        if self.nz // self.npatch_z < self.n_guard:
+            raise ValueError(f'patches must have at least n_guard ({self.n_guard}) cells in z, got {self.nz // self.npatch_z}')
         return self
 
 @dataclass
-- 
2.43.0


From 10b829b5a5fc34b3362049a4d1ce377768aa6b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 09/25] fix: automatic patch division must fit the guard and
 absorbing layer on every axis

---
 src/lambdapic/simulation/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/simulation/utils.py b/src/lambdapic/simulation/utils.py
index 97af23e..8c4b340 100644
--- a/src/lambdapic/simulation/utils.py
+++ b/src/lambdapic/simulation/utils.py
@@ -95,7 +95,7 @@ def auto_patch_2d(nx: int, ny: int, n_guard: int, cpml_thickness: int, npatch_mi
             
             if npatches < npatch_min:
                 continue
-            if (npatch_x_min <= npatch_x <= npatch_x_max) or (npatch_y_min <= npatch_y <= npatch_y_max):
+            if (npatch_x_min <= npatch_x <= npatch_x_max) and (npatch_y_min <= npatch_y <= npatch_y_max):
                 if npatches <= npatches_min and abs(nx_per_patch-ny_per_patch) <= npatch_xy_diff_min:
                     npatches_min = npatches
                     ind_min = i, j
@@ -127,7 +127,7 @@ def auto_patch_3d(nx: int, ny: int, nz: int, n_guard: int, cpml_thickness: int,
                 
                 if npatches < npatch_min:
                     continue
-                if (npatch_x_min <= npatch_x <= npatch_x_max) or (npatch_y_min <= npatch_y <= npatch_y_max) or (npatch_z_min <= npatch_z <= npatch_z_max):
+                if (npatch_x_min <= npatch_x <= npatch_x_max) and (npatch_y_min <= npatch_y <= npatch_y_max) and (npatch_z_min <= npatch_z <= npatch_z_max):
                     npatch_xyz_diff = max(abs(nx_per_patch-ny_per_patch), abs(ny_per_patch-nz_per_patch), abs(nz_per_patch-nx_per_patch))
                     if npatches <= npatches_min and npatch_xyz_diff <= npatch_xyz_diff_min:
                         npatches_min = npatches
-- 
2.43.0


From 1f280bd9d2ebcb31daff77c224596a7f66f55b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 10/25] fix: quantum rate tables are not read beyond their last
 entry

---
 .../core/qed/optical_depth_tables.py          | 16 +++++++--------
 .../core/qed/optical_depth_tables_sigmoid.py  | 20 +++++++++----------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/lambdapic/core/qed/optical_depth_tables.py b/src/lambdapic/core/qed/optical_depth_tables.py
index 268f38f..e77e5fa 100644
--- a/src/lambdapic/core/qed/optical_depth_tables.py
+++ b/src/lambdapic/core/qed/optical_depth_tables.py
@@ -34,12 +34,10 @@ def _get_chi_idx(chi):
     log_chi = np.log10(chi)
     if log_chi < _log_chi_range[0]:
         return -1
-    if log_chi > _log_chi_range[1]:
-        idx = _chi_N - 1
-    if _log_chi_range[0] <= log_chi <= _log_chi_range[1]:
-        idx = math.floor((log_chi - _log_chi_range[0]) / _log_chi_delta)
-
-    return idx
+    if log_chi >= _log_chi_range[1]:
+        return _chi_N - 2
+    # left edge of the interval, the right edge must be inside the table
+    return min(math.floor((log_chi - _log_chi_range[0]) / _log_chi_delta), _chi_N - 2)
 
 @njit
 def _linear_interp1d(chi, table1d):
@@ -47,8 +45,8 @@ def _linear_interp1d(chi, table1d):
     if idx == -1:
         return 0.0
     log_chi_left = _log_chi_range[0] + idx*_log_chi_delta
-    # linear interp
-    log_chi = np.log10(chi)
+    # linear interp, values beyond the table take its last entry
+    log_chi = min(np.log10(chi), _log_chi_range[1])
     k = (table1d[idx+1] - table1d[idx]) / _log_chi_delta
     prob_rate = table1d[idx] + k * (log_chi-log_chi_left)
     return prob_rate
@@ -60,7 +58,7 @@ def _bisect_interp(chi, table2d):
     chi_idx = _get_chi_idx(chi)
     
     # Calculate fractional position between chi grid points
-    log_chi = np.log10(chi)
+    log_chi = min(np.log10(chi), _log_chi_range[1])
     log_chi_left = _log_chi_range[0] + chi_idx * _log_chi_delta
     t = (log_chi - log_chi_left) / _log_chi_delta
     
diff --git a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
index 64bee9a..5d8c634 100644
--- a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
+++ b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
@@ -34,21 +34,19 @@ def _get_chi_idx(chi):
     log_chi = np.log10(chi)
     if log_chi < _log_chi_range[0]:
         return -1
-    if log_chi > _log_chi_range[1]:
-        idx = _chi_N - 1
-    if _log_chi_range[0] <= log_chi <= _log_chi_range[1]:
-        idx = (log_chi - _log_chi_range[0]) / _log_chi_delta
-
-    return idx
+    if log_chi >= _log_chi_range[1]:
+        return _chi_N - 2
+    # left edge of the interval, the right edge must be inside the table
+    return min(math.floor((log_chi - _log_chi_range[0]) / _log_chi_delta), _chi_N - 2)
 
 @njit
 def _linear_interp1d(chi, table1d):
-    idx = math.floor(_get_chi_idx(chi))
+    idx = _get_chi_idx(chi)
     if idx == -1:
         return 0.0
     log_chi_left = _log_chi_range[0] + idx*_log_chi_delta
-    # linear interp
-    log_chi = np.log10(chi)
+    # linear interp, values beyond the table take its last entry
+    log_chi = min(np.log10(chi), _log_chi_range[1])
     k = (table1d[idx+1] - table1d[idx]) / _log_chi_delta
     prob_rate = table1d[idx] + k * (log_chi-log_chi_left)
     return prob_rate
@@ -61,8 +59,8 @@ def _sigmoid(x, A):
 @njit
 def _bisect_interp(chi, table2d):
     low, high = 0, _delta_N-1
-    chi_idx = _get_chi_idx(chi)
-    chi_idx_low = math.floor(chi_idx)
+    chi = min(chi, 10**_log_chi_range[1])
+    chi_idx_low = _get_chi_idx(chi)
     chi_idx_high = chi_idx_low + 1
 
     chi_low = 10**(_log_chi_range[0] + chi_idx_low * _log_chi_delta)
-- 
2.43.0


From 855c026753f09fe88cc71d0d55821b862934635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 11/25] fix: inverting the cumulative emission table terminates
 for every drawn value

---
 src/lambdapic/core/qed/optical_depth_tables.py         | 6 +++---
 src/lambdapic/core/qed/optical_depth_tables_sigmoid.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lambdapic/core/qed/optical_depth_tables.py b/src/lambdapic/core/qed/optical_depth_tables.py
index e77e5fa..37106c4 100644
--- a/src/lambdapic/core/qed/optical_depth_tables.py
+++ b/src/lambdapic/core/qed/optical_depth_tables.py
@@ -73,15 +73,15 @@ def _bisect_interp(chi, table2d):
 
         if mid_delta < r:
             low = mid + 1
-        elif mid_delta > r:
+        else:
             high = mid - 1
     
     # interp
-    delta_idx = high
+    delta_idx = min(max(high, 0), _delta_N - 2)
     
     y1 = table2d[chi_idx, delta_idx] * (1 - t) + table2d[chi_idx+1, delta_idx] * t
     y2 = table2d[chi_idx, delta_idx+1] * (1 - t) + table2d[chi_idx+1, delta_idx+1] * t
-    k = _log_delta_delta / (y2 - y1)
+    k = _log_delta_delta / (y2 - y1) if y2 > y1 else 0.0
     log_delta_left = _log_delta_range[0] + delta_idx*_log_delta_delta
     log_delta = log_delta_left + k * (r - y1)   
 
diff --git a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
index 5d8c634..4407470 100644
--- a/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
+++ b/src/lambdapic/core/qed/optical_depth_tables_sigmoid.py
@@ -83,11 +83,11 @@ def _bisect_interp(chi, table2d):
         mid_delta = table2d[chi_idx_low, mid] + k * (chi - chi_low)
         if mid_delta < r:
             low = mid + 1
-        elif mid_delta > r:
+        else:
             high = mid - 1
     
     # interp
-    delta_idx = high # high = low - 1, the left index
+    delta_idx = min(max(high, 0), _delta_N - 2) # high = low - 1, the left index
 
     k = (table2d[chi_idx_high, delta_idx] - table2d[chi_idx_low, delta_idx]) / (chi_high - chi_low)
     cdf_left = table2d[chi_idx_low, delta_idx] + k * (chi - chi_low)
@@ -97,7 +97,7 @@ def _bisect_interp(chi, table2d):
 
     delta_left  = 1 / (1 + np.exp(-_A * (-1 + 2/(_delta_N-1)* delta_idx   )))
     delta_right = 1 / (1 + np.exp(-_A * (-1 + 2/(_delta_N-1)*(delta_idx+1))))
-    k = (delta_right - delta_left) / (cdf_right - cdf_left)
+    k = (delta_right - delta_left) / (cdf_right - cdf_left) if cdf_right > cdf_left else 0.0
 
     return delta_left + k * (r - cdf_left)
     
-- 
2.43.0


From 05e8c0a41c2d4b0aebb489049c6b6e4a9ec87a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 12/25] fix: chi is zero, not NaN, when rounding makes its
 square negative

---
 src/lambdapic/core/qed/inline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/qed/inline.py b/src/lambdapic/core/qed/inline.py
index 56cad79..354f71c 100644
--- a/src/lambdapic/core/qed/inline.py
+++ b/src/lambdapic/core/qed/inline.py
@@ -5,11 +5,13 @@ from scipy.constants import c, e, hbar, m_e
 def calculate_chi_inline(Ex, Ey, Ez, Bx, By, Bz, ux, uy, uz, inv_gamma):
     factor = e*hbar / (m_e**2 * c**3)
     gamma = 1.0 / inv_gamma
-    return factor * (
+    # rounding may leave a tiny negative value when momentum and field are parallel
+    return factor * max(
         (gamma*Ex + (uy*Bz - uz*By)*c)**2 +
         (gamma*Ey + (uz*Bx - ux*Bz)*c)**2 +
         (gamma*Ez + (ux*By - uy*Bx)*c)**2 -
-        (ux*Ex + uy*Ey + uz*Ez)**2
+        (ux*Ex + uy*Ey + uz*Ez)**2,
+        0.0
     ) ** 0.5
 
 
-- 
2.43.0


From 92a6e6abf33e5808d3b8909e2664eabd087ef94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 13/25] fix: reset the cell densities of the collision
 screening every step

debye_length_patches reset only the inverse squared screening lengths; the
densities used for the lower bound of the screening length kept growing from
step to step.
---
 src/lambdapic/core/collision/cpu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lambdapic/core/collision/cpu.py b/src/lambdapic/core/collision/cpu.py
index 47e0738..9b9b00f 100644
--- a/src/lambdapic/core/collision/cpu.py
+++ b/src/lambdapic/core/collision/cpu.py
@@ -148,6 +148,7 @@ def debye_length_patches(
         ipatch = np.int64(_ipatch)
         if reset:
             debye_length_inv_square_list[ipatch].fill(0)
+            total_density_list[ipatch].fill(0)
         for icell in range(bucket_bound_min_list[ipatch].size):
             ip_start = bucket_bound_min_list[ipatch].flat[icell]
             ip_end   = bucket_bound_max_list[ipatch].flat[icell]
-- 
2.43.0


From 1ad29d328b3f654a8ce04fe93e9dfadb2e6999fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 14/25] fix: sort into cells when collisions are added after
 initialization

Without collisions the sorters use one bucket per column; add_collision()
after initialize() kept them, so particles of a whole column were paired.
---
 src/lambdapic/simulation/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index 972a500..de97d94 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -620,6 +620,8 @@ class Simulation:
 
         # If already initialized, construct the Collision module now
         if self.initialized:
+            # collisions pair the particles of one cell: one bucket per cell
+            self._init_sorter()
             self._init_collision()
         return None
 
-- 
2.43.0


From e59efcdfc75761c38eef75efad36a1c955e0615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 15/25] fix: release the references taken to read scalar
 attributes in the compiled kernels

---
 src/lambdapic/core/current/cpu2d.c            | 20 ++++++++---------
 src/lambdapic/core/current/cpu3d.c            | 22 +++++++++----------
 src/lambdapic/core/interpolation/cpu2d.c      | 10 ++++-----
 src/lambdapic/core/interpolation/cpu3d.c      | 14 ++++++------
 .../core/pusher/unified/unified_pusher_2d.c   | 10 ++++-----
 .../core/pusher/unified/unified_pusher_3d.c   | 14 ++++++------
 src/lambdapic/core/utils/cutils.h             | 17 ++++++++++++++
 7 files changed, 62 insertions(+), 45 deletions(-)

diff --git a/src/lambdapic/core/current/cpu2d.c b/src/lambdapic/core/current/cpu2d.c
index 1ad7093..2b77aa2 100644
--- a/src/lambdapic/core/current/cpu2d.c
+++ b/src/lambdapic/core/current/cpu2d.c
@@ -29,9 +29,9 @@ static PyObject* reset_current_cpu_2d(PyObject* self, PyObject* args) {
     }
     
     // Get the first field to get nx, ny, and n_guard. All fields have the same dimensions and layout.
-    npy_intp nx = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nx"));
-    npy_intp ny = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "ny"));
-    npy_intp n_guard = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "n_guard"));
+    npy_intp nx = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nx");
+    npy_intp ny = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "ny");
+    npy_intp n_guard = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "n_guard");
     nx += 2*n_guard;
     ny += 2*n_guard;
 
@@ -86,13 +86,13 @@ static PyObject* current_deposition_cpu_2d(PyObject* self, PyObject* args) {
         Py_RETURN_NONE;
     }
     
-    npy_intp nx = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nx"));
-    npy_intp ny = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "ny"));
-    npy_intp n_guard = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "n_guard"));
+    npy_intp nx = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nx");
+    npy_intp ny = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "ny");
+    npy_intp n_guard = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "n_guard");
     nx += 2*n_guard;
     ny += 2*n_guard;
-    double dx = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dx"));
-    double dy = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dy"));
+    double dx = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dx");
+    double dy = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dy");
 
     AUTOFREE double **rho        = (double**) malloc(npatches * sizeof(double*));
     AUTOFREE double **jx         = (double**) malloc(npatches * sizeof(double*));
@@ -120,8 +120,8 @@ static PyObject* current_deposition_cpu_2d(PyObject* self, PyObject* args) {
         PyObject *jx_npy  = PyObject_GetAttrString(fields, "jx");
         PyObject *jy_npy  = PyObject_GetAttrString(fields, "jy");
         PyObject *jz_npy  = PyObject_GetAttrString(fields, "jz");
-        x0[ipatch]        = PyFloat_AsDouble(PyObject_GetAttrString(fields, "x0"));
-        y0[ipatch]        = PyFloat_AsDouble(PyObject_GetAttrString(fields, "y0"));
+        x0[ipatch]        = get_attr_as_double(fields, "x0");
+        y0[ipatch]        = get_attr_as_double(fields, "y0");
 
         PyObject *x_npy          = PyObject_GetAttrString(particles, "x");
         PyObject *y_npy          = PyObject_GetAttrString(particles, "y");
diff --git a/src/lambdapic/core/current/cpu3d.c b/src/lambdapic/core/current/cpu3d.c
index d57fd59..fbc55dc 100644
--- a/src/lambdapic/core/current/cpu3d.c
+++ b/src/lambdapic/core/current/cpu3d.c
@@ -130,16 +130,16 @@ static PyObject* current_deposition_cpu_3d(PyObject* self, PyObject* args) {
         Py_RETURN_NONE;
     }
     
-    npy_intp nx = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nx"));
-    npy_intp ny = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "ny"));
-    npy_intp nz = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nz"));
-    npy_intp n_guard = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "n_guard"));
+    npy_intp nx = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nx");
+    npy_intp ny = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "ny");
+    npy_intp nz = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nz");
+    npy_intp n_guard = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "n_guard");
     nx += 2*n_guard;
     ny += 2*n_guard;
     nz += 2*n_guard;
-    double dx = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dx"));
-    double dy = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dy"));
-    double dz = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dz"));
+    double dx = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dx");
+    double dy = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dy");
+    double dz = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dz");
 
     // fields
     AUTOFREE double **rho        = get_attr_array_double(fields_list, npatches, "rho");
@@ -195,10 +195,10 @@ static PyObject* reset_current_cpu_3d(PyObject* self, PyObject* args) {
     }
     
     // Get the first field to get nx, ny, nz, and n_guard. All fields have the same dimensions and layout.
-    npy_intp nx = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nx"));
-    npy_intp ny = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "ny"));
-    npy_intp nz = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nz"));
-    npy_intp n_guard = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "n_guard"));
+    npy_intp nx = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nx");
+    npy_intp ny = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "ny");
+    npy_intp nz = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nz");
+    npy_intp n_guard = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "n_guard");
     nx += 2*n_guard;
     ny += 2*n_guard;
     nz += 2*n_guard;
diff --git a/src/lambdapic/core/interpolation/cpu2d.c b/src/lambdapic/core/interpolation/cpu2d.c
index d36a4dc..dca945d 100644
--- a/src/lambdapic/core/interpolation/cpu2d.c
+++ b/src/lambdapic/core/interpolation/cpu2d.c
@@ -81,13 +81,13 @@ static PyObject* interpolation_patches_2d(PyObject* self, PyObject* args) {
         Py_RETURN_NONE;
     }
     
-    npy_intp nx = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nx"));
-    npy_intp ny = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "ny"));
-    npy_intp n_guard = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "n_guard"));
+    npy_intp nx = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nx");
+    npy_intp ny = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "ny");
+    npy_intp n_guard = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "n_guard");
     nx += 2*n_guard;
     ny += 2*n_guard;
-    double dx = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dx"));
-    double dy = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dy"));
+    double dx = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dx");
+    double dy = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dy");
 
     // fields
     AUTOFREE double **ex         = get_attr_array_double(fields_list, npatches, "ex");
diff --git a/src/lambdapic/core/interpolation/cpu3d.c b/src/lambdapic/core/interpolation/cpu3d.c
index d133d4a..a720400 100644
--- a/src/lambdapic/core/interpolation/cpu3d.c
+++ b/src/lambdapic/core/interpolation/cpu3d.c
@@ -109,16 +109,16 @@ static PyObject* interpolation_patches_3d(PyObject* self, PyObject* args) {
         Py_RETURN_NONE;
     }
     
-    npy_intp nx = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nx"));
-    npy_intp ny = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "ny"));
-    npy_intp nz = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nz"));
-    npy_intp n_guard = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "n_guard"));
+    npy_intp nx = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nx");
+    npy_intp ny = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "ny");
+    npy_intp nz = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nz");
+    npy_intp n_guard = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "n_guard");
     nx += 2*n_guard;
     ny += 2*n_guard;
     nz += 2*n_guard;
-    double dx = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dx"));
-    double dy = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dy"));
-    double dz = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dz"));
+    double dx = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dx");
+    double dy = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dy");
+    double dz = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dz");
 
     // fields
     AUTOFREE double **ex         = get_attr_array_double(fields_list, npatches, "ex");
diff --git a/src/lambdapic/core/pusher/unified/unified_pusher_2d.c b/src/lambdapic/core/pusher/unified/unified_pusher_2d.c
index 847839d..ef752c0 100644
--- a/src/lambdapic/core/pusher/unified/unified_pusher_2d.c
+++ b/src/lambdapic/core/pusher/unified/unified_pusher_2d.c
@@ -169,13 +169,13 @@ static PyObject* unified_boris_pusher_cpu_2d(PyObject* self, PyObject* args) {
         Py_RETURN_NONE;
     }
     
-    npy_intp nx = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nx"));
-    npy_intp ny = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "ny"));
-    npy_intp n_guard = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "n_guard"));
+    npy_intp nx = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nx");
+    npy_intp ny = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "ny");
+    npy_intp n_guard = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "n_guard");
     nx += 2*n_guard;
     ny += 2*n_guard;
-    double dx = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dx"));
-    double dy = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dy"));
+    double dx = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dx");
+    double dy = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dy");
 
     // fields
     AUTOFREE double **ex         = get_attr_array_double(fields_list, npatches, "ex");
diff --git a/src/lambdapic/core/pusher/unified/unified_pusher_3d.c b/src/lambdapic/core/pusher/unified/unified_pusher_3d.c
index e15a829..686333b 100644
--- a/src/lambdapic/core/pusher/unified/unified_pusher_3d.c
+++ b/src/lambdapic/core/pusher/unified/unified_pusher_3d.c
@@ -231,16 +231,16 @@ static PyObject* unified_boris_pusher_cpu_3d(PyObject* self, PyObject* args) {
         Py_RETURN_NONE;
     }
 
-    npy_intp nx = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nx"));
-    npy_intp ny = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "ny"));
-    npy_intp nz = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "nz"));
-    npy_intp n_guard = PyLong_AsLong(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "n_guard"));
+    npy_intp nx = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nx");
+    npy_intp ny = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "ny");
+    npy_intp nz = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "nz");
+    npy_intp n_guard = get_attr_as_long(PyList_GET_ITEM(fields_list, 0), "n_guard");
     nx += 2*n_guard;
     ny += 2*n_guard;
     nz += 2*n_guard;
-    double dx = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dx"));
-    double dy = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dy"));
-    double dz = PyFloat_AsDouble(PyObject_GetAttrString(PyList_GET_ITEM(fields_list, 0), "dz"));
+    double dx = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dx");
+    double dy = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dy");
+    double dz = get_attr_as_double(PyList_GET_ITEM(fields_list, 0), "dz");
 
     // fields
     AUTOFREE double **ex         = get_attr_array_double(fields_list, npatches, "ex");
diff --git a/src/lambdapic/core/utils/cutils.h b/src/lambdapic/core/utils/cutils.h
index 9b8d60f..83b34bc 100644
--- a/src/lambdapic/core/utils/cutils.h
+++ b/src/lambdapic/core/utils/cutils.h
@@ -25,6 +25,23 @@ static void cleanup_ptr(void* p) {
     ((j) >= 0 ? (j) : (j) + (ny)) * (nz) + \
     ((i) >= 0 ? (i) : (i) + (nx)) * (ny) * (nz)
 
+/*
+    Get a scalar attribute of an object, without keeping a reference to it.
+*/
+static inline npy_intp get_attr_as_long(PyObject* obj, const char* attr) {
+    PyObject *value = PyObject_GetAttrString(obj, attr);
+    npy_intp result = PyLong_AsLong(value);
+    Py_DecRef(value);
+    return result;
+}
+
+static inline double get_attr_as_double(PyObject* obj, const char* attr) {
+    PyObject *value = PyObject_GetAttrString(obj, attr);
+    double result = PyFloat_AsDouble(value);
+    Py_DecRef(value);
+    return result;
+}
+
 /*
     Get attribute from a list of objects.
     Returns a pointer to an array of pointers to the attribute of each patch
-- 
2.43.0


From 935e858501d98aa688e1c46934114ba320b85252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 16/25] fix: count arrays of the particle exchange: do not free
 memory owned by numpy, do not leak the arrays

---
 src/lambdapic/core/patch/sync_particles_2d.c | 6 +++---
 src/lambdapic/core/patch/sync_particles_3d.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lambdapic/core/patch/sync_particles_2d.c b/src/lambdapic/core/patch/sync_particles_2d.c
index e661380..9387f7e 100644
--- a/src/lambdapic/core/patch/sync_particles_2d.c
+++ b/src/lambdapic/core/patch/sync_particles_2d.c
@@ -314,7 +314,7 @@ PyObject* get_npart_to_extend_2d(PyObject* self, PyObject* args) {
     }
     Py_END_ALLOW_THREADS
     
-    PyObject *ret = PyTuple_Pack(4, npart_to_extend_array, npart_incoming_array, npart_outgoing_array, npart_patches_array);
+    PyObject *ret = Py_BuildValue("(NNNN)", npart_to_extend_array, npart_incoming_array, npart_outgoing_array, npart_patches_array);
     return ret;
 }
 
@@ -358,8 +358,8 @@ PyObject* fill_particles_from_boundary_2d(PyObject* self, PyObject* args) {
     AUTOFREE double *ymin_list = get_attr_double(patch_list, npatches, "ymin");
     AUTOFREE double *ymax_list = get_attr_double(patch_list, npatches, "ymax");
 
-    AUTOFREE npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
-    AUTOFREE npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
+    npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
+    npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
 
     npy_intp nattrs = PyList_Size(attrs);
 
diff --git a/src/lambdapic/core/patch/sync_particles_3d.c b/src/lambdapic/core/patch/sync_particles_3d.c
index bbe3d05..edce885 100644
--- a/src/lambdapic/core/patch/sync_particles_3d.c
+++ b/src/lambdapic/core/patch/sync_particles_3d.c
@@ -476,7 +476,7 @@ PyObject* get_npart_to_extend_3d(PyObject* self, PyObject* args) {
     }
     Py_END_ALLOW_THREADS
     
-    PyObject *ret = PyTuple_Pack(4, npart_to_extend_array, npart_incoming_array, npart_outgoing_array, npart_array);
+    PyObject *ret = Py_BuildValue("(NNNN)", npart_to_extend_array, npart_incoming_array, npart_outgoing_array, npart_array);
     return ret;
 }
 
@@ -534,8 +534,8 @@ PyObject* fill_particles_from_boundary_3d(PyObject* self, PyObject* args) {
         zmax_list[ipatch] += 0.5 * dz;
     }
 
-    AUTOFREE npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
-    AUTOFREE npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
+    npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
+    npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
 
     npy_intp nattrs = PyList_Size(attrs);
     Py_ssize_t iattr_x = -1, iattr_y = -1, iattr_z = -1;
-- 
2.43.0


From 236b9692a650ef13b845f37534f0cd2782e801e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 17/25] fix: do not leak the count arrays of the particle
 exchange between ranks

---
 src/lambdapic/core/mpi/sync_particles_2d.c | 2 +-
 src/lambdapic/core/mpi/sync_particles_3d.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/mpi/sync_particles_2d.c b/src/lambdapic/core/mpi/sync_particles_2d.c
index 8db2d0d..3daa472 100644
--- a/src/lambdapic/core/mpi/sync_particles_2d.c
+++ b/src/lambdapic/core/mpi/sync_particles_2d.c
@@ -764,7 +764,7 @@ PyObject* get_npart_to_extend_2d(PyObject* self, PyObject* args) {
     
     Py_END_ALLOW_THREADS
     
-    PyObject *ret = PyTuple_Pack(3, npart_to_extend_array, npart_incoming_array, npart_outgoing_array);
+    PyObject *ret = Py_BuildValue("(NNN)", npart_to_extend_array, npart_incoming_array, npart_outgoing_array);
     return ret;
 }
 
diff --git a/src/lambdapic/core/mpi/sync_particles_3d.c b/src/lambdapic/core/mpi/sync_particles_3d.c
index 286c647..07a05d6 100644
--- a/src/lambdapic/core/mpi/sync_particles_3d.c
+++ b/src/lambdapic/core/mpi/sync_particles_3d.c
@@ -938,7 +938,7 @@ PyObject* get_npart_to_extend_3d(PyObject* self, PyObject* args) {
     
     Py_END_ALLOW_THREADS
     
-    PyObject *ret = PyTuple_Pack(3, npart_to_extend_array, npart_incoming_array, npart_outgoing_array);
+    PyObject *ret = Py_BuildValue("(NNN)", npart_to_extend_array, npart_incoming_array, npart_outgoing_array);
     return ret;
 }
 
-- 
2.43.0


From fae04fa4a7817484adbaf074b99e27fb66620a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 18/25] fix: release the work arrays when the particle exchange
 rejects its attribute list

---
 src/lambdapic/core/mpi/sync_particles_2d.c | 6 ++++++
 src/lambdapic/core/mpi/sync_particles_3d.c | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/lambdapic/core/mpi/sync_particles_2d.c b/src/lambdapic/core/mpi/sync_particles_2d.c
index 3daa472..0251df4 100644
--- a/src/lambdapic/core/mpi/sync_particles_2d.c
+++ b/src/lambdapic/core/mpi/sync_particles_2d.c
@@ -342,6 +342,12 @@ static PyObject* fill_particles_from_boundary_2d_start(PyObject* self, PyObject*
 
     if (iattr_x < 0 || iattr_y < 0) {
         PyErr_SetString(PyExc_ValueError, "attrs must contain 'x' and 'y'");
+        free(x_list); free(y_list);
+        free(npart_list); free(is_dead_list); free(index_list);
+        free(neighbor_index_list); free(neighbor_rank_list);
+        free(xmin_list); free(xmax_list);
+        free(ymin_list); free(ymax_list);
+        free(attrs_list);
         return NULL;
     }
 
diff --git a/src/lambdapic/core/mpi/sync_particles_3d.c b/src/lambdapic/core/mpi/sync_particles_3d.c
index 07a05d6..eff47dd 100644
--- a/src/lambdapic/core/mpi/sync_particles_3d.c
+++ b/src/lambdapic/core/mpi/sync_particles_3d.c
@@ -486,6 +486,13 @@ static PyObject* fill_particles_from_boundary_3d_start(PyObject* self, PyObject*
 
     if (iattr_x < 0 || iattr_y < 0 || iattr_z < 0) {
         PyErr_SetString(PyExc_ValueError, "attrs must contain 'x', 'y', and 'z'");
+        free(x_list); free(y_list); free(z_list);
+        free(npart_list); free(is_dead_list); free(index_list);
+        free(neighbor_index_list); free(neighbor_rank_list);
+        free(xmin_list); free(xmax_list);
+        free(ymin_list); free(ymax_list);
+        free(zmin_list); free(zmax_list);
+        free(attrs_list);
         return NULL;
     }
 
-- 
2.43.0


From e8d581eb1cf2a27d9a219d66fff9220a17adaa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 19/25] fix: all ranks take part in the restart dump and the
 stop requested on some of them

---
 src/lambdapic/simulation/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/simulation/simulation.py b/src/lambdapic/simulation/simulation.py
index de97d94..9d2db5f 100644
--- a/src/lambdapic/simulation/simulation.py
+++ b/src/lambdapic/simulation/simulation.py
@@ -1129,7 +1129,8 @@ class Simulation:
                 stage_callbacks.run('maxwell_2')
                 stage_callbacks.run('end')
         
-            if restart_cb and restart_cb._dump_requested:
+            # the signal may have reached only some of the ranks
+            if restart_cb and any(self.mpi.comm.allgather(restart_cb._dump_requested)):
                 pbar.close()
                 restart_cb._call(self)
                 return
@@ -1138,7 +1139,8 @@ class Simulation:
             self.itime += 1
 
 
-            if stop_callback():
+            # all ranks stop together
+            if any(self.mpi.comm.allgather(bool(stop_callback()))):
                 pbar.close()
                 return "stop by callback"
 
-- 
2.43.0


From 197909ab4f03df67d0f54561244142ce1e16e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 20/25] fix: a rank without patches takes part in the load
 balancing decision

---
 src/lambdapic/core/mpi/load_balancer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lambdapic/core/mpi/load_balancer.py b/src/lambdapic/core/mpi/load_balancer.py
index 093dcf7..ac640b1 100644
--- a/src/lambdapic/core/mpi/load_balancer.py
+++ b/src/lambdapic/core/mpi/load_balancer.py
@@ -245,10 +245,8 @@ class LoadBalancer(EnableMixin):
             logger.debug(f"Rank {self.rank}: patch {p.index} load: {self.local_loads[ipatch]}")
 
     def should_rebalance(self) -> bool:
-        if self.local_loads is None or len(self.local_loads) == 0:
-            return False
-
-        # Calculate local total weight (sum of all patch weights on this rank)
+        # Calculate local total weight (sum of all patch weights on this rank),
+        # a rank without patches takes part in the collective with zero
         local_total = float(np.sum(self.local_loads))
 
         # Gather total weights from all MPI ranks
-- 
2.43.0


From 80f330e1906b4ad27cd07c1a5610ecc974f28f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:57 +0000
Subject: [PATCH 21/25] fix: 3D field gather takes the plane of the slice from
 every patch that holds it, without a guard offset

---
 src/lambdapic/callback/utils.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 8d99e88..411e049 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -163,21 +163,21 @@ def get_fields_3d(sim: Simulation3D, fields: Sequence[str], slice_at: Optional[f
     if slice_at < 0 or slice_at > sim.Lz:
         raise ValueError(f"Slice position {slice_at} is outside the simulation domain [0, {sim.Lz}]")
     
+    # Calculate the z-index for the slice
+    z_global = slice_at + sim.dz / 2  # Convert position to grid index
+    iz_global = min(int(z_global / sim.dz), nz - 1)
+
+    ipatch_z_slice, iz_local = divmod(iz_global, nz_per_patch)
+
     # Create mapping from patch coordinates to patch index, only for patches containing the slice
     local_index_info = {}
     for ipatch, p in enumerate(patches):
-        # Check if this patch contains the slice_at position
-        if p.zmin <= slice_at <= p.zmax:
+        # Check if this patch contains the z-index of the slice
+        if p.ipatch_z == ipatch_z_slice:
             local_index_info[(p.ipatch_x, p.ipatch_y, p.ipatch_z)] = p.index
     
     index_info = sim.mpi.comm.gather(local_index_info)
     
-    # Calculate the z-index for the slice
-    z_global = slice_at + sim.dz / 2  # Convert position to grid index
-    iz_global = int(z_global / sim.dz)
-
-    iz_local = iz_global - iz_global // nz_per_patch * nz_per_patch
-    
     if sim.mpi.rank == 0:
         patch_index_map = {k: v for d in index_info for k, v in d.items()} if index_info else {}
         local_patches = {p.index: ipatch for ipatch, p in enumerate(patches)}
@@ -214,10 +214,7 @@ def get_fields_3d(sim: Simulation3D, fields: Sequence[str], slice_at: Optional[f
             req = []
             for p in patches:
                 # Only send data if this patch contains the z-slice
-                if p.zmin <= slice_at <= p.zmax:
-                    # Calculate local z-index within this patch
-                    iz_local = iz_global - p.ipatch_z * nz_per_patch + ng  # Add guard cells
-                    
+                if p.ipatch_z == ipatch_z_slice:
                     # Extract the z-slice from the 3D field data
                     field_data = getattr(p.fields, field)
                     slice_data = field_data[:, :, iz_local].copy()
-- 
2.43.0


From 27d59b1ee622a0cdab0b2d25fb30e465db3b666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:57 +0000
Subject: [PATCH 22/25] fix: gathered density slices of remote patches are
 received in an array of their own shape

---
 src/lambdapic/callback/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 411e049..33f9fe7 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -317,7 +317,6 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                     local_y, out_y, num_y = y_info
                     self.density[out_x:out_x+num_x, out_y:out_y+num_y] = density_per_patch[ip]
 
-                buf = np.zeros((nx_per_patch, ny_per_patch))
                 for ipatch_x in range(npatch_x):
                     for ipatch_y in range(npatch_y):
                         x_info = _compute_patch_slice(sim.nx, sx, ipatch_x * nx_per_patch, nx_per_patch)
@@ -331,10 +330,11 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             continue
                         if index in local_patches:
                             continue
-                        sim.mpi.comm.Recv(buf, tag=index)
                         local_x, out_x, num_x = x_info
                         local_y, out_y, num_y = y_info
-                        self.density[out_x:out_x+num_x, out_y:out_y+num_y] = buf[:num_x, :num_y]
+                        buf = np.zeros((num_x, num_y))
+                        sim.mpi.comm.Recv(buf, tag=index)
+                        self.density[out_x:out_x+num_x, out_y:out_y+num_y] = buf
             else:
                 # local
                 for ip, p in enumerate(sim.patches):
@@ -407,7 +407,6 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                     local_z, out_z, num_z = z_info
                     self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = density_per_patch[ip]
 
-                buf = np.zeros((nx_per_patch, ny_per_patch, nz_per_patch))
                 for ipatch_x in range(npatch_x):
                     for ipatch_y in range(npatch_y):
                         for ipatch_z in range(npatch_z):
@@ -419,11 +418,12 @@ class ExtractSpeciesDensity(SaveSpeciesDensityToHDF5):
                             index = patch_index_map[(ipatch_x, ipatch_y, ipatch_z)]
                             if index in local_patches:
                                 continue
-                            sim.mpi.comm.Recv(buf, tag=index)
                             local_x, out_x, num_x = x_info
                             local_y, out_y, num_y = y_info
                             local_z, out_z, num_z = z_info
-                            self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = buf[:num_x, :num_y, :num_z]
+                            buf = np.zeros((num_x, num_y, num_z))
+                            sim.mpi.comm.Recv(buf, tag=index)
+                            self.density[out_x:out_x+num_x, out_y:out_y+num_y, out_z:out_z+num_z] = buf
             else:
                 # local
                 for ip, p in enumerate(sim.patches):
-- 
2.43.0


From 5cafec8ee776dadda4abb91ebdb040d48489eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:57 +0000
Subject: [PATCH 23/25] fix: all ranks write the field components in the same
 order

---
 src/lambdapic/callback/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/hdf5.py b/src/lambdapic/callback/hdf5.py
index 63c75a2..33f1a8a 100644
--- a/src/lambdapic/callback/hdf5.py
+++ b/src/lambdapic/callback/hdf5.py
@@ -324,7 +324,7 @@ class SaveFieldsToHDF5(Callback):
         # Available field components
         self.all_components = {'ex','ey','ez','bx','by','bz','jx','jy','jz','rho'}
         if components is None:
-            self.components = list(self.all_components)
+            self.components = sorted(self.all_components)  # same order on every rank
         else:
             # Validate field components
             invalid = set(components) - self.all_components
-- 
2.43.0


From fe0cc3db562033d3882cea58e66c266430b3d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 24/25] fix: particles loaded from a file get the inverse
 Lorentz factor of their momentum and no undefined attributes

---
 src/lambdapic/callback/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index 33f9fe7..c4267e6 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -1151,9 +1151,13 @@ class LoadParticles(Callback):
                         attr_data = data[attr][inbound]
                         getattr(part, attr)[-npart:] = attr_data
 
+                    # attributes not in the file are zero, as for a new particle
+                    for attr in part.attrs:
+                        if attr not in attrs and attr != '_id':
+                            getattr(part, attr)[-npart:] = 0
+
                     # update inv_gamma
-                    if 'ux' in attrs or 'uy' in attrs or 'uz' in attrs:
-                        part.inv_gamma[-npart:] = np.sqrt(1 + part.ux[-npart:]**2 + part.uy[-npart:]**2 + part.uz[-npart:]**2)
+                    part.inv_gamma[-npart:] = 1 / np.sqrt(1 + part.ux[-npart:]**2 + part.uy[-npart:]**2 + part.uz[-npart:]**2)
 
                     # mark particles as alive
                     part.is_dead[-npart:] = False
-- 
2.43.0


From 51a079395be479bd911b6ff92383c00137f3199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:05 +0000
Subject: [PATCH 25/25] fix: attributes loaded from a particle file are chosen
 by the species they are loaded into

---
 src/lambdapic/callback/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/callback/utils.py b/src/lambdapic/callback/utils.py
index c4267e6..07738c1 100644
--- a/src/lambdapic/callback/utils.py
+++ b/src/lambdapic/callback/utils.py
@@ -1176,7 +1176,7 @@ class LoadParticles(Callback):
         if 'w' not in attrs_file:
             raise ValueError(f"Attribute 'w' not found in {self.file}")
 
-        attrs = attrs_file.intersection(sim.patches[0].particles[0].attrs)
+        attrs = attrs_file.intersection(sim.patches[0].particles[self.species.ispec].attrs)
         if '_id' in attrs:
             attrs.remove('_id')
         if 'inv_gamma' in attrs:
-- 
2.43.0

