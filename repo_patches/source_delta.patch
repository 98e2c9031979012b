From 19134ae523ba2fbd758675f37cf99db57449bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 01/60] fix: keep the sign of the bosonic frequency when
 collecting rank files

---
 src/dga/four_point.py | 4 ++--
 src/dga/optics.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 5704a1a..91c4546 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -326,8 +326,8 @@ def load_vertex_from_rank_files(output_path, name, mpi_size, nq, niw, niv):
             keys = (key for key in file_in.keys() if key.startswith('fq_'))  # the group is still hard-coded!
             for key1 in keys:
                 # extract the q indizes from the group name!
-                irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw
+                irrq = np.array(re.findall(r'-?\d+', key1), dtype=int)[0]
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
diff --git a/src/dga/optics.py b/src/dga/optics.py
index 425876f..f3db645 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -253,8 +253,8 @@ def load_optics_vertex_from_rank_files(output_path, name, mpi_size, nq, optics_c
             keys = (key for key in file_in.keys() if key.startswith('f_'))  # the group is still hard-coded!
             for key1 in keys:
                 # extract the q indizes from the group name!
-                irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw_vert
+                irrq = np.array(re.findall(r'-?\d+', key1), dtype=int)[0]
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw_vert
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
-- 
2.43.0


From f6d237a237e932c70182d3eb6c8f47b52455d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 02/60] fix: do not pass the interaction as summation axis of
 the three-leg vertex

---
 src/dga/local_four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/local_four_point.py b/src/dga/local_four_point.py
index 8e47124..c7077ea 100644
--- a/src/dga/local_four_point.py
+++ b/src/dga/local_four_point.py
@@ -451,7 +451,7 @@ def get_vrg_and_chir_tilde_from_chir_uasympt(chir: LocalFourPoint, gchi0_gen: bu
     chi_asympt = chi_phys_asympt(chi_urange, chi0_urange, chi0_asympt)
 
     # Compute the fermion-boson vertex:
-    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt, u)
+    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt)
 
     return vrg, chi_asympt
 
-- 
2.43.0


From a031a2b3c234cc66b21dea6379c6d946c50062dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 03/60] fix: pass the local vertex object to the
 double-counting kernel

---
 src/dga/four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 91c4546..4d175b6 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -251,7 +251,7 @@ def get_vrg_and_chir_lad_from_gammar_uasympt_q(gamma_dens: lfp.LocalFourPoint, g
         if logger.is_root:
             f_dc.plot(pdir=logger.out_dir + '/', name='F_dc')
 
-    kernel_dc = mf.cut_v(get_kernel_dc(f_dc.mat, gchi0_q_urange), niv_core, axes=(-1,))
+    kernel_dc = mf.cut_v(get_kernel_dc(f_dc, gchi0_q_urange), niv_core, axes=(-1,))
     if logger is not None: logger.log_cpu_time(task=' DC kernel constructed. ')
 
     # Density channel:
-- 
2.43.0


From 6ac7d35574a68a1510f90e2fde762fa0bdb956c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 04/60] fix: symmetrize_irrk works on meshes

---
 src/dga/brillouin_zone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index d6024a1..daf1f30 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -300,8 +300,8 @@ class KGrid():
         shp = np.shape(mat_reshape)
         reduced = np.zeros((self.nk_irr,) + shp[1:], dtype=mat_reshape.dtype)
         for i in range(self.nk_irr):
-            reduced[i, ...] = np.mean(mat_reshape[self.fbz2irrk == self.irrk_ind[i], ...], axis=0)
-        return self.map_irrk2fbz(mat=reduced)
+            reduced[i, ...] = np.mean(mat_reshape[self.fbz2irrk.flatten() == self.irrk_ind[i], ...], axis=0)
+        return self.map_irrk2fbz(mat=reduced).reshape(np.shape(mat))
 
     def shift_mat_by_pi(self, mat, axes=(0, 1, 2)):
         mat_shift = mat
-- 
2.43.0


From eea87dd695476b9c515d8d44c7e4a9fc3d6e8b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 05/60] fix: label every lattice vector with its orbital pair

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 49b7a48..7fb4038 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -70,7 +70,7 @@ def create_orbs(n_rp, n_orbs):
     orbs = np.zeros((n_rp, n_orbs, n_orbs, 2))
     for io1 in range(n_orbs):
         for io2 in range(n_orbs):
-            orbs[io1, io2, :] = np.array([io1 + 1, io2 + 1])
+            orbs[:, io1, io2, :] = np.array([io1 + 1, io2 + 1])
     return orbs
 
 
-- 
2.43.0


From 09052c73053da2530899b576b6b064759d22a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 06/60] fix: communicate arrays in C order regardless of their
 memory layout

---
 src/dga/mpi_aux.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dga/mpi_aux.py b/src/dga/mpi_aux.py
index a7978ff..18e0a0e 100644
--- a/src/dga/mpi_aux.py
+++ b/src/dga/mpi_aux.py
@@ -117,6 +117,7 @@ class MpiDistributor():
         self._my_slice = self._slices[self.my_rank]
 
     def allgather(self, rank_result=None):
+        rank_result = np.ascontiguousarray(rank_result)
         tot_shape = (self.ntasks,) + rank_result.shape[1:]
         tot_result = np.empty(tot_shape, rank_result.dtype)
         # tot_result[...] = np.nan
@@ -129,6 +130,7 @@ class MpiDistributor():
 
     def gather(self, rank_result=None, root=0):
         ''' Gather numpy array from ranks. '''
+        rank_result = np.ascontiguousarray(rank_result)
         tot_shape = (self.ntasks,) + rank_result.shape[1:]
         tot_result = np.empty(tot_shape, rank_result.dtype)
         other_dims = np.prod(rank_result.shape[1:])
@@ -139,6 +141,7 @@ class MpiDistributor():
         ''' Scatter full_data among ranks using the first dimension. '''
         if full_data is not None:
             assert isinstance(full_data,np.ndarray), 'full_data must be a numpy array'
+            full_data = np.ascontiguousarray(full_data)
             rest_shape = np.shape(full_data)[1:]
             data_type = full_data.dtype
         else:
@@ -159,7 +162,7 @@ class MpiDistributor():
 
     def allreduce(self, rank_result=None):
         tot_result = np.zeros(np.shape(rank_result), dtype=rank_result.dtype)
-        self.comm.Allreduce(rank_result, tot_result)
+        self.comm.Allreduce(np.ascontiguousarray(rank_result), tot_result)
         return tot_result
 
 
-- 
2.43.0


From 1f9e7647113f3fa3b98030a070ae950849dd0076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 07/60] fix: create output directories exclusively and agree on
 them among ranks

---
 src/dga/config.py      | 42 ++++--------------------------------------
 src/dga/dga_io.py      | 10 +---------
 src/dga/dga_max_ent.py |  2 +-
 src/dga/util.py        | 25 +++++++++++++++++++++++++
 4 files changed, 31 insertions(+), 48 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 5179e25..f47c8ed 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -119,18 +119,7 @@ class OutputConfig(ConfigBase):
 
     def set_output_path(self, base_name, comm=None):
         ''' comm is for mpi applications '''
-        if (comm is not None):
-            if (comm.rank == 0):
-                self.output_path = util.uniquify(base_name)
-            self.output_path = comm.bcast(self.output_path, root=0)
-        else:
-            self.output_path = util.uniquify(base_name)
-
-        if (not os.path.exists(self.output_path)):
-            if (comm is not None):
-                if (comm.rank == 0): os.mkdir(self.output_path)
-            else:
-                os.mkdir(self.output_path)
+        self.output_path = util.create_unique_dir_mpi(base_name, comm)
         return self.output_path
 
     def save_data(self, mat, name):
@@ -604,37 +593,14 @@ class DgaConfig(OutputConfig):
     def create_plotting_folder(self):
         ''' Create the output folder for the plots. '''
 
-        if (self.comm is not None):
-            if (self.comm.rank == 0):
-                assert os.path.exists(self.output_path), 'Output path must be set before creating the plotting folder.'
-                self.pdir = self.output_path + '/Plots/'
-                self.pdir = util.uniquify(self.pdir)
-        else:
+        if (self.comm is None or self.comm.rank == 0):
             assert os.path.exists(self.output_path), 'Output path must be set before creating the plotting folder.'
-            self.pdir = self.output_path + '/Plots/'
-            self.pdir = util.uniquify(self.pdir)
-
-        # Create the folder
-        if (self.comm is not None):
-            if (self.comm.rank == 0):
-                if (not os.path.exists(self.pdir)):
-                    os.mkdir(self.pdir)
-        else:
-            if (not os.path.exists(self.pdir)):
-                os.mkdir(self.pdir)
+        self.pdir = util.create_unique_dir_mpi(self.output_path + '/Plots/', self.comm)
 
     def create_poly_fit_folder(self):
         ''' Create the output folder for the polynomial fits. '''
         if (self.do_poly_fitting):
-            self.poly_fit_dir = self.output_path + '/PolyFits/'
-            self.poly_fit_dir = util.uniquify(self.poly_fit_dir)
-
-            # Create the folder
-            if (not os.path.exists(self.poly_fit_dir)):
-                if (self.comm is not None):
-                    if (self.comm.rank == 0): os.mkdir(self.poly_fit_dir)
-                else:
-                    os.mkdir(self.poly_fit_dir)
+            self.poly_fit_dir = util.create_unique_dir_mpi(self.output_path + '/PolyFits/', self.comm)
 
     def create_folders(self):
         ''' Create the output folders '''
diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 77b1f8f..0e646d7 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -1,6 +1,5 @@
 ''' Input-Ouput routines for dga'''
 
-import os
 import numpy as np
 import h5py
 
@@ -21,14 +20,7 @@ KNOWNINPUTTYPES = ['EDFermion', 'w2dyn']
 
 def set_output_path(base_name, comm=None):
     ''' comm is for mpi applications '''
-    output_path = util.uniquify(base_name)
-
-    if not os.path.exists(output_path):
-        if comm is not None:
-            if comm.rank == 0: os.mkdir(output_path)
-        else:
-            os.mkdir(output_path)
-    return output_path
+    return util.create_unique_dir_mpi(base_name, comm)
 
 
 def create_dmft_ddict(dmft_input, g2_dens: lfp.LocalFourPoint, g2_magn: lfp.LocalFourPoint):
diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 1cf8262..064d0c4 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -59,7 +59,7 @@ def main(path='./', comm=None):
     me_conf = config.MaxEntConfig(1,dmft_input['beta'],max_ent_config)
     if comm.rank == 0 and 'loc' in max_ent_config:
         loc_dir = path + 'MaxEnt/'
-        loc_dir = dga_io.set_output_path(loc_dir,comm=comm)
+        loc_dir = dga_io.set_output_path(loc_dir)  # only called by the root rank
         siwk_dmft = twop.SelfEnergy(sigma=dmft_input['siw'][None, None, None, :], beta=dmft_input['beta'])
         giwk_dmft = twop.GreensFunction(siwk_dmft, ek, mu=dmft_input['mu_dmft'], niv_asympt=d_cfg.box.niv_asympt)
         g_loc_dmft = giwk_dmft.g_loc
diff --git a/src/dga/util.py b/src/dga/util.py
index 47f2b33..1152edf 100644
--- a/src/dga/util.py
+++ b/src/dga/util.py
@@ -23,3 +23,28 @@ def uniquify(path=None):
         counter += 1
 
     return path + '/'
+
+
+def create_unique_dir(base_name):
+    '''
+    Create a new directory with a unique name derived from base_name. The directory is created exclusively, i.e. it is
+    never shared with a run which picks the same name at the same time.
+
+    base_name: requested path of the directory
+    return: path of the newly created directory
+    '''
+    while True:
+        path = uniquify(base_name)
+        try:
+            os.mkdir(path)
+            return path
+        except FileExistsError:
+            if not os.path.exists(path): raise  # otherwise someone else was faster, try the next name
+
+
+def create_unique_dir_mpi(base_name, comm=None):
+    ''' Create a new unique directory on the root rank and return its path on all ranks. '''
+    if comm is None:
+        return create_unique_dir(base_name)
+    path = create_unique_dir(base_name) if comm.rank == 0 else None
+    return comm.bcast(path, root=0)
-- 
2.43.0


From f2ea293612b303e712f8eed1e418bf725f10fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 08/60] fix: do not infer the asymptotic range from box sizes
 which are not set

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index f47c8ed..634116a 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -157,7 +157,7 @@ class BoxSizes(ConfigBase):
         if (config_dict is not None):
             self.update_dict(**config_dict)  # forwards parameters from config
 
-        if (self.niv_asympt == -1):
+        if (self.niv_asympt == -1 and self.niv_core != -1 and self.niw_core != -1):
             self.niv_asympt = self.niv_full + self.niw_core * 2
 
     @property
-- 
2.43.0


From 0277435687e57adfe85c254ec0e20f717d39b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 09/60] fix: estimated core range of the self-energy stays
 within the available frequencies

---
 src/dga/two_point.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 38ce0b9..6c689fe 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -139,13 +139,14 @@ class SelfEnergy():
     def estimate_niv_core(self):
         '''check when the real and the imaginary part are within error margin of the asymptotic'''
         asympt = self.get_asympt(niv_asympt=self.niv, n_min=0)
-        ind_real = np.argmax(np.abs(self.k_mean().real - asympt.real) < self.err)
-        ind_imag = np.argmax(np.abs(self.k_mean().imag - asympt.imag) < self.err)
-        niv_core = max(ind_real, ind_imag)
-        if niv_core < self.niv_core_min:
-            return self.niv_core_min
-        else:
-            return niv_core
+        ind_real = self._first_index(np.abs(self.k_mean().real - asympt.real) < self.err)
+        ind_imag = self._first_index(np.abs(self.k_mean().imag - asympt.imag) < self.err)
+        niv_core = max(ind_real, ind_imag, self.niv_core_min)
+        return min(niv_core, self.niv)
+
+    def _first_index(self, is_asympt):
+        ''' First frequency index for which is_asympt is True; niv (i.e. no asymptotics) if there is none. '''
+        return np.argmax(is_asympt) if np.any(is_asympt) else self.niv
 
     def get_siw(self, niv=-1, pi_shift=False):
         if niv == -1:
-- 
2.43.0


From 222d8e7035f36151c15f30cd2f23e7ba8dc06796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 10/60] fix: report the DMFT potential energy instead of the
 DGA one

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 81b5971..b373e96 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -274,7 +274,7 @@ def main():
         e_kin_dga = giwk_dga.e_kin
         e_kin_dmft = giwk_dmft.e_kin
         e_pot_dga = giwk_dga.e_pot
-        e_pot_dmft = giwk_dga.e_pot
+        e_pot_dmft = giwk_dmft.e_pot
         np.savetxt(d_cfg.output_path + '/energies.txt', [[e_kin_dga, e_kin_dmft, e_pot_dga, e_pot_dmft]],
                    header='kin-dga kin-dmft pot-dga pot-dmft', fmt='%.6f')
 
-- 
2.43.0


From 068ae51846493663cdea751fc2b50e0fae873c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 11/60] fix: a short input does not reduce n_fit of the MaxEnt
 controller for later inputs

---
 src/dga/analytic_continuation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 676f088..9d4b36b 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -293,13 +293,12 @@ class MaxEnt():
     def cut_matrix(self, mat):
         niv_mat = np.size(mat) // 2
 
-        if self.n_fit > niv_mat:
-            self.n_fit = niv_mat
+        n_fit = min(self.n_fit, niv_mat)
 
         if self.kernel_mode == 'freq_fermionic':
-            return mat[niv_mat:niv_mat + self.n_fit]
+            return mat[niv_mat:niv_mat + n_fit]
         elif self.kernel_mode == 'freq_bosonic':
-            return mat[niv_mat:niv_mat + self.n_fit + 1]
+            return mat[niv_mat:niv_mat + n_fit + 1]
         else:
             raise ValueError(f'Unknown kernel mode: {self.kernel_mode}.')
 
@@ -317,7 +316,7 @@ class MaxEnt():
 
     def cont_single_ind(self, mat):
         mat_plus = self.cut_matrix(mat)
-        im_axis = self.get_im_freq()
+        im_axis = self.get_im_freq()[:len(mat_plus)]
         model = self.get_model(mat)
         error_s = np.ones_like(im_axis,dtype=float) * self.err
 
-- 
2.43.0


From 3144208d2c12cd6d99571b7e1883a1fde223c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 12/60] fix: normalize the bosonic default model to the static
 susceptibility

---
 src/dga/analytic_continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 9d4b36b..51085f2 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -317,7 +317,7 @@ class MaxEnt():
     def cont_single_ind(self, mat):
         mat_plus = self.cut_matrix(mat)
         im_axis = self.get_im_freq()[:len(mat_plus)]
-        model = self.get_model(mat)
+        model = self.get_model(mat_plus)
         error_s = np.ones_like(im_axis,dtype=float) * self.err
 
         problem = cont.AnalyticContinuationProblem(im_axis=im_axis, re_axis=self.w, im_data=mat_plus,
-- 
2.43.0


From 388c35442f96eb90a72638f926217d9e74ed2e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 13/60] fix: result of a continuation batch has the same type
 and shape on all ranks

---
 src/dga/analytic_continuation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 51085f2..f4c479f 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -339,13 +339,15 @@ class MaxEnt():
 
     def analytic_continuation(self, mat_list):
         cont_list = []
+        dtype = complex if self.kernel_mode == 'freq_fermionic' else float
         for mat in mat_list:
             try:
                 cont_list.append(self.cont_single_ind(mat))
             except:
                 print('Error in analytic continuation. Setting result to 0.')
                 cont_list.append(np.zeros_like(self.w))  # make sure the code does not hang up when ana_cont fails for one index
-        return np.array(cont_list)
+        # fixed shape and type, so that all ranks agree even if all of their indices failed or they have no index
+        return np.array(cont_list, dtype=dtype).reshape(len(cont_list), len(self.w))
 
 
 def mpi_ana_cont(mat, me_controller: MaxEnt, mpi_dist: mpi_aux.MpiDistributor, name, logger=None):
-- 
2.43.0


From 1045f78f5cadd0744b76ade410528821c60c7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 14/60] fix: distribute fermionic continuations over the
 k-grid, not the q-grid

---
 src/dga/dga_max_ent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 064d0c4..0ee472b 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -83,6 +83,8 @@ def main(path='./', comm=None):
     # Create a mpi distributor:
     mpi_dist = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_irr, comm=comm,
                                           name='MaxEntIrrk')
+    mpi_dist_k = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.k_grid.nk_irr, comm=comm,
+                                        name='MaxEntIrrk')
 
     # Continuation of the k-dependent self-energy:
     if 's_dga' in max_ent_config:
@@ -98,7 +100,7 @@ def main(path='./', comm=None):
             else:
                 sigma_mat = None
 
-            siw_cont = a_cont.mpi_ana_cont(sigma_mat, me_controller, mpi_dist, 'siwk_dga', logger = logger)
+            siw_cont = a_cont.mpi_ana_cont(sigma_mat, me_controller, mpi_dist_k, 'siwk_dga', logger = logger)
             if comm.rank == 0:
                 siw_cont = d_cfg.lattice.k_grid.map_irrk2fbz(siw_cont) + sigma_dga.smom0  # add Hartree
                 a_cont.save_and_plot_cont_fermionic(siw_cont, me_controller.w, d_cfg.lattice.k_grid, 'swk_dga', siw_cont_path)
@@ -138,7 +140,7 @@ def main(path='./', comm=None):
             else:
                 mat = None
 
-            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist, 'giwk_dga', logger = logger)
+            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist_k, 'giwk_dga', logger = logger)
             if(comm.rank == 0):
                 cont = d_cfg.lattice.k_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_fermionic(cont, me_controller.w, d_cfg.lattice.k_grid, f'gwk_dga', cont_path)
-- 
2.43.0


From 8b75cb44faaf94bf64d02dcceb8188ef78b60d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 15/60] fix: real-frequency mesh respects the settings from the
 config

---
 src/dga/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dga/config.py b/src/dga/config.py
index 634116a..96f710e 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -334,6 +334,8 @@ class MaxEntConfig(OutputConfig):
         # Flags what continuation to perform:
         self.bw_range_loc = np.array([0.001, 0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.35, 0.5, 0.75, 1])
         self.update_dict(**config_dict)
+        # rebuild the mesh with the settings from the config:
+        self.mesh_type = self.__dict__.pop('mesh_type', self.mesh_type)
 
     @property
     def mesh_type(self):
-- 
2.43.0


From 6641d2d41bb1cf0df0d2ec096d5630b452fa0070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 16/60] fix: number of processes may not exceed the irreducible
 q-points either

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 96f710e..0ac3b53 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -552,7 +552,7 @@ class DgaConfig(OutputConfig):
             matplotlib.use('agg')  # non-gui backend. Particularly usefull for use on cluster.
 
         # Check that number of processes is not larger than number of points in the irreducible BZ:
-        if (comm is not None and comm.size > self.lattice.k_grid.nk_irr):
+        if (comm is not None and comm.size > min(self.lattice.k_grid.nk_irr, self.lattice.q_grid.nk_irr)):
             raise ValueError('Number of processes may not be larger than points in the irreducible BZ for distribution.')
 
     def build_box_sizes(self, conf_file):
-- 
2.43.0


From a85a3f5d523b315cffda70a60f6a72ccf3cefd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 17/60] fix: symmetrize the one-particle Green's function under
 its w2dynamics name

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index 00ea7ed..e33226d 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -273,15 +273,15 @@ def main(conf):
     copyfile(conf['infile'],conf['outfile'])
     f2=h5py.File(conf['outfile'],'r+')
     for ineq in range(conf['nineq']):
-      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      del f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
+      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      del f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       f2['dmft-last/ineq-{:03}/siw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       del f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       for band in range(conf['Nbands'][ineq]):
         for symband in conf['sym'][ineq][band]:
-          f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)][band,:,:] += \
+          f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
           f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
-- 
2.43.0


From 8e97e4f7954fb4a5f5ec2c70f96297fb1b3c6d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 18/60] fix: read the box size from the requested worm group

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index e33226d..62cabff 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -120,20 +120,20 @@ def check_sym(**kwargs):
           print('orbital symmetry not consistent!')
           sys.exit()
 
-def get_fbox(infile=None,target=None,**kwargs):
+def get_fbox(infile=None,target=None,worm_group='worm-last',**kwargs):
   conf = kwargs['conf']
   f=h5py.File(infile,'r')
   if target=='1freq_b':
-    n2iwb=f['worm-last/ineq-001/p2iw-worm/00001/value'].shape[0]
+    n2iwb=f['{}/ineq-001/p2iw-worm/00001/value'.format(worm_group)].shape[0]
     print(n2iwb)
     conf['n2iwb']=n2iwb//2
   elif target=='2freq':
-    n3iwf,n3iwb = f['worm-last/ineq-001/p3iw-worm/00001/value'].shape
+    n3iwf,n3iwb = f['{}/ineq-001/p3iw-worm/00001/value'.format(worm_group)].shape
     conf['n3iwf'],conf['n3iwb'] = n3iwf//2,n3iwb//2
     n3iwf,n3iwb=conf['n3iwf'],conf['n3iwb']
   elif target=='3freq':
     # new worm format -- f f b
-    _,n4iwf,n4iwb = f['worm-last/ineq-001/g4iw-worm/00001/value'].shape # always here
+    _,n4iwf,n4iwb = f['{}/ineq-001/g4iw-worm/00001/value'.format(worm_group)].shape # always here
     conf['n4iwf']=n4iwf//2
     conf['n4iwb']=n4iwb//2
     n4iwf,n4iwb=conf['n4iwf'],conf['n4iwb']
-- 
2.43.0


From b91d63192378d2c27eb7ad9d1abea08a7df25313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 19/60] fix: use the y- and z-axis for the k-points along a
 path

---
 src/dga/brillouin_zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index daf1f30..cf2eb77 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -378,7 +378,7 @@ class KPath():
         self.k_points = self.get_kpoints()
 
     def get_kpath_val(self):
-        k = [self.kx[self.kpts[:, 0]], self.kx[self.kpts[:, 1]], self.kx[self.kpts[:, 2]]]
+        k = [self.kx[self.kpts[:, 0]], self.ky[self.kpts[:, 1]], self.kz[self.kpts[:, 2]]]
         return k
 
     def set_kgrid(self, k_in, nk):
-- 
2.43.0


From 215ad598b6423be2e56b995403e458f111a7c90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 20/60] fix: keep k- and band-dimensions of size one when
 reading a Hamiltonian

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 7fb4038..4e0f9fe 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -444,7 +444,7 @@ def read_hk_w2k(fname, spin_sym=True):
     hk = hk.transpose(0, 2, 1, 4, 3)
     hk_file.close()
 
-    hk = np.squeeze(hk)
+    if nspins == 1: hk = hk[:, :, 0, :, 0]  # the number of k-points or bands may be one
 
     return hk, kpoints.T
 
-- 
2.43.0


From fc14d9aa1db1f38eb05f6c3220e2ab0f2dd58c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 21/60] fix: local continuation uses at most the available
 frequencies

---
 src/dga/analytic_continuation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index f4c479f..4f12529 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -407,6 +407,7 @@ def max_ent_loc(mat, me_conf: config.MaxEntConfig, bw):
 def max_ent(mat=None, v_real=None, beta=None, n_fit=60, alpha_det_method='historic', err=2e-6, use_preblur=False, bw=None,
             optimizer='newton', return_chi2=False):
     niv_mat = np.size(mat) // 2
+    n_fit = min(n_fit, niv_mat)
     mat_plus = mat[niv_mat:niv_mat + n_fit]
     iv_plus = 1j * mf.vn(beta, n_fit, pos=True)
     problem = cont.AnalyticContinuationProblem(im_axis=iv_plus.imag, re_axis=v_real, im_data=mat_plus,
-- 
2.43.0


From e6b2aadba07e6c616b3fd7832a5fd96a594fcf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 22/60] fix: default config uses the key of the box sizes that
 is read

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 0ac3b53..4c95d90 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -652,7 +652,7 @@ class DgaConfig(OutputConfig):
 
 def get_default_config_dict():
     conf_dict = {
-        'box': {
+        'box_sizes': {
             'niv_core': -1,
             'niw_core': -1,
             'niv_shell': 0,
-- 
2.43.0


From 0fa25a55ad5a43f373327b51f401ce7ec25c1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 23/60] fix: reject unknown lattice symmetries

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 4c95d90..29ab450 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -245,7 +245,7 @@ class LatticeConfig(ConfigBase):
         elif (isinstance(self.symmetries, tuple)):
             for sym in self.symmetries:
                 if (sym not in bz.KNOWN_SYMMETRIES):
-                    NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
+                    raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
         else:
             raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
 
-- 
2.43.0


From 8831a50f32fe2665692d2a91aa1414ad739b943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 24/60] fix: inv_cut_v with niv_shell=-1 returns everything
 outside of the core

---
 src/dga/matsubara_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index c541b65..c1707d1 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -165,7 +165,7 @@ def inv_cut_v_1d(arr=None, niv_core=0, niv_shell=-1):
     '''
     assert np.size(np.shape(arr)) == 1, 'Array is not 1D.'
     niv = arr.shape[0] // 2
-    if niv_shell == -1: niv_shell = niv
+    if niv_shell == -1: niv_shell = niv - niv_core
     return np.concatenate((arr[niv - niv_shell - niv_core:niv - niv_core], arr[niv + niv_core:niv + niv_core + niv_shell]))
 
 
-- 
2.43.0


From 667496a0f5063b9cd8ed4f13f6aa19baa1f77314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 25/60] fix: add_bosonic aligns the frequencies along the
 requested axis

---
 src/dga/matsubara_frequencies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index c1707d1..3b089a8 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -239,12 +239,12 @@ def add_bosonic(mat1, mat2, axis=0):
     if niw_2 <= niw_1:
         result = np.copy(mat1)
         nl, nu = niw_1 - niw_2, niw_1 + niw_2 + 1
-        result[nl:nu] += mat2
+        np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat2, axis, 0)
         return result
     else:
         result = np.copy(mat2)
         nl, nu = niw_2 - niw_1, niw_2 + niw_1 + 1
-        result[nl:nu] += mat1
+        np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat1, axis, 0)
         return result
 
 
-- 
2.43.0


From 3612650ac20ccc5a94f6437cd47b389a2566a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 26/60] fix: optics section in the config without bubble does
 not abort the run

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index b373e96..9860960 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -353,7 +353,7 @@ def main():
             d_cfg.optics.save_data(chijj_vert, 'chijj_vert')
         d_cfg.logger.log_event('Optics vertex completed!')
 
-    if comm.rank == 0 and 'optics' in conf_file:
+    if comm.rank == 0 and d_cfg.optics.do_bubble:
         # Plot the optical conductivity on matsubara frequencies:
         if chijj_vert is None: chijj_vert = np.zeros_like(chijj_bubble)
 
-- 
2.43.0


From 55fc6dda982aa946e4d1565e4f732ab171fc2de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 27/60] fix: average over the class of each irreducible point
 for any combination of symmetries

---
 src/dga/brillouin_zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index cf2eb77..bdcd905 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -300,7 +300,7 @@ class KGrid():
         shp = np.shape(mat_reshape)
         reduced = np.zeros((self.nk_irr,) + shp[1:], dtype=mat_reshape.dtype)
         for i in range(self.nk_irr):
-            reduced[i, ...] = np.mean(mat_reshape[self.fbz2irrk.flatten() == self.irrk_ind[i], ...], axis=0)
+            reduced[i, ...] = np.mean(mat_reshape[self.irrk_inv.flatten() == i, ...], axis=0)
         return self.map_irrk2fbz(mat=reduced).reshape(np.shape(mat))
 
     def shift_mat_by_pi(self, mat, axes=(0, 1, 2)):
-- 
2.43.0


From 0f4d61a91bccb6fef2d36afcb382042b68703f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 28/60] fix: bubbles at negative odd frequencies in the center
 notation

---
 src/dga/bubble.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 97482d6..8cb3f63 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -23,7 +23,13 @@ def get_gchi0(giw, beta, niv, iwn, freq_notation='minus'):
     return - beta * giw[niv_giw - niv + iws:niv_giw + niv + iws] * giw[niv_giw - niv + iws2:niv_giw + niv + iws2]
 
 
+def use_wn_symmetry(is_full_wn, freq_notation):
+    ''' The mirrored window is only the window at -w if the shifts change sign, which they do not for odd w in 'center'. '''
+    return is_full_wn and freq_notation != 'center'
+
+
 def vec_get_gchi0(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
+    is_full_wn = use_wn_symmetry(is_full_wn, freq_notation)
     if is_full_wn:
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         gchi0 = np.array([get_gchi0(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
@@ -45,6 +51,7 @@ def get_gchi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_gchi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = use_wn_symmetry(is_full_wn, freq_notation)
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     gchi0_q = np.zeros((len(q_list), len(wn_bub), niv * 2), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -65,6 +72,7 @@ def get_chi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_chi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = use_wn_symmetry(is_full_wn, freq_notation)
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     chi0_q = np.zeros((len(q_list), len(wn_bub)), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -80,6 +88,7 @@ def get_chi0_sum(giw, beta, niv, iwn=0, freq_notation='minus'):
 
 
 def vec_get_chi0_sum(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
+    is_full_wn = use_wn_symmetry(is_full_wn, freq_notation)
     if is_full_wn:
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         chi0 = np.array([get_chi0_sum(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
-- 
2.43.0


From e928c10380d51e5c86e1c3bd07e2b04b533dca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 29/60] fix: asymptotic sum of the q-bubble for a selection of
 bosonic frequencies

---
 src/dga/bubble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 8cb3f63..7c3c0cb 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -275,7 +275,7 @@ class BubbleGenerator():
         if freq_notation is None:
             freq_notation = self.freq_notation
         chi0_asympt_sum = np.zeros((len(q_list), self.niw), dtype=complex)
-        v = 1 / (1j * mf.vn(self.beta, niv_sum + self.niw))
+        v = 1 / (1j * mf.vn(self.beta, niv_sum + np.max(np.abs(self.wn))))
         niv = v.size // 2
         fac1, fac2, fac3 = self.get_asympt_prefactors_q(q_list)
         for i, iwn in enumerate(self.wn):
-- 
2.43.0


From 701d4f3b6336c84e01bee90f33a7391aa55a5e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 30/60] fix: primitive search of the chemical potential

---
 src/dga/two_point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 6c689fe..46e6293 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -229,7 +229,7 @@ def get_fill_primitive(g_loc, beta, verbose=False):
 def root_fun_primitive(mu=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0, verbose=False):
     """Auxiliary function for the root finding"""
     g_loc = get_gloc(iv=iv, hk=hk, siwk=siwk, mu_trial=mu)
-    return get_fill_primitive(g_loc, beta, verbose)[0] - target_filling
+    return get_fill_primitive(g_loc, beta, verbose).real - target_filling
 
 
 def update_mu_primitive(mu0=0.0, target_filling=None, iv=None, hk=None, siwk=None, beta=None, smom0=None, tol=1e-6,
@@ -239,7 +239,7 @@ def update_mu_primitive(mu0=0.0, target_filling=None, iv=None, hk=None, siwk=Non
     '''
     if verbose: print('Update mu...')
     mu = mu0
-    hloc = None
+    hloc = hk.mean()
     if verbose: print(
         root_fun(mu=mu, target_filling=target_filling, iv=iv, hk=hk, siwk=siwk, beta=beta, smom0=smom0, hloc=hloc))
     try:
-- 
2.43.0


From e311e6ea5ed99082c48cbe337d0b55bed541df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 31/60] fix: find the chemical potential also where the secant
 method diverges

---
 src/dga/two_point.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 46e6293..1d5f35d 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -285,6 +285,18 @@ def root_fun(mu=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0,
 # ==================================================================================================================
 
 # ==================================================================================================================
+def bracketed_root(fun, mu0, tol, args):
+    """ The filling grows with mu: enlarge the interval around mu0 until it contains the root. """
+    width = 1.0
+    for _ in range(30):
+        if fun(mu0 - width, *args) <= 0 <= fun(mu0 + width, *args):
+            return opt.brentq(fun, mu0 - width, mu0 + width, xtol=tol, args=args)
+        width *= 2
+    raise RuntimeError('Target filling cannot be reached.')
+
+
+# ==================================================================================================================
+
 def update_mu(mu0=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0, smom0=0.0, tol=1e-6, verbose=False):
     """
     Update internal chemical potential (mu) to fix the filling to the target filling with given precision.
@@ -297,8 +309,11 @@ def update_mu(mu0=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0
         print(root_fun(mu=mu, target_filling=target_filling, iv=iv, hk=hk, siwk=siwk, beta=beta, smom0=smom0, hloc=hloc))
     try:
 
-        mu = opt.newton(root_fun, mu, tol=tol,
-                        args=(target_filling, iv, hk, siwk, beta, smom0, hloc))
+        args = (target_filling, iv, hk, siwk, beta, smom0, hloc)
+        try:
+            mu = opt.newton(root_fun, mu, tol=tol, args=args)
+        except RuntimeError:  # the secant method diverges where the filling is flat
+            mu = bracketed_root(root_fun, mu0, tol, args)
     except RuntimeError:
         if verbose: print('Root finding for chemical potential failed.')
         if verbose: print('Using old chemical potential again.')
-- 
2.43.0


From 4b3aa8cabb22377a0bcb7ebd85b6d5438bb1688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 32/60] fix: chemical potential on the real axis also where the
 filling is flat

---
 src/dga/two_point.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 1d5f35d..595a5bb 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -287,12 +287,15 @@ def root_fun(mu=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0,
 # ==================================================================================================================
 def bracketed_root(fun, mu0, tol, args):
     """ The filling grows with mu: enlarge the interval around mu0 until it contains the root. """
-    width = 1.0
-    for _ in range(30):
-        if fun(mu0 - width, *args) <= 0 <= fun(mu0 + width, *args):
-            return opt.brentq(fun, mu0 - width, mu0 + width, xtol=tol, args=args)
-        width *= 2
-    raise RuntimeError('Target filling cannot be reached.')
+    bounds = []
+    for sign in (-1, 1):
+        width = 1.0
+        while sign * fun(mu0 + sign * width, *args) < 0:
+            width *= 2
+            if width > 1e9:
+                raise RuntimeError('Target filling cannot be reached.')
+        bounds.append(mu0 + sign * width)
+    return opt.brentq(fun, *bounds, xtol=tol, args=args)
 
 
 # ==================================================================================================================
@@ -556,6 +559,11 @@ def opt_func(mu, n, swk, w, ek, verbose=False):
 
 def adjust_mu_real_f(mu0, n_target, swk, w, ek, verbose=False):
     fit = opt.minimize(opt_func, x0=mu0, args=(n_target, swk, w, ek, verbose))
+    if fit.fun > 1e-6:  # stuck where the filling is flat
+        try:
+            return np.array([bracketed_root(lambda mu: get_filling_real_f(w, get_gwk(w, swk, ek, mu)) - n_target, mu0, 1e-6, ())])
+        except RuntimeError:
+            pass  # filling cannot be reached, take the closest one
     return fit.x
 
 
-- 
2.43.0


From 1706acf7fa55f873baa69d56a78be68227a22a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 33/60] fix: power iteration of the Eliashberg equation stopped
 if the first estimate was one

---
 src/dga/eliashberg_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/eliashberg_equation.py b/src/dga/eliashberg_equation.py
index 5375fc4..fc042ac 100644
--- a/src/dga/eliashberg_equation.py
+++ b/src/dga/eliashberg_equation.py
@@ -58,7 +58,7 @@ class EliashberPowerIteration():
             gap_old = self.gap0_s
         else:
             gap_old = self.gap0  # always initialize with the same starting point
-        lambda_old = 1  # Randomly start with
+        lambda_old = np.inf  # never converged after the first iteration
         converged = False
         count = 0
         while not converged:
-- 
2.43.0


From 09ceec9cb29d9d64c4da155e17cd25d5cd64b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:10 +0000
Subject: [PATCH 34/60] fix: gap functions beyond the leading one solve the
 Eliashberg equation

---
 src/dga/eliashberg_equation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dga/eliashberg_equation.py b/src/dga/eliashberg_equation.py
index fc042ac..a4abaa7 100644
--- a/src/dga/eliashberg_equation.py
+++ b/src/dga/eliashberg_equation.py
@@ -70,6 +70,7 @@ class EliashberPowerIteration():
             # gep_new = remove_prev_eigenvals(v=gap_new, basis=self.gap, lams=self.lam)
             if self.lam_s is not None:
                 gap_new = gap_new - gap_old * self.lam_s
+            gap_new = gram_schmidt_eliash(v=gap_new, basis=self.gap, gk=self.gk)
             lambda_new = np.sum(np.conj(gap_old) * gap_new) / np.sum(np.conj(gap_old) * gap_old)
             gap_old = gap_new / lambda_new
 
@@ -109,14 +110,11 @@ def proj(v=None, u=None):
     return np.sum(np.conj(u) * v) / np.sum(np.conj(u) * u) * u
 
 
-# pylint: disable=unused-argument
 def proj_eliash(v=None, u=None, gk=None):
-    '''Projection of v onto u.'''
-    # return np.sum(u*np.abs(gk)**2*v)/np.sum(u*np.abs(gk)**2*u) * u
-    return np.sum(np.conj(u) * v) / np.sum(np.conj(u) * u) * u
-
+    ''' Projection of v onto u with the weight |gk|^2, for which the Eliashberg operator is self-adjoint. '''
+    gg = np.abs(gk) ** 2
+    return np.sum(np.conj(u) * gg * v) / np.sum(np.conj(u) * gg * u) * u
 
-# pylint: enable=unused-argument
 
 def get_gap_start(shape=None, k_type=None, v_type=None, k_grid=None):
     gap0 = np.zeros(shape, dtype=complex)
-- 
2.43.0


From 6cd0578ae49b171686131dedd1e23824b4d7eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 35/60] fix: Eliashberg equation used the pairing vertex at
 k'-k instead of k-k'

---
 src/dga/eliashberg_equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/eliashberg_equation.py b/src/dga/eliashberg_equation.py
index a4abaa7..876f3ee 100644
--- a/src/dga/eliashberg_equation.py
+++ b/src/dga/eliashberg_equation.py
@@ -64,9 +64,9 @@ class EliashberPowerIteration():
         while not converged:
             count += 1
             gap_old = gram_schmidt_eliash(v=gap_old, basis=self.gap, gk=self.gk)
-            gap_gg = np.fft.ifftn(gap_old * np.abs(self.gk) ** 2, axes=(0, 1, 2))
+            gap_gg = np.fft.fftn(gap_old * np.abs(self.gk) ** 2, axes=(0, 1, 2))
             gap_new = 1. / self.norm * np.sum(self.gammax * gap_gg[..., None, :], axis=-1)
-            gap_new = np.fft.fftn(gap_new, axes=(0, 1, 2))
+            gap_new = np.fft.ifftn(gap_new, axes=(0, 1, 2))
             # gep_new = remove_prev_eigenvals(v=gap_new, basis=self.gap, lams=self.lam)
             if self.lam_s is not None:
                 gap_new = gap_new - gap_old * self.lam_s
-- 
2.43.0


From 65ad8e3adb50877f5d7d9ad60966fa83d5eedf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 36/60] fix: tail of the bubble assumed a band with vanishing
 mean (on-site energies)

---
 src/dga/bubble.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 7c3c0cb..03a7de4 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -214,15 +214,15 @@ class BubbleGenerator():
             [fac2] = eV^2
             [fac3] = eV^2
         '''
-        fac1 = self.mu - self.smom0
-        fac2 = (self.mu - self.smom0) ** 2 + self.ek_mom2 - self.smom1
-        fac3 = (self.mu - self.smom0) ** 2 + self.ek_mom1 ** 2  # ek_mom1 is zero
+        fac1 = self.mu - self.smom0 - self.ek_mom1
+        fac2 = (self.mu - self.smom0) ** 2 - 2 * (self.mu - self.smom0) * self.ek_mom1 + self.ek_mom2 - self.smom1
+        fac3 = (self.mu - self.smom0) ** 2 - 2 * (self.mu - self.smom0) * self.ek_mom1 + self.ek_mom1 ** 2
         return fac1, fac2, fac3
 
     def get_asympt_prefactors_q(self, q_list):
-        fac1 = self.mu - self.smom0
-        fac2 = (self.mu - self.smom0) ** 2 + self.ek_mom2 - self.smom1
-        fac3 = (self.mu - self.smom0) ** 2 + self.get_ek_ekpq(q_list)
+        fac1 = self.mu - self.smom0 - self.ek_mom1
+        fac2 = (self.mu - self.smom0) ** 2 - 2 * (self.mu - self.smom0) * self.ek_mom1 + self.ek_mom2 - self.smom1
+        fac3 = (self.mu - self.smom0) ** 2 - 2 * (self.mu - self.smom0) * self.ek_mom1 + self.get_ek_ekpq(q_list)
         return fac1, fac2, fac3
 
     def get_ek_ekpq(self, q_list):
-- 
2.43.0


From 36b75f2da34b81e3410cef00503ee7dad8167007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 37/60] fix: vn_full of the box sizes could not be evaluated
 (keyword argument to a dispatched function)

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 29ab450..0ad70b2 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -166,7 +166,7 @@ class BoxSizes(ConfigBase):
 
     @property
     def vn_full(self):
-        return mf.vn(n=self.niv_full)
+        return mf.vn(self.niv_full)
 
     @property
     def niv_pp(self):
-- 
2.43.0


From f74be9953ea726e2f5165e988bb1a5d184d61a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 38/60] fix: Pade routines used dtype aliases removed from
 numpy

---
 src/dga/pade_aux.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dga/pade_aux.py b/src/dga/pade_aux.py
index 94e419c..79a038c 100644
--- a/src/dga/pade_aux.py
+++ b/src/dga/pade_aux.py
@@ -161,7 +161,7 @@ class PadeSolver():
 
 def compute_coefficients(zi,ui):
   n=len(zi)
-  g=np.zeros((n,n),dtype=np.complex)
+  g=np.zeros((n,n),dtype=complex)
   g[:,0]=ui
   for i in range(n):
     for j in range(1,i+1):
@@ -265,7 +265,7 @@ def padeMatrix(z, f, N, verbose=False):
     M = len(z)
     r = N // 2
     y = f * z ** r
-    A = np.ones((M, N), dtype=np.complex)
+    A = np.ones((M, N), dtype=complex)
     for i in range(M):
         A[i, :r] = z[i] ** (np.arange(r))
         A[i, r:] = -f[i] * z[i] ** (np.arange(r))
@@ -554,7 +554,7 @@ def pade(zin, fin, zout):
                 d[i] = np.sum(delta[:i, i]) + np.sum(delta[i, i + 1:])
             # calculate if to include or reject continuations based on two criteria:
             c1 = d <= c1v * np.mean(d)
-            c2 = np.zeros(len(d), dtype=np.bool)
+            c2 = np.zeros(len(d), dtype=bool)
             ind = np.argsort(d)[:int(c2v * len(d))]  # indices to 51% lowest distances
             c2[ind] = True
             mask = c1 & c2  # continuations to include
-- 
2.43.0


From e9697033ad2d26df6e8d4009a46cfac66ef854a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 39/60] fix: reading version 2 Hamiltonian files used a removed
 numpy alias

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 4e0f9fe..72cb654 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -398,7 +398,7 @@ def read_hk_w2k(fname, spin_sym=True):
     if header[0] == 'VERSION':
         warn('Version 2 headers are obsolete (specify in input file!)')
         nkpoints, natoms = map(int, nextline())
-        lines = np.array([nextline() for _ in range(natoms)], np.int)
+        lines = np.array([nextline() for _ in range(natoms)], int)
         nbands = np.sum(lines[:, :2])
         del lines, natoms
     elif len(header) != 3:
-- 
2.43.0


From 4ec99bfec55be701e9c1d5cc070d11814cb6218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 40/60] fix: sanity plots aborted runs with fewer than ten
 bosonic frequencies

---
 src/dga/plotting.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 676257d..3402928 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -59,8 +59,9 @@ def default_g2_plots(g2_dens, g2_magn, output_dir):
     ''' Default plots for the two-particle Green's function'''
     g2_dens.plot(0, pdir=output_dir, name='G2_dens')
     g2_magn.plot(0, pdir=output_dir, name='G2_magn')
-    g2_magn.plot(10, pdir=output_dir, name='G2_magn')
-    g2_magn.plot(-10, pdir=output_dir, name='G2_magn')
+    iwn = min(10, np.max(g2_magn.wn))  # the box may contain fewer than ten bosonic frequencies
+    g2_magn.plot(iwn, pdir=output_dir, name='G2_magn')
+    g2_magn.plot(-iwn, pdir=output_dir, name='G2_magn')
 
 
 def default_gchi_plots(gchi_dens, gchi_magn, output_dir):
@@ -74,9 +75,10 @@ def default_gamma_plots(gamma_dens, gamma_magn, output_dir, box_sizes, beta):
     niv_core = box_sizes.niv_core
     gamma_dens.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
     gamma_magn.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_magn.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_magn.plot(-10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_dens.plot(10, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
+    iwn = min(10, np.max(gamma_magn.wn))  # the box may contain fewer than ten bosonic frequencies
+    gamma_magn.plot(iwn, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
+    gamma_magn.plot(-iwn, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
+    gamma_dens.plot(iwn, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
 
 
 def plot_along_ind(mat, indizes, step_size=1, figsize=ps.FIGSIZE, cmap='rainbow', verbose=False, pdir='./', do_save=True
-- 
2.43.0


From 1b3bb59eb936bd19c705e9aa42fcb2ef1b71758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 41/60] fix: the main program aborted in matplotlib calls that
 were removed

---
 src/dga/brillouin_zone.py |  7 +++----
 src/dga/plotting.py       | 16 ++++++++--------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index bdcd905..5916e03 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -56,12 +56,11 @@ def find_zeros(mat):
     ind_y = np.arange(mat.shape[1])
 
     cs1 = plt.contour(ind_x, ind_y, mat.T.real, cmap='RdBu', levels=[0, ])
-    paths = cs1.collections[0].get_paths()
+    segments = cs1.allsegs[0]  # independent of the matplotlib version
     plt.close()
-    paths = np.atleast_1d(paths)
     vertices = []
-    for path in paths:
-        vertices.extend(path.vertices)
+    for segment in segments:
+        vertices.extend(segment)
     vertices = np.array(vertices, dtype=int)
     return vertices
 
diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 3402928..1d9648f 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -43,15 +43,15 @@ def get_zero_contour(data):
     indy = np.arange(0, np.shape(data)[0])
     fig1 = plt.figure()
     cs1 = plt.contour(indx, indy, data, cmap='RdBu', levels=[0, ])
-    path = cs1.collections[0].get_paths()
+    path = cs1.allsegs[0]  # independent of the matplotlib version
     plt.close(fig1)
     for i in range(len(path)):
         if (i == 0):
-            indices_x = np.array(np.round(path[i].vertices[:, 0], 0).astype(int))
-            indices_y = np.array(np.round(path[i].vertices[:, 1], 0).astype(int))
+            indices_x = np.array(np.round(path[i][:, 0], 0).astype(int))
+            indices_y = np.array(np.round(path[i][:, 1], 0).astype(int))
         else:
-            indices_x = np.concatenate((indices_x, np.array(np.round(path[i].vertices[:, 0], 0).astype(int))), axis=0)
-            indices_y = np.concatenate((indices_y, np.array(np.round(path[i].vertices[:, 1], 0).astype(int))), axis=0)
+            indices_x = np.concatenate((indices_x, np.array(np.round(path[i][:, 0], 0).astype(int))), axis=0)
+            indices_y = np.concatenate((indices_y, np.array(np.round(path[i][:, 1], 0).astype(int))), axis=0)
     return indices_x, indices_y
 
 
@@ -93,7 +93,7 @@ def plot_along_ind(mat, indizes, step_size=1, figsize=ps.FIGSIZE, cmap='rainbow'
     ind_v = np.logical_and(vn >= niv_plot_min, vn <= niv_plot)
 
     n_plots = len(indizes[::step_size])
-    line_colors = plt.cm.get_cmap(cmap)(np.linspace(0, 1, n_plots))
+    line_colors = plt.get_cmap(cmap)(np.linspace(0, 1, n_plots))
     lines = []
 
     fig, axes = plt.subplots(nrows=1, ncols=2, figsize=figsize)
@@ -141,7 +141,7 @@ def plot_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap='RdBu', figsi
                  pad=0.05)
     if (scatter is not None):
         for ax in axes:
-            colours = plt.cm.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
+            colours = plt.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
             ax.scatter(scatter[:, 0], scatter[:, 1], marker='o', c=colours)
     plt.tight_layout()
     if (do_save): plt.savefig(pdir + '/' + name + '.png')
@@ -577,7 +577,7 @@ def plot_gap_function_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap=
                  pad=0.05)
     if (scatter is not None):
         for ax in axes:
-            colours = plt.cm.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
+            colours = plt.get_cmap(cmap)(np.linspace(0, 1, np.shape(scatter)[0]))
             ax.scatter(scatter[:, 0], scatter[:, 1], marker='o', c=colours)
     plt.tight_layout()
     if (do_save): plt.savefig(pdir + '/GapFunction_' + name + '.png')
-- 
2.43.0


From eee4f58721d0cd53bc364c28dcd5896141f0b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 42/60] fix: saved three-leg vertex contained the momenta of
 the root process only

---
 src/dga/dga_main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 9860960..066a3e7 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -136,10 +136,6 @@ def main():
     d_cfg.logger.log_memory_usage('chi_lad', chi_lad_dens, n_exists=2)
     d_cfg.logger.log_memory_usage('vrg_q', vrg_q_dens, n_exists=2)
 
-    if (d_cfg.save_vrg and comm.rank == 0):
-        d_cfg.save_data(vrg_q_magn, 'vrg_q_magn')
-        d_cfg.save_data(vrg_q_dens, 'vrg_q_dens')
-
     del gamma_magn, gamma_dens, vrg_magn, vrg_dens
     gc.collect()
     d_cfg.logger.log_cpu_time(task=' Vrg and Chi-ladder completed. ')
@@ -206,6 +202,10 @@ def main():
 
     d_cfg.logger.log_memory_usage('vrg-q', vrg_q_dens, n_exists=2)
 
+    if (d_cfg.save_vrg and comm.rank == 0):
+        d_cfg.save_data(vrg_q_magn, 'vrg_q_magn')
+        d_cfg.save_data(vrg_q_dens, 'vrg_q_dens')
+
     if (comm.rank == 0):
         vrg_q_dens = d_cfg.lattice.q_grid.map_irrk2fbz(vrg_q_dens, shape='list')
         vrg_q_magn = d_cfg.lattice.q_grid.map_irrk2fbz(vrg_q_magn, shape='list')
-- 
2.43.0


From 240d642b8893f4679614f197e6ef558ba41cd72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 43/60] fix: figures of q-dependent vertices used the k-mesh
 and aborted runs with different meshes

---
 src/dga/four_point.py     |  8 ++++----
 src/dga/optics.py         | 12 ++++++------
 src/dga/pairing_vertex.py |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 4d175b6..7460440 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -358,12 +358,12 @@ def build_vertex_fq(d_cfg: conf.DgaConfig, comm, chi_lad_magn, chi_lad_dens):
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
     d_cfg.save_data(f_dens, 'F_dens')
     d_cfg.save_data(f_magn, 'F_magn')
     del f_dens, f_magn
diff --git a/src/dga/optics.py b/src/dga/optics.py
index f3db645..071eeda 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -182,20 +182,20 @@ def build_vertex_for_optical_conductivity(d_cfg: conf.DgaConfig, comm, chi_lad_m
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
 
     f_cond = -1 / 2 * f_dens - 3 / 2 * f_magn
     del f_dens, f_magn
     gc.collect()
 
     plotting.plot_kx_ky(f_cond[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
 
     d_cfg.optics.save_data(f_cond, 'F_cond')
     del f_cond
diff --git a/src/dga/pairing_vertex.py b/src/dga/pairing_vertex.py
index ab43721..5a201d9 100644
--- a/src/dga/pairing_vertex.py
+++ b/src/dga/pairing_vertex.py
@@ -151,11 +151,11 @@ def build_pairing_vertex(d_cfg: conf.DgaConfig, comm, chi_lad_magn, chi_lad_dens
     f_sing = +1.5 * f_magn - 0.5 * f_dens
     f_trip = +0.5 * f_magn + 0.5 * f_dens
 
-    plotting.plot_kx_ky(f_sing[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.eliash.output_path, name='F_sing_pp')
+    plotting.plot_kx_ky(f_sing[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.eliash.output_path, name='F_sing_pp')
 
-    plotting.plot_kx_ky(f_trip[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.eliash.output_path, name='F_trip_pp')
+    plotting.plot_kx_ky(f_trip[:, :, 0, d_cfg.box.niv_pp, d_cfg.box.niv_pp], d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.eliash.output_path, name='F_trip_pp')
 
     f_sing_loc = d_cfg.lattice.q_grid.k_mean(f_sing, 'fbz-mesh')
     f_trip_loc = d_cfg.lattice.q_grid.k_mean(f_trip, 'fbz-mesh')
-- 
2.43.0


From 7442329d7e8faba6f4af235d7aff2c7096ab8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 44/60] fix: momentum transfers of a coarser q-mesh were used
 as shifts on the k-mesh

---
 src/dga/config.py   |  6 ++++++
 src/dga/dga_main.py | 10 ++++++----
 src/dga/optics.py   | 13 ++++++++-----
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 0ad70b2..ea79223 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -257,6 +257,12 @@ class LatticeConfig(ConfigBase):
     def nq_tot(self):
         return np.prod(self.nq)
 
+    def q_list_on_k_mesh(self, q_list):
+        ''' Express indices of the q-mesh as indices of the k-mesh, as needed to shift k-dependent objects by q. '''
+        if any(nk % nq != 0 for nk, nq in zip(self.nk, self.nq)):
+            raise ValueError(f'The q-mesh {self.nq} must be a divisor of the k-mesh {self.nk}.')
+        return np.array(q_list) * (np.array(self.nk) // np.array(self.nq))
+
     def set_hr(self):
         ''' Set the tight-binding hamiltonian.'''
         self.hr: wannier.WannierHr  # type declaration for nice autocompletes
diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 066a3e7..e056e33 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -112,7 +112,8 @@ def main():
                                              output_path=d_cfg.output_path,
                                              name='Q')
     comm.Barrier()
-    my_q_list = d_cfg.lattice.q_grid.get_irrq_list()[mpi_distributor.my_slice]
+    irrq_list = d_cfg.lattice.q_list_on_k_mesh(d_cfg.lattice.q_grid.get_irrq_list())
+    my_q_list = irrq_list[mpi_distributor.my_slice]
 
     # Build the different non-local Bubbles:
     gchi0_q_urange = bubble_gen.get_gchi0_q_list(d_cfg.box.niv_full, my_q_list)
@@ -163,7 +164,7 @@ def main():
         d_cfg.save_data(chi_lad_dens, 'chi_dens_lam')
         d_cfg.save_data(chi_lad_magn, 'chi_magn_lam')
         np.savetxt(d_cfg.output_path + '/lambda.txt', [[lambda_dens, lambda_magn]], header='dens magn', fmt='%.6f')
-        chi0q_asympt_correction = bubble_gen.get_asymptotic_correction_q(d_cfg.box.niv_full, d_cfg.lattice.q_grid.get_irrq_list())
+        chi0q_asympt_correction = bubble_gen.get_asymptotic_correction_q(d_cfg.box.niv_full, irrq_list)
         chi0q_asympt_correction = d_cfg.lattice.q_grid.map_irrk2fbz(chi0q_asympt_correction)
         chi_dens_uniform_static = chi_lad_dens[0, 0, 0, d_cfg.box.niw_core].real
         chi_dens_uniform_static += chi0q_asympt_correction[0, 0, 0, d_cfg.box.niw_core].real
@@ -211,7 +212,7 @@ def main():
         vrg_q_magn = d_cfg.lattice.q_grid.map_irrk2fbz(vrg_q_magn, shape='list')
 
     # Distribute the full fbz q-points to the different cores:
-    full_q_list = d_cfg.lattice.q_grid.get_q_list()
+    full_q_list = d_cfg.lattice.q_list_on_k_mesh(d_cfg.lattice.q_grid.get_q_list())
 
     # Create new mpi-distributor for the full fbz:
     mpi_dist_fbz = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_tot, comm=comm,
@@ -346,7 +347,8 @@ def main():
         d_cfg.logger.log_cpu_time(task=' Vertex distributed among ranks.')
         chijj_vert = optics.vec_get_chijj_vert(f_cond, giwk_dga, d_cfg.lattice.hr, d_cfg.lattice.k_grid,
                                                wn_vert=d_cfg.optics.wn_vert(), wn_cond=d_cfg.optics.wn_cond(pos=True),
-                                               q_list=my_full_q_list, der_a=d_cfg.optics.der_a, der_b=d_cfg.optics.der_b)
+                                               q_list=my_full_q_list, der_a=d_cfg.optics.der_a, der_b=d_cfg.optics.der_b,
+                                               nq_tot=d_cfg.lattice.q_grid.nk_tot)
         chijj_vert = mpi_dist_fbz.allreduce(chijj_vert)  # collect results from ranks
         chijj_vert = mf.bosonic_full_nu_range(chijj_vert)
         if comm.rank == 0:
diff --git a/src/dga/optics.py b/src/dga/optics.py
index 071eeda..68104ff 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -112,7 +112,7 @@ def vec_get_chijj_bubble(giwk_gen: twop.GreensFunction, hr: wannier.WannierHr, k
     return np.array([get_chijj_bubble(giwk, lv_a, lv_b, beta, iwn, niv_sum, freq_notation=freq_notation) for iwn in wn])
 
 
-def get_chijj_vertex(f_cond, lv_a, lv_b, giwk, beta, iwn, wpn, q_list, nk_tot):
+def get_chijj_vertex(f_cond, lv_a, lv_b, giwk, beta, iwn, wpn, q_list, nq_tot):
     '''
         Equation from Matthias Pickem's notes:
         sigma_vert(w)  = -2/beta^2 * sum_{q,k,wp,v} lv_a(k-q) lv_b(k) G(v-w,k) G(v,k) G(v-wp,k-q) G(v-wp-w,k-q)
@@ -136,15 +136,18 @@ def get_chijj_vertex(f_cond, lv_a, lv_b, giwk, beta, iwn, wpn, q_list, nk_tot):
             gg_fcond += gkpq_vmwp * gkpq_vmwpmw * f_cond[i, j, None, None, None, ...]
         sigma_vert += np.sum(np.mean(lv2_gg * gg_fcond, axis=(0, 1, 2)), axis=-1)
 
-    # replace q_list with nq; The additional minus sign stems from the different sign conventions in the vertex
-    return -2 / (beta ** 2 * nk_tot) * sigma_vert  # one n_k is contained in the mean
+    # q_list may be a part of all nq_tot points; The additional minus sign stems from the different sign conventions in the vertex
+    return -2 / (beta ** 2 * nq_tot) * sigma_vert  # one n_k is contained in the mean
 
 
 def vec_get_chijj_vert(f_cond, giwk_gen: twop.GreensFunction, hr: wannier.WannierHr, k_grid: bz.KGrid, wn_vert, wn_cond, q_list,
-                       der_a=0, der_b=0):
+                       der_a=0, der_b=0, nq_tot=None):
     '''
         f_cond -> [q,wp,w,v]
+        q_list: indices of the (k-mesh) momenta q
+        nq_tot: total number of q-points; default: same as k-points
     '''
+    if nq_tot is None: nq_tot = k_grid.nk_tot
     assert np.shape(wn_vert)[0] == np.shape(f_cond)[1], 'Number of internal bosonic frequencies in ' \
                                                         'f_cond must be equal to wn_vert'
     assert np.shape(wn_cond)[0] == np.shape(f_cond)[2], 'Number of transformed bosonic frequencies in ' \
@@ -154,7 +157,7 @@ def vec_get_chijj_vert(f_cond, giwk_gen: twop.GreensFunction, hr: wannier.Wannie
     lv_a = hr.get_light_vertex(k_grid, der=der_a)
     lv_b = hr.get_light_vertex(k_grid, der=der_b)
     beta = giwk_gen.beta
-    sigma_vert = np.array([get_chijj_vertex(f_cond[:, :, i, :], lv_a, lv_b, giwk, beta, iwn, wn_vert, q_list, k_grid.nk_tot)
+    sigma_vert = np.array([get_chijj_vertex(f_cond[:, :, i, :], lv_a, lv_b, giwk, beta, iwn, wn_vert, q_list, nq_tot)
                            for i, iwn in enumerate(wn_cond)])
     return sigma_vert
 
-- 
2.43.0


From 1898e5c9244c8b1c57ee25059a08b60c37695fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 45/60] fix: figures of continued susceptibilities used paths
 on the k-mesh

---
 src/dga/dga_max_ent.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 0ee472b..4f44bf9 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -54,6 +54,7 @@ def main(path='./', comm=None):
     # define k-path objects that might be used later:
     bz_kpath_string_list = ['Gamma-X-M2-Gamma','Gamma-Y-M2-Gamma','Gamma-X-M-Gamma','Gamma-Y-M-Gamma','Gamma-X-M-Y-Gamma']
     k_path_list = [bz.KPath(d_cfg.lattice.k_grid.nk, bz_kpath_string) for bz_kpath_string in bz_kpath_string_list]
+    q_path_list = [bz.KPath(d_cfg.lattice.q_grid.nk, bz_kpath_string) for bz_kpath_string in bz_kpath_string_list]
 
     max_ent_config = conf_file['max_ent']
     me_conf = config.MaxEntConfig(1,dmft_input['beta'],max_ent_config)
@@ -165,9 +166,9 @@ def main(path='./', comm=None):
             if(comm.rank == 0):
                 cont = d_cfg.lattice.q_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_bosonic(cont, me_controller.w, d_cfg.lattice.q_grid, 'chi_dens', cont_path)
-                for k_path in k_path_list:
-                    hlp.plot_chi_along_kpath(cont, me_controller.w, k_path,
-                                                       pdir=cont_path, name=f'chi_dens_{k_path.path}')
+                for q_path in q_path_list:
+                    hlp.plot_chi_along_kpath(cont, me_controller.w, q_path,
+                                                       pdir=cont_path, name=f'chi_dens_{q_path.path}')
             logger.log_cpu_time(task=' MaxEnt Chi-dens ')
 
     # Continuation of the q-dependent magnetic lambda-susceptbility
@@ -188,9 +189,9 @@ def main(path='./', comm=None):
             if(comm.rank == 0):
                 cont = d_cfg.lattice.q_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_bosonic(cont, me_controller.w, d_cfg.lattice.q_grid, 'chi_magn', cont_path)
-                for k_path in k_path_list:
-                    hlp.plot_chi_along_kpath(cont, me_controller.w, k_path,
-                                             pdir=cont_path, name=f'chi_dens_{k_path.path}')
+                for q_path in q_path_list:
+                    hlp.plot_chi_along_kpath(cont, me_controller.w, q_path,
+                                             pdir=cont_path, name=f'chi_dens_{q_path.path}')
             logger.log_cpu_time(task=' MaxEnt Chi-magn ')
 
     mpi_dist.delete_file()
-- 
2.43.0


From 451a3c74d38099c3e483af611093dede398973bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 46/60] fix: stored arrays with a single element were loaded
 without their axes

---
 src/dga/config.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index ea79223..f3ce966 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -126,11 +126,8 @@ class OutputConfig(ConfigBase):
         np.save(self.output_path + '/' + name + '.npy', mat, allow_pickle=True)
 
     def load_data(self, name):
-        try:
-            data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True).item()
-        except:
-            data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True)
-        return data
+        data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True)
+        return data.item() if data.ndim == 0 else data
 
     def clean_data(self, name):
         fname = self.output_path + '/' + name + '.npy'
-- 
2.43.0


From 4c81d47173b0f139e35d160e23c0f3940b2aae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 47/60] fix: floats and sections of the config were written as
 empty dictionaries to the settings files

---
 src/dga/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index f3ce966..972d725 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -84,8 +84,8 @@ class ConfigBase():
     def as_dict(self, obj=None):
         if obj is None:
             obj = self
-        if not hasattr(obj, "__dict__"):
-            return obj
+        if not hasattr(obj, "__dict__") or isinstance(obj, (dict, str, int, float)):
+            return obj  # note that also the scalars and dictionaries of a yaml file may have a __dict__
         result = {}
         for key, val in obj.__dict__.items():
             if key.startswith("_"):
-- 
2.43.0


From ea8a9d68f30c51f049f2636e66c2ccbef17f114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 48/60] fix: the maximum-entropy solver dropped one significant
 singular value

The index of the last singular value above the cutoff was used as their
number, so data with few Matsubara frequencies were continued with an
incomplete basis (a single real datum always gave the default model).
---
 src/ana_cont/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ana_cont/solvers.py b/src/ana_cont/solvers.py
index 89e4978..d64b6da 100644
--- a/src/ana_cont/solvers.py
+++ b/src/ana_cont/solvers.py
@@ -171,7 +171,7 @@ class MaxentSolverSVD(AnalyticContinuationSolver):
         # singular value decomposition of the kernel
         U, S, Vt = np.linalg.svd(self.kernel.real_matrix(), full_matrices=False)
 
-        self.n_sv = np.arange(min(self.nw, self.niw))[S > 1e-10][-1]  # number of singular values larger than 1e-10
+        self.n_sv = np.count_nonzero(S > 1e-10)  # number of singular values larger than 1e-10
 
         self.U_svd = np.array(U[:, :self.n_sv], dtype=np.float64, order='C')
         self.V_svd = np.array(Vt[:self.n_sv, :].T, dtype=np.float64, order='C')  # numpy.svd returns V.T
-- 
2.43.0


From ed530e9d694099579b857b39a42ac8240293a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 49/60] fix: the panels of the gap functions were labelled with
 the frequency of the other one

---
 src/dga/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 1d9648f..6c2e245 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -563,8 +563,8 @@ def plot_gap_function_kx_ky(mat, kx, ky, do_save=True, pdir='./', name='', cmap=
     axes = axes.flatten()
     im1 = axes[0].pcolormesh(kx, ky, mat[...,0].T.real, cmap=cmap)
     im2 = axes[1].pcolormesh(kx, ky, mat[...,1].T.real, cmap=cmap)
-    axes[0].set_title(r'$\nu_{n=0}$')
-    axes[1].set_title(r'$\nu_{n=-1}$')
+    axes[0].set_title(r'$\nu_{n=-1}$')
+    axes[1].set_title(r'$\nu_{n=0}$')
     for ax in axes:
         ax.set_xlabel(r'$k_x$')
         ax.set_ylabel(r'$k_y$')
-- 
2.43.0


From bf10b1c44bbfc93a3c30a3e0da567ca549a1ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 50/60] fix: maps of continued susceptibilities were shown with
 qx and qy exchanged

---
 src/dga/plotting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 6c2e245..46c5231 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -480,21 +480,21 @@ def plot_cont_fs_no_shift(output_path=None, name='', mat=None, v_real=None, k_gr
     gk_real = np.squeeze(mat_fs.real)
     v0 = np.argmin(np.abs(v_real))
     qdp = np.squeeze((1. / mat)[:, :, 0, v0].real)
-    im = ax[0].imshow(awk_fs, cmap='RdBu_r', extent=bz.get_extent(kgrid=k_grid), origin='lower')
+    im = ax[0].imshow(awk_fs.T, cmap='RdBu_r', extent=bz.get_extent(kgrid=k_grid), origin='lower')
     insert_colorbar(ax=ax[0], im=im)
     ax[0].set_title('$-1/pi \Im (k,\omega={})$'.format(w_plot))
     norm = MidpointNormalize(midpoint=0, vmin=gk_real.min(), vmax=gk_real.max())
-    im = ax[1].imshow(gk_real, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
+    im = ax[1].imshow(gk_real.T, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
     insert_colorbar(ax=ax[1], im=im)
     ax[1].set_title('$\Re (k,\omega={})$'.format(w_plot))
     norm = MidpointNormalize(midpoint=0, vmin=qdp.min(), vmax=qdp.max())
-    im = ax[2].imshow(qdp, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
+    im = ax[2].imshow(qdp.T, cmap='RdBu', extent=bz.get_extent(kgrid=k_grid), norm=norm, origin='lower')
     insert_colorbar(ax=ax[2], im=im)
     ax[2].set_title('QPD $(1/(\Re (k, \omega = {})$'.format(w_plot))
 
-    add_afzb(ax=ax[0], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
-    add_afzb(ax=ax[1], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
-    add_afzb(ax=ax[2], kx=k_grid.kx, ky=k_grid.kx, lw=lw)
+    add_afzb(ax=ax[0], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
+    add_afzb(ax=ax[1], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
+    add_afzb(ax=ax[2], kx=k_grid.kx, ky=k_grid.ky, lw=lw)
 
     plt.tight_layout()
     fig.suptitle(name)
-- 
2.43.0


From eb2590a2b50106f36a457cf0c2ced85964411e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 51/60] fix: the figure of the extrapolation to zero frequency
 failed for more than one kz

---
 src/dga/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index 46c5231..d597c71 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -399,9 +399,9 @@ def plot_cont_edc_maps(v_real=None, gk_cont=None, k_grid=None, output_path=None,
 def plot_siwk_extrap(siwk_re_fs=None, siwk_im_fs=None, siwk_z=None, output_path='./', name='PolyFit', k_grid: bz.KGrid = None,
                      lw=1, verbose=False, do_save=True):
     fig, ax = plt.subplots(nrows=1, ncols=3, figsize=(16, 5))
-    siwk_re_fs = np.squeeze(siwk_re_fs)
-    siwk_im_fs = np.squeeze(siwk_im_fs)
-    siwk_z = np.squeeze(siwk_z)
+    siwk_re_fs = np.reshape(siwk_re_fs, k_grid.nk)[:, :, 0]
+    siwk_im_fs = np.reshape(siwk_im_fs, k_grid.nk)[:, :, 0]
+    siwk_z = np.reshape(siwk_z, k_grid.nk)[:, :, 0]
 
     norm = MidpointNormalize(midpoint=0, vmin=siwk_re_fs.min(), vmax=siwk_re_fs.max())
     im = ax[0].pcolormesh(k_grid.kx_shift, k_grid.ky_shift, k_grid.shift_mat_by_pi(siwk_re_fs, axes=(0, 1)).T, cmap='RdBu_r',
-- 
2.43.0


From 05a23f4c41108290989bac3e0c3ea20af6f89679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 52/60] fix: extrapolations of the dga functions were stored
 and shown shifted by pi

---
 src/dga/dga_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 0e646d7..eb3e7dc 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -189,7 +189,7 @@ def chiq_checks(d_cfg: config.DgaConfig, chi_dens, chi_magn, chi_lad_dens, chi_l
 
 def default_siwk_checks(d_cfg: config.DgaConfig, sigma_dga, siw_sde_loc, siwk_dmft):
     if d_cfg.comm.rank == 0:
-        siwk_dga_shift = sigma_dga.get_siw(d_cfg.box.niv_full, pi_shift=True)
+        siwk_dga_shift = sigma_dga.get_siw(d_cfg.box.niv_full)
         siw_dga_loc = np.mean(siwk_dga_shift, axis=(0, 1, 2))
         siw_dga_loc_raw = np.mean(mf.fermionic_full_nu_range(sigma_dga.sigma), axis=(0, 1, 2))
 
@@ -225,7 +225,7 @@ def default_giwk_checks(d_cfg: config.DgaConfig, giwk_dga, sigma_dga):
             fs_points = np.stack((d_cfg.lattice.k_grid.kx[fs_ind[:, 0]], d_cfg.lattice.k_grid.ky[fs_ind[:, 1]]), axis=1)
         except IndexError:
             fs_points = None
-        plotting.plot_kx_ky(giwk_dga.g_full(pi_shift=True)[..., 0, giwk_dga.niv_full], d_cfg.lattice.k_grid.kx_shift,
+        plotting.plot_kx_ky(giwk_dga.g_full()[..., 0, giwk_dga.niv_full], d_cfg.lattice.k_grid.kx_shift,
                             d_cfg.lattice.k_grid.ky_shift,
                             pdir=d_cfg.pdir, name='Giwk_dga_kz0', scatter=fs_points)
 
@@ -244,11 +244,11 @@ def default_giwk_checks(d_cfg: config.DgaConfig, giwk_dga, sigma_dga):
 def dga_poly_fit(d_cfg: config.DgaConfig, sigma_dga, giwk_dga):
     if d_cfg.do_poly_fitting and d_cfg.comm.rank == 0:
         # Extrapolate the self-energy to the Fermi-level via polynomial fit:
-        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full, pi_shift=True), d_cfg.sys.beta,
+        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full), d_cfg.sys.beta,
                  d_cfg.lattice.k_grid, d_cfg.n_fit,
                  d_cfg.o_fit, name='Siwk_poly_cont_', output_path=d_cfg.poly_fit_dir)
 
-        poly_fit(giwk_dga.g_full(pi_shift=True), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
+        poly_fit(giwk_dga.g_full(), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
                  d_cfg.o_fit,
                  name='Giwk_dga_poly_cont_',
                  output_path=d_cfg.poly_fit_dir)
-- 
2.43.0


From 2db5441da114b40bff69d84dd618724fc76cb1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 53/60] fix: maps of the self-energy and Green function were
 shown shifted by pi

---
 src/dga/dga_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index eb3e7dc..b8a55ed 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -189,7 +189,7 @@ def chiq_checks(d_cfg: config.DgaConfig, chi_dens, chi_magn, chi_lad_dens, chi_l
 
 def default_siwk_checks(d_cfg: config.DgaConfig, sigma_dga, siw_sde_loc, siwk_dmft):
     if d_cfg.comm.rank == 0:
-        siwk_dga_shift = sigma_dga.get_siw(d_cfg.box.niv_full)
+        siwk_dga_shift = sigma_dga.get_siw(d_cfg.box.niv_full, pi_shift=True)
         siw_dga_loc = np.mean(siwk_dga_shift, axis=(0, 1, 2))
         siw_dga_loc_raw = np.mean(mf.fermionic_full_nu_range(sigma_dga.sigma), axis=(0, 1, 2))
 
@@ -225,7 +225,7 @@ def default_giwk_checks(d_cfg: config.DgaConfig, giwk_dga, sigma_dga):
             fs_points = np.stack((d_cfg.lattice.k_grid.kx[fs_ind[:, 0]], d_cfg.lattice.k_grid.ky[fs_ind[:, 1]]), axis=1)
         except IndexError:
             fs_points = None
-        plotting.plot_kx_ky(giwk_dga.g_full()[..., 0, giwk_dga.niv_full], d_cfg.lattice.k_grid.kx_shift,
+        plotting.plot_kx_ky(giwk_dga.g_full(pi_shift=True)[..., 0, giwk_dga.niv_full], d_cfg.lattice.k_grid.kx_shift,
                             d_cfg.lattice.k_grid.ky_shift,
                             pdir=d_cfg.pdir, name='Giwk_dga_kz0', scatter=fs_points)
 
-- 
2.43.0


From 5b308aba76f822486261bb2874550fa611b5feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 54/60] fix: the colour of the local spectral function was
 drawn as data

---
 src/dga/high_level_plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/high_level_plotting.py b/src/dga/high_level_plotting.py
index ed4a00a..6f0abaa 100644
--- a/src/dga/high_level_plotting.py
+++ b/src/dga/high_level_plotting.py
@@ -36,7 +36,7 @@ def plot_real_frequency_dispersion(gwk: twop.RealFrequencyGF, k_path: bz.KPath,
     colours[:, :, -1] = np.linspace(0.0, 1, 100)[None, :]
     plotting.gradient_fill(gwk.aw, gwk.w, colours, ax=ax1)
 
-    ax1.plot(gwk.aw, gwk.w, '-', 'cornflowerblue')
+    ax1.plot(gwk.aw, gwk.w, '-', color='cornflowerblue')
 
     ind = np.logical_and(gwk.w < wmax, gwk.w > wmin)
     aw_max = np.max(gwk.aw[ind])
-- 
2.43.0


From 252c6b4d756eb12dbde6b1c2fb0bb1a614b8f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:44 +0000
Subject: [PATCH 55/60] fix: the average of two physical Pade continuations was
 the mean of an empty selection

---
 src/dga/pade_aux.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dga/pade_aux.py b/src/dga/pade_aux.py
index 79a038c..94ad01d 100644
--- a/src/dga/pade_aux.py
+++ b/src/dga/pade_aux.py
@@ -558,6 +558,8 @@ def pade(zin, fin, zout):
             ind = np.argsort(d)[:int(c2v * len(d))]  # indices to 51% lowest distances
             c2[ind] = True
             mask = c1 & c2  # continuations to include
+            if not np.any(mask):
+                mask = np.ones(len(d), dtype=bool)  # no continuation is closer to the others than the rest
             fmean = np.mean(f[mask], axis=0)  # average selected continuations
         masks.append(mask)
         fmeans.append(fmean)
-- 
2.43.0


From aa57dce472657ca4f5e973d02048499ea6711cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:36 +0000
Subject: [PATCH 56/60] fix: an error while writing the real-space Hamiltonian
 was lost because the file was never closed

---
 src/dga/wannier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 72cb654..2bf0306 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -319,6 +319,7 @@ def write_hr_w2k(fname, hr, r_grid, r_weights, orbs):
     for i in range(0, n_r * n_bands ** 2):
         line = '{: 5d}{: 5d}{: 5d}{: 5d}{: 5d}{: 12.6f}{: 12.6f}'.format(*r_grid[i, :], *orbs[i, :], hr[i, 0].real, hr[i, 0].imag)
         file.write(line + '\n')
+    file.close()
 
 
 # pylint: enable=C0209
-- 
2.43.0


From 6f296315511cffb6b8ecce4f21dd147fcc15caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:36 +0000
Subject: [PATCH 57/60] fix: averages and sums of whole-numbered data were
 rounded down

---
 src/dga/brillouin_zone.py        | 2 +-
 src/dga/matsubara_frequencies.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 5916e03..348da17 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -297,7 +297,7 @@ class KGrid():
         '''Shape of mat has to be [kx,ky,kz,...]'''
         mat_reshape = np.reshape(mat, (self.nk_tot, -1))
         shp = np.shape(mat_reshape)
-        reduced = np.zeros((self.nk_irr,) + shp[1:], dtype=mat_reshape.dtype)
+        reduced = np.zeros((self.nk_irr,) + shp[1:], dtype=np.result_type(mat_reshape, float))
         for i in range(self.nk_irr):
             reduced[i, ...] = np.mean(mat_reshape[self.irrk_inv.flatten() == i, ...], axis=0)
         return self.map_irrk2fbz(mat=reduced).reshape(np.shape(mat))
diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index 3b089a8..e0cc1c2 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -347,7 +347,7 @@ def vn_centered_sum_wn(mat, beta, iwn=0, niv_sum=-1):
 
 def vn_centered_sum(mat, w_n, beta, niv_sum=-1):
     '''Assumes [...,w,v,v'] '''
-    result = np.zeros((mat.shape[:-2]), dtype=mat.dtype)
+    result = np.zeros((mat.shape[:-2]), dtype=np.result_type(mat, float))
     for i, iwn in enumerate(w_n):
         result[..., i] = vn_centered_sum_wn(mat[..., i, :, :], beta, iwn=iwn, niv_sum=niv_sum)
     return result
-- 
2.43.0


From a4c2f9b288f999bdc6ba398d1be214d6b2754a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:36 +0000
Subject: [PATCH 58/60] fix: bosonic sums and orthogonalizations of data of
 different number types failed

---
 src/dga/eliashberg_equation.py   | 2 +-
 src/dga/matsubara_frequencies.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dga/eliashberg_equation.py b/src/dga/eliashberg_equation.py
index 876f3ee..9b0ea48 100644
--- a/src/dga/eliashberg_equation.py
+++ b/src/dga/eliashberg_equation.py
@@ -87,7 +87,7 @@ class EliashberPowerIteration():
 def gram_schmidt(v=None, basis=None):
     v_new = np.copy(v)
     for ui in basis:
-        v_new -= proj(v=v, u=ui)
+        v_new = v_new - proj(v=v, u=ui)
     return v_new
 
 
diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index e0cc1c2..35348e3 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -237,12 +237,12 @@ def add_bosonic(mat1, mat2, axis=0):
     niw_1 = niw_from_mat(mat1, axis=axis)
     niw_2 = niw_from_mat(mat2, axis=axis)
     if niw_2 <= niw_1:
-        result = np.copy(mat1)
+        result = np.array(mat1, dtype=np.result_type(mat1, mat2))
         nl, nu = niw_1 - niw_2, niw_1 + niw_2 + 1
         np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat2, axis, 0)
         return result
     else:
-        result = np.copy(mat2)
+        result = np.array(mat2, dtype=np.result_type(mat1, mat2))
         nl, nu = niw_2 - niw_1, niw_2 + niw_1 + 1
         np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat1, axis, 0)
         return result
-- 
2.43.0


From feeab4d256ae8c59a62cd17267d9184f40b82fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:23 +0000
Subject: [PATCH 59/60] fix: figures of the vertex failed for temperatures
 above one

---
 src/dga/plotting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dga/plotting.py b/src/dga/plotting.py
index d597c71..3ea3c71 100644
--- a/src/dga/plotting.py
+++ b/src/dga/plotting.py
@@ -72,13 +72,13 @@ def default_gchi_plots(gchi_dens, gchi_magn, output_dir):
 
 def default_gamma_plots(gamma_dens, gamma_magn, output_dir, box_sizes, beta):
     ''' Default plots for Gamma. '''
-    niv_core = box_sizes.niv_core
-    gamma_dens.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
-    gamma_magn.plot(0, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
+    niv = min(box_sizes.niv_core, max(2 * int(beta), 1))  # at least one frequency, also for beta < 1
+    gamma_dens.plot(0, pdir=output_dir, niv=niv, name='Gamma_dens')
+    gamma_magn.plot(0, pdir=output_dir, niv=niv, name='Gamma_magn')
     iwn = min(10, np.max(gamma_magn.wn))  # the box may contain fewer than ten bosonic frequencies
-    gamma_magn.plot(iwn, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_magn.plot(-iwn, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_magn')
-    gamma_dens.plot(iwn, pdir=output_dir, niv=min(niv_core, 2 * int(beta)), name='Gamma_dens')
+    gamma_magn.plot(iwn, pdir=output_dir, niv=niv, name='Gamma_magn')
+    gamma_magn.plot(-iwn, pdir=output_dir, niv=niv, name='Gamma_magn')
+    gamma_dens.plot(iwn, pdir=output_dir, niv=niv, name='Gamma_dens')
 
 
 def plot_along_ind(mat, indizes, step_size=1, figsize=ps.FIGSIZE, cmap='rainbow', verbose=False, pdir='./', do_save=True
-- 
2.43.0


From 7b2b665795db93911723fdf133b4c167a8ff6ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:33 +0000
Subject: [PATCH 60/60] fix: the symmetrized vertex was not written next to
 inputs with dots in their path

---
 src/dga/symmetrize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index 62cabff..eac12d8 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -5,6 +5,7 @@
 '''
 import h5py
 import numpy as np
+import os
 import sys
 from shutil import copyfile
 
@@ -323,7 +324,7 @@ if __name__ == '__main__':
         input_file = "g4iw.hdf5"
         if len(sys.argv) >= 3:
             input_file = sys.argv[2]
-        output_file = input_file.split(".")[0] + "_sym.hdf5"
+        output_file = os.path.splitext(input_file)[0] + "_sym.hdf5"
         conf={'nineq': 1, 'target': '3freq', 'sym_type': 'o', 'outfile': output_file, 'Nbands': [1,1], 'infile': input_file, 'sym': [[[1]]], 'worm_group': worm}
     main(conf)
   except KeyboardInterrupt:
-- 
2.43.0

