From b94ee43e93b7eddf5ee73fd83fd4727a22167913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 01/42] fix: add_bosonic adds along the requested axis

---
 src/dga/matsubara_frequencies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index c541b65..f3589cb 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -239,12 +239,12 @@ def add_bosonic(mat1, mat2, axis=0):
     if niw_2 <= niw_1:
         result = np.copy(mat1)
         nl, nu = niw_1 - niw_2, niw_1 + niw_2 + 1
-        result[nl:nu] += mat2
+        np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat2, axis, 0)
         return result
     else:
         result = np.copy(mat2)
         nl, nu = niw_2 - niw_1, niw_2 + niw_1 + 1
-        result[nl:nu] += mat1
+        np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat1, axis, 0)
         return result
 
 
-- 
2.43.0


From d38e2d30d6c2a9f1e04f95983c7b39a7ff0e02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 02/42] fix: ph2pp_wc does not read outside the fermionic box
 when niw > niv

---
 src/dga/matsubara_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index f3589cb..727ef6a 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -419,7 +419,7 @@ def ph2pp_wc(mat_ph):
         Transform from (iw,v,vp, ss') to (v-v',v,w-v', bar(ss')) notation
     '''
     assert len(np.shape(mat_ph)) >= 3, 'Input does not have more than or equal three dimensions as required.'
-    niw_pp = mat_ph.shape[-3] // 4
+    niw_pp = min(mat_ph.shape[-3] // 4, mat_ph.shape[-1] // 4)  # w - v' has to stay inside the fermionic box
     w = wn(niw_pp)
     return np.array([ph2pp_iwn_wc(mat_ph=mat_ph, iwn_pp=iwn) for iwn in w])
 
-- 
2.43.0


From 045007febf76a0ee463a1e5a739d92e7d32b6741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 03/42] fix: do not use the w -> -w symmetry of the bubble for
 the center notation

---
 src/dga/bubble.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index 97482d6..c1ecf60 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -23,8 +23,16 @@ def get_gchi0(giw, beta, niv, iwn, freq_notation='minus'):
     return - beta * giw[niv_giw - niv + iws:niv_giw + niv + iws] * giw[niv_giw - niv + iws2:niv_giw + niv + iws2]
 
 
+def use_wn_symmetry(freq_notation, is_full_wn):
+    '''
+        gchi_0[-w,v] = gchi_0[w,-v]^* holds if the frequency shifts are odd in w. This is not the case for odd w in the
+        center notation.
+    '''
+    return is_full_wn and freq_notation != 'center'
+
+
 def vec_get_gchi0(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
-    if is_full_wn:
+    if use_wn_symmetry(freq_notation, is_full_wn):
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         gchi0 = np.array([get_gchi0(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
         return mf.bosonic_full_nu_range(gchi0, axis=0, freq_axes=(0, 1))
@@ -45,6 +53,7 @@ def get_gchi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_gchi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = use_wn_symmetry(freq_notation, is_full_wn)
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     gchi0_q = np.zeros((len(q_list), len(wn_bub), niv * 2), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -65,6 +74,7 @@ def get_chi0_q(giwk, beta, niv, iwn, q, freq_notation='minus'):
 
 
 def vec_get_chi0_q(giwk, beta, niv, wn, q_list, freq_notation='minus', is_full_wn=False):
+    is_full_wn = use_wn_symmetry(freq_notation, is_full_wn)
     wn_bub = mf.wn(mf.niw_from_mat(wn), pos=True) if is_full_wn else wn
     chi0_q = np.zeros((len(q_list), len(wn_bub)), dtype=complex)
     giwk = mf.cut_v(giwk, niv_cut=niv + np.max(np.abs(wn_bub)), axes=(-1,))
@@ -80,7 +90,7 @@ def get_chi0_sum(giw, beta, niv, iwn=0, freq_notation='minus'):
 
 
 def vec_get_chi0_sum(giw, beta, niv, wn, freq_notation='minus', is_full_wn=False):
-    if is_full_wn:
+    if use_wn_symmetry(freq_notation, is_full_wn):
         wn_pos = mf.wn(mf.niw_from_mat(wn), pos=True)
         chi0 = np.array([get_chi0_sum(giw, beta, niv, iwn=iwn, freq_notation=freq_notation) for iwn in wn_pos])
         return mf.bosonic_full_nu_range(chi0)
-- 
2.43.0


From e1ab06ab0549abef8dbf8259886927f807cbd10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 04/42] fix: symmetrize_irrk averages over the momenta of each
 irreducible point

---
 src/dga/brillouin_zone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index d6024a1..3d2f7ab 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -296,11 +296,11 @@ class KGrid():
 
     def symmetrize_irrk(self, mat):
         '''Shape of mat has to be [kx,ky,kz,...]'''
-        mat_reshape = np.reshape(mat, (self.nk_tot, -1))
+        mat_reshape = self.map_fbz_mesh2list(mat)
         shp = np.shape(mat_reshape)
         reduced = np.zeros((self.nk_irr,) + shp[1:], dtype=mat_reshape.dtype)
         for i in range(self.nk_irr):
-            reduced[i, ...] = np.mean(mat_reshape[self.fbz2irrk == self.irrk_ind[i], ...], axis=0)
+            reduced[i, ...] = np.mean(mat_reshape[self.irrk_inv == i, ...], axis=0)
         return self.map_irrk2fbz(mat=reduced)
 
     def shift_mat_by_pi(self, mat, axes=(0, 1, 2)):
-- 
2.43.0


From 7b4054923f1b8af462a6c69c220425fd8488a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 05/42] fix: k-path momenta use the grid of their own axis

---
 src/dga/brillouin_zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 3d2f7ab..7e3c2c1 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -378,7 +378,7 @@ class KPath():
         self.k_points = self.get_kpoints()
 
     def get_kpath_val(self):
-        k = [self.kx[self.kpts[:, 0]], self.kx[self.kpts[:, 1]], self.kx[self.kpts[:, 2]]]
+        k = [self.kx[self.kpts[:, 0]], self.ky[self.kpts[:, 1]], self.kz[self.kpts[:, 2]]]
         return k
 
     def set_kgrid(self, k_in, nk):
-- 
2.43.0


From 9abf4e85b7c3e5e59044713672e4776529b1d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 06/42] fix: MPI collectives send C-contiguous buffers (Fortran
 ordered arrays were permuted)

---
 src/dga/mpi_aux.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dga/mpi_aux.py b/src/dga/mpi_aux.py
index a7978ff..238d2ed 100644
--- a/src/dga/mpi_aux.py
+++ b/src/dga/mpi_aux.py
@@ -124,7 +124,7 @@ class MpiDistributor():
 
         # The sizes argument needs the total number of elements rather than
         # just the first axis. The type argument is inferred.
-        self.comm.Allgatherv(rank_result, [tot_result, self.sizes * other_dims])
+        self.comm.Allgatherv(np.ascontiguousarray(rank_result), [tot_result, self.sizes * other_dims])
         return tot_result
 
     def gather(self, rank_result=None, root=0):
@@ -132,7 +132,7 @@ class MpiDistributor():
         tot_shape = (self.ntasks,) + rank_result.shape[1:]
         tot_result = np.empty(tot_shape, rank_result.dtype)
         other_dims = np.prod(rank_result.shape[1:])
-        self.comm.Gatherv(rank_result, [tot_result, self.sizes * other_dims], root=root)
+        self.comm.Gatherv(np.ascontiguousarray(rank_result), [tot_result, self.sizes * other_dims], root=root)
         return tot_result
 
     def scatter(self, full_data=None, root=0):
@@ -141,6 +141,7 @@ class MpiDistributor():
             assert isinstance(full_data,np.ndarray), 'full_data must be a numpy array'
             rest_shape = np.shape(full_data)[1:]
             data_type = full_data.dtype
+            full_data = np.ascontiguousarray(full_data)
         else:
             rest_shape = None
             data_type = None
@@ -159,7 +160,7 @@ class MpiDistributor():
 
     def allreduce(self, rank_result=None):
         tot_result = np.zeros(np.shape(rank_result), dtype=rank_result.dtype)
-        self.comm.Allreduce(rank_result, tot_result)
+        self.comm.Allreduce(np.ascontiguousarray(rank_result), tot_result)
         return tot_result
 
 
-- 
2.43.0


From 149a25faeefc3fcd2e89afa02eb5fc02c2432d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 07/42] fix: get_vrg_and_chir_tilde_from_chir_uasympt passed
 the interaction as summation axis

---
 src/dga/local_four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/local_four_point.py b/src/dga/local_four_point.py
index 8e47124..c7077ea 100644
--- a/src/dga/local_four_point.py
+++ b/src/dga/local_four_point.py
@@ -451,7 +451,7 @@ def get_vrg_and_chir_tilde_from_chir_uasympt(chir: LocalFourPoint, gchi0_gen: bu
     chi_asympt = chi_phys_asympt(chi_urange, chi0_urange, chi0_asympt)
 
     # Compute the fermion-boson vertex:
-    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt, u)
+    vrg = vrg_from_gchi_aux_asympt(gchi_aux, gchi0_core, chi_urange, chi_asympt)
 
     return vrg, chi_asympt
 
-- 
2.43.0


From 9d244929cc61fac6f7a76e21bd1d6a5b081c6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 08/42] fix: get_vrg_and_chir_lad_from_gammar_uasympt_q passed
 an array where get_kernel_dc needs the vertex object

---
 src/dga/four_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 5704a1a..34d56fa 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -251,7 +251,7 @@ def get_vrg_and_chir_lad_from_gammar_uasympt_q(gamma_dens: lfp.LocalFourPoint, g
         if logger.is_root:
             f_dc.plot(pdir=logger.out_dir + '/', name='F_dc')
 
-    kernel_dc = mf.cut_v(get_kernel_dc(f_dc.mat, gchi0_q_urange), niv_core, axes=(-1,))
+    kernel_dc = mf.cut_v(get_kernel_dc(f_dc, gchi0_q_urange), niv_core, axes=(-1,))
     if logger is not None: logger.log_cpu_time(task=' DC kernel constructed. ')
 
     # Density channel:
-- 
2.43.0


From 0b9aa1d4b16ebf04569269422581a03d0dcb7aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 09/42] fix: shell part of schwinger_dyson_channel_q weights
 irreducible momenta like the core part

---
 src/dga/four_point.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 34d56fa..0103518 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -35,12 +35,13 @@ def schwinger_dyson_vrg_q(vrg, chir_phys, giwk, beta, u, channel, q_list, q_poin
     return 1 / nqtot * u_r / 2 * 1 / beta * sigma_f
 
 
-def schwinger_dyson_q_shell(chir_phys, giwk, beta, u, n_shell, n_core, wn, q_list, nqtot):
+def schwinger_dyson_q_shell(chir_phys, giwk, beta, u, n_shell, n_core, wn, q_list, nqtot, q_point_duplicity=None):
     sigma_f = np.zeros([*np.shape(giwk)[:3], 2 * n_shell], dtype=complex)
+    if q_point_duplicity is None: q_point_duplicity = np.ones(len(q_list))
     for i, q in enumerate(q_list):
         gkpq = bz.shift_mat_by_ind(giwk, ind=[-iq for iq in q])
         mat_grid = mf.wn_slices_shell(gkpq, n_shell, n_core, w=wn)
-        sigma_f += 1 / nqtot * u ** 2 / 2 * 1 / beta * np.sum(chir_phys[i, :, None, None, None, None] * mat_grid, axis=0)
+        sigma_f += q_point_duplicity[i] / nqtot * u ** 2 / 2 * 1 / beta * np.sum(chir_phys[i, :, None, None, None, None] * mat_grid, axis=0)
     return sigma_f
 
 
@@ -50,7 +51,7 @@ def schwinger_dyson_channel_q(vrg, chir_phys, channel, giwk, beta, u, q_list, q_
         return siwk_core
     else:
         niv_core = np.shape(vrg)[-1] // 2
-        siwk_shell = schwinger_dyson_q_shell(chir_phys, giwk, beta, u, niv_shell, niv_core, wn, q_list, nqtot)
+        siwk_shell = schwinger_dyson_q_shell(chir_phys, giwk, beta, u, niv_shell, niv_core, wn, q_list, nqtot, q_point_duplicity)
         return mf.concatenate_core_asmypt(siwk_core, siwk_shell)
 
 
-- 
2.43.0


From e86fffbb36a5e1b617ed56d5de27498adcc04cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 10/42] fix: core of a self-energy is limited to the stored
 frequencies (short data gave truncated boxes and misplaced tails)

---
 src/dga/two_point.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 38ce0b9..299b70e 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -120,6 +120,7 @@ class SelfEnergy():
             self.niv_core = self.estimate_niv_core()
         else:
             self.niv_core = niv_core
+        self.niv_core = min(self.niv_core, self.niv)  # the core cannot exceed the stored data
 
     @property
     def niv(self):
-- 
2.43.0


From 93c3dd8cdd12a6ffe7b2bd0c1011ef8cc75afef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 11/42] fix: estimate_niv_core keeps all data when the
 asymptotic is never reached

---
 src/dga/two_point.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 299b70e..336dd09 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -140,8 +140,11 @@ class SelfEnergy():
     def estimate_niv_core(self):
         '''check when the real and the imaginary part are within error margin of the asymptotic'''
         asympt = self.get_asympt(niv_asympt=self.niv, n_min=0)
-        ind_real = np.argmax(np.abs(self.k_mean().real - asympt.real) < self.err)
-        ind_imag = np.argmax(np.abs(self.k_mean().imag - asympt.imag) < self.err)
+        ok_real = np.abs(self.k_mean().real - asympt.real) < self.err
+        ok_imag = np.abs(self.k_mean().imag - asympt.imag) < self.err
+        # argmax of all False is 0: if the asymptotic is never reached all data belong to the core
+        ind_real = np.argmax(ok_real) if np.any(ok_real) else self.niv
+        ind_imag = np.argmax(ok_imag) if np.any(ok_imag) else self.niv
         niv_core = max(ind_real, ind_imag)
         if niv_core < self.niv_core_min:
             return self.niv_core_min
-- 
2.43.0


From 9b6c36487bfd6bb978919249a85bcb228e11bd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 12/42] fix: mirror the frequency axis when building an even or
 odd starting gap

---
 src/dga/eliashberg_equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/eliashberg_equation.py b/src/dga/eliashberg_equation.py
index 5375fc4..dd8a6c1 100644
--- a/src/dga/eliashberg_equation.py
+++ b/src/dga/eliashberg_equation.py
@@ -131,9 +131,9 @@ def get_gap_start(shape=None, k_type=None, v_type=None, k_grid=None):
         gap0 = np.random.random_sample(shape)
 
     if v_type == 'even':
-        gap0[..., :niv] = gap0[..., niv:]
+        gap0[..., :niv] = np.flip(gap0[..., niv:], axis=-1)
     elif v_type == 'odd':
-        gap0[..., :niv] = -gap0[..., niv:]
+        gap0[..., :niv] = -np.flip(gap0[..., niv:], axis=-1)
     else:
         gap0 = np.random.random_sample(shape)
 
-- 
2.43.0


From 314b6d77e5be10d235aa044e6ff82d8575438a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 13/42] fix: keep the sign of the bosonic frequency when
 reading vertices from rank files

---
 src/dga/four_point.py | 4 ++--
 src/dga/optics.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 0103518..586af42 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -327,8 +327,8 @@ def load_vertex_from_rank_files(output_path, name, mpi_size, nq, niw, niv):
             keys = (key for key in file_in.keys() if key.startswith('fq_'))  # the group is still hard-coded!
             for key1 in keys:
                 # extract the q indizes from the group name!
-                irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw
+                irrq = np.array(re.findall(r'-?\d+', key1), dtype=int)[0]
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
diff --git a/src/dga/optics.py b/src/dga/optics.py
index 425876f..f3db645 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -253,8 +253,8 @@ def load_optics_vertex_from_rank_files(output_path, name, mpi_size, nq, optics_c
             keys = (key for key in file_in.keys() if key.startswith('f_'))  # the group is still hard-coded!
             for key1 in keys:
                 # extract the q indizes from the group name!
-                irrq = np.array(re.findall(r'\d+', key1), dtype=int)[0]
-                iwn = np.array(re.findall(r'\d+', key1), dtype=int)[1] + niw_vert
+                irrq = np.array(re.findall(r'-?\d+', key1), dtype=int)[0]
+                iwn = np.array(re.findall(r'-?\d+', key1), dtype=int)[1] + niw_vert
                 f1_magn[irrq, iwn, ...] = file_in.file[key1 + '/f1_magn/'][()]
                 f2_dens[irrq, iwn, ...] = file_in.file[key1 + '/f2_dens/'][()]
                 f1_dens[irrq, iwn, ...] = file_in.file[key1 + '/f1_dens/'][()]
-- 
2.43.0


From 8e4534552cbe961fb7955df57c391acd1e5627fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 14/42] fix: label the orbitals of every lattice vector in
 create_orbs

---
 src/dga/wannier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/wannier.py b/src/dga/wannier.py
index 49b7a48..7fb4038 100644
--- a/src/dga/wannier.py
+++ b/src/dga/wannier.py
@@ -70,7 +70,7 @@ def create_orbs(n_rp, n_orbs):
     orbs = np.zeros((n_rp, n_orbs, n_orbs, 2))
     for io1 in range(n_orbs):
         for io2 in range(n_orbs):
-            orbs[io1, io2, :] = np.array([io1 + 1, io2 + 1])
+            orbs[:, io1, io2, :] = np.array([io1 + 1, io2 + 1])
     return orbs
 
 
-- 
2.43.0


From 9cdf83e9fe24c3958f79cf695f5af49d7b85a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 15/42] fix: write the DMFT potential energy to energies.txt

---
 src/dga/dga_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index 81b5971..b373e96 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -274,7 +274,7 @@ def main():
         e_kin_dga = giwk_dga.e_kin
         e_kin_dmft = giwk_dmft.e_kin
         e_pot_dga = giwk_dga.e_pot
-        e_pot_dmft = giwk_dga.e_pot
+        e_pot_dmft = giwk_dmft.e_pot
         np.savetxt(d_cfg.output_path + '/energies.txt', [[e_kin_dga, e_kin_dmft, e_pot_dga, e_pot_dmft]],
                    header='kin-dga kin-dmft pot-dga pot-dmft', fmt='%.6f')
 
-- 
2.43.0


From 43ef621a1f242a1112a641a4d841a0ce4b189f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 16/42] fix: infer niv_asympt only once the core box sizes are
 known

---
 src/dga/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 5179e25..b51cf9d 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -168,7 +168,8 @@ class BoxSizes(ConfigBase):
         if (config_dict is not None):
             self.update_dict(**config_dict)  # forwards parameters from config
 
-        if (self.niv_asympt == -1):
+        # the core sizes may only become known in set_from_lfp
+        if (self.niv_asympt == -1 and self.niv_core != -1 and self.niw_core != -1):
             self.niv_asympt = self.niv_full + self.niw_core * 2
 
     @property
-- 
2.43.0


From 1019084dbcad99f30ba18b962a3b18564a8f58cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 17/42] fix: reject unknown symmetries given as a tuple

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index b51cf9d..2f81356 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -257,7 +257,7 @@ class LatticeConfig(ConfigBase):
         elif (isinstance(self.symmetries, tuple)):
             for sym in self.symmetries:
                 if (sym not in bz.KNOWN_SYMMETRIES):
-                    NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
+                    raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
         else:
             raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
 
-- 
2.43.0


From fbf3af5b0d853f9129b809b119dddfd9cceadb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 18/42] fix: keep the inferred niw_cond below the number of
 fermionic core frequencies

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 2f81356..926a104 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -463,7 +463,7 @@ class OpticsConfig(OutputConfig):
                                                         'or equal to the number of frequencies available.'
 
         if (self.niw_cond == -1):
-            self.niw_cond = d_cfg.box.niw_core // 2
+            self.niw_cond = min(d_cfg.box.niw_core // 2, d_cfg.box.niv_core - 1)
         else:
             assert self.niw_cond < d_cfg.box.niv_core, 'Number of bosonic frequencies for the optical conductivity must be ' \
                                                        'smaller than the number of fermionic frequencies available.'
-- 
2.43.0


From ba80d6b3c26d2ccd5fd21fbbcb2912965e833088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 19/42] fix: load arrays with a single element as arrays

---
 src/dga/config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 926a104..3fa05dd 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -137,10 +137,9 @@ class OutputConfig(ConfigBase):
         np.save(self.output_path + '/' + name + '.npy', mat, allow_pickle=True)
 
     def load_data(self, name):
-        try:
-            data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True).item()
-        except:
-            data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True)
+        data = np.load(self.output_path + '/' + name + '.npy', allow_pickle=True)
+        if data.ndim == 0:  # dictionaries and scalars
+            data = data.item()
         return data
 
     def clean_data(self, name):
-- 
2.43.0


From 1abebd1ff15ae5ae17d5ecbd3d3549e94d3b8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 20/42] fix: all ranks use the output path chosen by rank 0

---
 src/dga/dga_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 77b1f8f..080f64b 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -21,7 +21,11 @@ KNOWNINPUTTYPES = ['EDFermion', 'w2dyn']
 
 def set_output_path(base_name, comm=None):
     ''' comm is for mpi applications '''
-    output_path = util.uniquify(base_name)
+    if comm is not None:
+        output_path = util.uniquify(base_name) if comm.rank == 0 else None
+        output_path = comm.bcast(output_path, root=0)
+    else:
+        output_path = util.uniquify(base_name)
 
     if not os.path.exists(output_path):
         if comm is not None:
-- 
2.43.0


From 983bcd747e41f1f207cd0967c7037fcc70a4e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 21/42] fix: normalize the bosonic default model to the static
 susceptibility

---
 src/dga/analytic_continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 676f088..3f03cfd 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -318,7 +318,7 @@ class MaxEnt():
     def cont_single_ind(self, mat):
         mat_plus = self.cut_matrix(mat)
         im_axis = self.get_im_freq()
-        model = self.get_model(mat)
+        model = self.get_model(mat_plus)
         error_s = np.ones_like(im_axis,dtype=float) * self.err
 
         problem = cont.AnalyticContinuationProblem(im_axis=im_axis, re_axis=self.w, im_data=mat_plus,
-- 
2.43.0


From 3d474f8485f6fb53dfcb8b43802fb6b7114bb23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 22/42] fix: default kernel kind of get_backtransform_kernel

---
 src/dga/analytic_continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index 3f03cfd..fc1e6bb 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -128,7 +128,7 @@ def get_w_mesh(mesh_type, wmin, wmax, nwr, cut=None):
 KNOWN_BACKTRANSFORM_KERNELS = ['freq_fermionic', 'freq_bosonic']
 
 
-def get_backtransform_kernel(re_axis, im_axis, kind='freq-fermionic'):
+def get_backtransform_kernel(re_axis, im_axis, kind='freq_fermionic'):
     ''' Compute the kernel matrix for backtransformation.
         Adjusted from the ana_cont package.
     '''
-- 
2.43.0


From 5a3cadd5bfd7da8eaa60c521a533306e59bdf006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 23/42] fix: failed continuations have the data type of
 successful ones

---
 src/dga/analytic_continuation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index fc1e6bb..d49b86d 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -345,7 +345,8 @@ class MaxEnt():
                 cont_list.append(self.cont_single_ind(mat))
             except:
                 print('Error in analytic continuation. Setting result to 0.')
-                cont_list.append(np.zeros_like(self.w))  # make sure the code does not hang up when ana_cont fails for one index
+                dtype = complex if self.kernel_mode == 'freq_fermionic' else float
+                cont_list.append(np.zeros_like(self.w, dtype=dtype))  # make sure the code does not hang up when ana_cont fails for one index
         return np.array(cont_list)
 
 
-- 
2.43.0


From 75039d6bbb231e604284fe3615cd8c9d9435aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 24/42] fix: max_ent never uses more frequencies than available

---
 src/dga/analytic_continuation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dga/analytic_continuation.py b/src/dga/analytic_continuation.py
index d49b86d..ac1b951 100644
--- a/src/dga/analytic_continuation.py
+++ b/src/dga/analytic_continuation.py
@@ -407,6 +407,7 @@ def max_ent_loc(mat, me_conf: config.MaxEntConfig, bw):
 def max_ent(mat=None, v_real=None, beta=None, n_fit=60, alpha_det_method='historic', err=2e-6, use_preblur=False, bw=None,
             optimizer='newton', return_chi2=False):
     niv_mat = np.size(mat) // 2
+    n_fit = min(n_fit, niv_mat)
     mat_plus = mat[niv_mat:niv_mat + n_fit]
     iv_plus = 1j * mf.vn(beta, n_fit, pos=True)
     problem = cont.AnalyticContinuationProblem(im_axis=iv_plus.imag, re_axis=v_real, im_data=mat_plus,
-- 
2.43.0


From 4895ea8530d00ea89e658ae42c3be6ceaecfe54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 25/42] fix: build the real-frequency mesh from the configured
 parameters

---
 src/dga/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dga/config.py b/src/dga/config.py
index 3fa05dd..bb41bd1 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -345,6 +345,7 @@ class MaxEntConfig(OutputConfig):
         # Flags what continuation to perform:
         self.bw_range_loc = np.array([0.001, 0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.35, 0.5, 0.75, 1])
         self.update_dict(**config_dict)
+        self.mesh_type = config_dict.get('mesh_type', self.mesh_type)  # rebuild the mesh with the final parameters
 
     @property
     def mesh_type(self):
-- 
2.43.0


From 099a9b9d31cfdd9e46947857c9848347feab6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 26/42] fix: read and write the Green's function under its
 w2dynamics name

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index 00ea7ed..e33226d 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -273,15 +273,15 @@ def main(conf):
     copyfile(conf['infile'],conf['outfile'])
     f2=h5py.File(conf['outfile'],'r+')
     for ineq in range(conf['nineq']):
-      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      del f2['dmft-last/ineq-{:03}/giwk_obj'.format(ineq+1)]
-      f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
+      f2['dmft-last/ineq-{:03}/giw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      del f2['dmft-last/ineq-{:03}/giw'.format(ineq+1)]
+      f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       f2['dmft-last/ineq-{:03}/siw_unsymmetrized'.format(ineq+1)] = f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       del f2['dmft-last/ineq-{:03}/siw'.format(ineq+1)]
       f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)] = np.zeros_like(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)], dtype=np.complex128)
       for band in range(conf['Nbands'][ineq]):
         for symband in conf['sym'][ineq][band]:
-          f2['dmft-last/ineq-{:03}/giwk_obj/value'.format(ineq+1)][band,:,:] += \
+          f2['dmft-last/ineq-{:03}/giw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/giw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
           f2['dmft-last/ineq-{:03}/siw/value'.format(ineq+1)][band,:,:] += \
             np.mean(f2['dmft-last/ineq-{:03}/siw_unsymmetrized/value'.format(ineq+1)][symband-1,:,:]/float(len(conf['sym'][ineq][band])), axis=0)
-- 
2.43.0


From b3d420572602a99e02cf83e7b8539e65240b5b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 27/42] Revert the broadcast in dga_io.set_output_path

dga_max_ent also calls it from the root rank alone, where a collective
call would not be matched by the other ranks.
---
 src/dga/dga_io.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 080f64b..77b1f8f 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -21,11 +21,7 @@ KNOWNINPUTTYPES = ['EDFermion', 'w2dyn']
 
 def set_output_path(base_name, comm=None):
     ''' comm is for mpi applications '''
-    if comm is not None:
-        output_path = util.uniquify(base_name) if comm.rank == 0 else None
-        output_path = comm.bcast(output_path, root=0)
-    else:
-        output_path = util.uniquify(base_name)
+    output_path = util.uniquify(base_name)
 
     if not os.path.exists(output_path):
         if comm is not None:
-- 
2.43.0


From ef1694eb9e2b8d31f3b7788e060687b3bb5d4b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 28/42] fix: BoxSizes.vn_full passed its argument by keyword to
 a multimethod

---
 src/dga/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index bb41bd1..7e38619 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -177,7 +177,7 @@ class BoxSizes(ConfigBase):
 
     @property
     def vn_full(self):
-        return mf.vn(n=self.niv_full)
+        return mf.vn(self.niv_full)
 
     @property
     def niv_pp(self):
-- 
2.43.0


From 1e421becad462908ace252e402811ebe93e4afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:25 +0000
Subject: [PATCH 29/42] fix: root_fun_primitive indexed the scalar filling, so
 update_mu_primitive always failed

---
 src/dga/two_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index 336dd09..dd4fde4 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -232,7 +232,7 @@ def get_fill_primitive(g_loc, beta, verbose=False):
 def root_fun_primitive(mu=0.0, target_filling=1.0, iv=None, hk=None, siwk=None, beta=1.0, verbose=False):
     """Auxiliary function for the root finding"""
     g_loc = get_gloc(iv=iv, hk=hk, siwk=siwk, mu_trial=mu)
-    return get_fill_primitive(g_loc, beta, verbose)[0] - target_filling
+    return get_fill_primitive(g_loc, beta, verbose) - target_filling
 
 
 def update_mu_primitive(mu0=0.0, target_filling=None, iv=None, hk=None, siwk=None, beta=None, smom0=None, tol=1e-6,
-- 
2.43.0


From 553c9524974c4e097c7a6e53ddf3d029625e5ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:39 +0000
Subject: [PATCH 30/42] fix: update_mu_primitive(verbose=True) printed the root
 function of update_mu without its model level

---
 src/dga/two_point.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dga/two_point.py b/src/dga/two_point.py
index dd4fde4..47b5bec 100644
--- a/src/dga/two_point.py
+++ b/src/dga/two_point.py
@@ -242,9 +242,7 @@ def update_mu_primitive(mu0=0.0, target_filling=None, iv=None, hk=None, siwk=Non
     '''
     if verbose: print('Update mu...')
     mu = mu0
-    hloc = None
-    if verbose: print(
-        root_fun(mu=mu, target_filling=target_filling, iv=iv, hk=hk, siwk=siwk, beta=beta, smom0=smom0, hloc=hloc))
+    if verbose: print(root_fun_primitive(mu=mu, target_filling=target_filling, iv=iv, hk=hk, siwk=siwk, beta=beta))
     try:
         mu = opt.newton(root_fun_primitive, mu, tol=tol,
                         args=(target_filling, iv, hk, siwk, beta, verbose))
-- 
2.43.0


From 4251eca59a3c3ee1bb30e3332d9672dd167d667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:31 +0000
Subject: [PATCH 31/42] fix: LatticeConfig rejected a list of symmetries, as a
 config file gives it

---
 src/dga/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index 7e38619..c00bada 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -216,7 +216,7 @@ class LatticeConfig(ConfigBase):
     def __init__(self, config_dict):
         self.nk: Tuple[int, int, int] = (16, 16, 1)  # (nkx,nky,nkz) tuple of linear momenta. Used for fermionic quantities
         self.nq: Tuple[int, int, int] = (16, 16, 1)  # (nkx,nky,nkz) tuple of linear momenta. Used for bosonic quantities
-        self.symmetries = []  # Lattice symmetries. Either string or tuple of strings
+        self.symmetries = []  # Lattice symmetries. Either string or list/tuple of strings
         self.hr_input = None  # Tight binding parameter.
         self.type = None
 
@@ -253,7 +253,7 @@ class LatticeConfig(ConfigBase):
             pass
         elif (self.symmetries == 'none'):
             self.symmetries = ()
-        elif (isinstance(self.symmetries, tuple)):
+        elif (isinstance(self.symmetries, (list, tuple))):
             for sym in self.symmetries:
                 if (sym not in bz.KNOWN_SYMMETRIES):
                     raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
-- 
2.43.0


From 17082e94dbc32d6d91ac217fc9d72784d7529ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:31 +0000
Subject: [PATCH 32/42] fix: dga_max_ent distributed fermionic quantities over
 the irreducible momenta of the bosonic grid

---
 src/dga/dga_max_ent.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dga/dga_max_ent.py b/src/dga/dga_max_ent.py
index 1cf8262..4a0c012 100644
--- a/src/dga/dga_max_ent.py
+++ b/src/dga/dga_max_ent.py
@@ -54,6 +54,7 @@ def main(path='./', comm=None):
     # define k-path objects that might be used later:
     bz_kpath_string_list = ['Gamma-X-M2-Gamma','Gamma-Y-M2-Gamma','Gamma-X-M-Gamma','Gamma-Y-M-Gamma','Gamma-X-M-Y-Gamma']
     k_path_list = [bz.KPath(d_cfg.lattice.k_grid.nk, bz_kpath_string) for bz_kpath_string in bz_kpath_string_list]
+    q_path_list = [bz.KPath(d_cfg.lattice.q_grid.nk, bz_kpath_string) for bz_kpath_string in bz_kpath_string_list]
 
     max_ent_config = conf_file['max_ent']
     me_conf = config.MaxEntConfig(1,dmft_input['beta'],max_ent_config)
@@ -80,9 +81,11 @@ def main(path='./', comm=None):
 
         logger.log_cpu_time(task=' MaxEnt local ')
 
-    # Create a mpi distributor:
-    mpi_dist = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_irr, comm=comm,
+    # Create the mpi distributors for fermionic and bosonic quantities:
+    mpi_dist_k = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.k_grid.nk_irr, comm=comm,
                                           name='MaxEntIrrk')
+    mpi_dist = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_irr, comm=comm,
+                                          name='MaxEntIrrq')
 
     # Continuation of the k-dependent self-energy:
     if 's_dga' in max_ent_config:
@@ -98,7 +101,7 @@ def main(path='./', comm=None):
             else:
                 sigma_mat = None
 
-            siw_cont = a_cont.mpi_ana_cont(sigma_mat, me_controller, mpi_dist, 'siwk_dga', logger = logger)
+            siw_cont = a_cont.mpi_ana_cont(sigma_mat, me_controller, mpi_dist_k, 'siwk_dga', logger = logger)
             if comm.rank == 0:
                 siw_cont = d_cfg.lattice.k_grid.map_irrk2fbz(siw_cont) + sigma_dga.smom0  # add Hartree
                 a_cont.save_and_plot_cont_fermionic(siw_cont, me_controller.w, d_cfg.lattice.k_grid, 'swk_dga', siw_cont_path)
@@ -138,7 +141,7 @@ def main(path='./', comm=None):
             else:
                 mat = None
 
-            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist, 'giwk_dga', logger = logger)
+            cont = a_cont.mpi_ana_cont(mat, me_controller, mpi_dist_k, 'giwk_dga', logger = logger)
             if(comm.rank == 0):
                 cont = d_cfg.lattice.k_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_fermionic(cont, me_controller.w, d_cfg.lattice.k_grid, f'gwk_dga', cont_path)
@@ -163,7 +166,7 @@ def main(path='./', comm=None):
             if(comm.rank == 0):
                 cont = d_cfg.lattice.q_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_bosonic(cont, me_controller.w, d_cfg.lattice.q_grid, 'chi_dens', cont_path)
-                for k_path in k_path_list:
+                for k_path in q_path_list:
                     hlp.plot_chi_along_kpath(cont, me_controller.w, k_path,
                                                        pdir=cont_path, name=f'chi_dens_{k_path.path}')
             logger.log_cpu_time(task=' MaxEnt Chi-dens ')
@@ -186,11 +189,12 @@ def main(path='./', comm=None):
             if(comm.rank == 0):
                 cont = d_cfg.lattice.q_grid.map_irrk2fbz(cont)
                 a_cont.save_and_plot_cont_bosonic(cont, me_controller.w, d_cfg.lattice.q_grid, 'chi_magn', cont_path)
-                for k_path in k_path_list:
+                for k_path in q_path_list:
                     hlp.plot_chi_along_kpath(cont, me_controller.w, k_path,
                                              pdir=cont_path, name=f'chi_dens_{k_path.path}')
             logger.log_cpu_time(task=' MaxEnt Chi-magn ')
 
+    mpi_dist_k.delete_file()
     mpi_dist.delete_file()
 
 
-- 
2.43.0


From 1dd9944b72c81bd12e9b0634a56ef56408f449c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:31 +0000
Subject: [PATCH 33/42] fix: momenta of a bosonic grid coarser than the
 fermionic one were used as if they were indices of the fermionic grid

---
 src/dga/config.py     |  8 +++++++-
 src/dga/dga_main.py   | 10 ++++++----
 src/dga/four_point.py |  8 ++++----
 src/dga/optics.py     | 18 ++++++++++--------
 4 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/dga/config.py b/src/dga/config.py
index c00bada..8e87ac5 100644
--- a/src/dga/config.py
+++ b/src/dga/config.py
@@ -231,6 +231,8 @@ class LatticeConfig(ConfigBase):
         # set k-grids:
         self.nk = tuple(self.nk)
         self.nq = tuple(self.nq)
+        if any(nk % nq != 0 for nk, nq in zip(self.nk, self.nq)):
+            raise ValueError(f'The momenta of the bosonic grid (nq={self.nq}) must be contained in the fermionic grid (nk={self.nk}).')
 
         self.k_grid = bz.KGrid(self.nk, self.symmetries)
         self.q_grid = bz.KGrid(self.nq, self.symmetries)
@@ -260,6 +262,10 @@ class LatticeConfig(ConfigBase):
         else:
             raise NotImplementedError(f'Symmetry {self.symmetries} is not yet implemented.')
 
+    def q_to_k_ind(self, q_list):
+        ''' Indices of the momenta in q_list [nq,3] on the fermionic grid, i.e. the number of k-points to shift by '''
+        return q_list * (np.array(self.nk) // np.array(self.nq))
+
     @property
     def nk_tot(self):
         return np.prod(self.nk)
@@ -562,7 +568,7 @@ class DgaConfig(OutputConfig):
             matplotlib.use('agg')  # non-gui backend. Particularly usefull for use on cluster.
 
         # Check that number of processes is not larger than number of points in the irreducible BZ:
-        if (comm is not None and comm.size > self.lattice.k_grid.nk_irr):
+        if (comm is not None and comm.size > min(self.lattice.k_grid.nk_irr, self.lattice.q_grid.nk_irr)):
             raise ValueError('Number of processes may not be larger than points in the irreducible BZ for distribution.')
 
     def build_box_sizes(self, conf_file):
diff --git a/src/dga/dga_main.py b/src/dga/dga_main.py
index b373e96..10d4ec9 100644
--- a/src/dga/dga_main.py
+++ b/src/dga/dga_main.py
@@ -112,7 +112,7 @@ def main():
                                              output_path=d_cfg.output_path,
                                              name='Q')
     comm.Barrier()
-    my_q_list = d_cfg.lattice.q_grid.get_irrq_list()[mpi_distributor.my_slice]
+    my_q_list = d_cfg.lattice.q_to_k_ind(d_cfg.lattice.q_grid.get_irrq_list())[mpi_distributor.my_slice]
 
     # Build the different non-local Bubbles:
     gchi0_q_urange = bubble_gen.get_gchi0_q_list(d_cfg.box.niv_full, my_q_list)
@@ -167,7 +167,8 @@ def main():
         d_cfg.save_data(chi_lad_dens, 'chi_dens_lam')
         d_cfg.save_data(chi_lad_magn, 'chi_magn_lam')
         np.savetxt(d_cfg.output_path + '/lambda.txt', [[lambda_dens, lambda_magn]], header='dens magn', fmt='%.6f')
-        chi0q_asympt_correction = bubble_gen.get_asymptotic_correction_q(d_cfg.box.niv_full, d_cfg.lattice.q_grid.get_irrq_list())
+        irrq_list = d_cfg.lattice.q_to_k_ind(d_cfg.lattice.q_grid.get_irrq_list())
+        chi0q_asympt_correction = bubble_gen.get_asymptotic_correction_q(d_cfg.box.niv_full, irrq_list)
         chi0q_asympt_correction = d_cfg.lattice.q_grid.map_irrk2fbz(chi0q_asympt_correction)
         chi_dens_uniform_static = chi_lad_dens[0, 0, 0, d_cfg.box.niw_core].real
         chi_dens_uniform_static += chi0q_asympt_correction[0, 0, 0, d_cfg.box.niw_core].real
@@ -211,7 +212,7 @@ def main():
         vrg_q_magn = d_cfg.lattice.q_grid.map_irrk2fbz(vrg_q_magn, shape='list')
 
     # Distribute the full fbz q-points to the different cores:
-    full_q_list = d_cfg.lattice.q_grid.get_q_list()
+    full_q_list = d_cfg.lattice.q_to_k_ind(d_cfg.lattice.q_grid.get_q_list())
 
     # Create new mpi-distributor for the full fbz:
     mpi_dist_fbz = mpi_aux.MpiDistributor(ntasks=d_cfg.lattice.q_grid.nk_tot, comm=comm,
@@ -346,7 +347,8 @@ def main():
         d_cfg.logger.log_cpu_time(task=' Vertex distributed among ranks.')
         chijj_vert = optics.vec_get_chijj_vert(f_cond, giwk_dga, d_cfg.lattice.hr, d_cfg.lattice.k_grid,
                                                wn_vert=d_cfg.optics.wn_vert(), wn_cond=d_cfg.optics.wn_cond(pos=True),
-                                               q_list=my_full_q_list, der_a=d_cfg.optics.der_a, der_b=d_cfg.optics.der_b)
+                                               q_list=my_full_q_list, der_a=d_cfg.optics.der_a, der_b=d_cfg.optics.der_b,
+                                               nq_tot=d_cfg.lattice.q_grid.nk_tot)
         chijj_vert = mpi_dist_fbz.allreduce(chijj_vert)  # collect results from ranks
         chijj_vert = mf.bosonic_full_nu_range(chijj_vert)
         if comm.rank == 0:
diff --git a/src/dga/four_point.py b/src/dga/four_point.py
index 586af42..3ecab15 100644
--- a/src/dga/four_point.py
+++ b/src/dga/four_point.py
@@ -359,12 +359,12 @@ def build_vertex_fq(d_cfg: conf.DgaConfig, comm, chi_lad_magn, chi_lad_dens):
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, niv, niv],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.output_path, name='F_magn_niw0')
     d_cfg.save_data(f_dens, 'F_dens')
     d_cfg.save_data(f_magn, 'F_magn')
     del f_dens, f_magn
diff --git a/src/dga/optics.py b/src/dga/optics.py
index f3db645..7568c5e 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -141,10 +141,12 @@ def get_chijj_vertex(f_cond, lv_a, lv_b, giwk, beta, iwn, wpn, q_list, nk_tot):
 
 
 def vec_get_chijj_vert(f_cond, giwk_gen: twop.GreensFunction, hr: wannier.WannierHr, k_grid: bz.KGrid, wn_vert, wn_cond, q_list,
-                       der_a=0, der_b=0):
+                       der_a=0, der_b=0, nq_tot=None):
     '''
         f_cond -> [q,wp,w,v]
+        nq_tot: total number of momenta q; default: that of k_grid
     '''
+    if nq_tot is None: nq_tot = k_grid.nk_tot
     assert np.shape(wn_vert)[0] == np.shape(f_cond)[1], 'Number of internal bosonic frequencies in ' \
                                                         'f_cond must be equal to wn_vert'
     assert np.shape(wn_cond)[0] == np.shape(f_cond)[2], 'Number of transformed bosonic frequencies in ' \
@@ -154,7 +156,7 @@ def vec_get_chijj_vert(f_cond, giwk_gen: twop.GreensFunction, hr: wannier.Wannie
     lv_a = hr.get_light_vertex(k_grid, der=der_a)
     lv_b = hr.get_light_vertex(k_grid, der=der_b)
     beta = giwk_gen.beta
-    sigma_vert = np.array([get_chijj_vertex(f_cond[:, :, i, :], lv_a, lv_b, giwk, beta, iwn, wn_vert, q_list, k_grid.nk_tot)
+    sigma_vert = np.array([get_chijj_vertex(f_cond[:, :, i, :], lv_a, lv_b, giwk, beta, iwn, wn_vert, q_list, nq_tot)
                            for i, iwn in enumerate(wn_cond)])
     return sigma_vert
 
@@ -182,20 +184,20 @@ def build_vertex_for_optical_conductivity(d_cfg: conf.DgaConfig, comm, chi_lad_m
     gc.collect()
     niw = f_dens.shape[-3] // 2
     plotting.plot_kx_ky(f_dens[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_dens_niw0')
 
     plotting.plot_kx_ky(f_magn[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_magn_niw0')
 
     f_cond = -1 / 2 * f_dens - 3 / 2 * f_magn
     del f_dens, f_magn
     gc.collect()
 
     plotting.plot_kx_ky(f_cond[:, :, 0, niw, 0, d_cfg.optics.niv_vert],
-                        d_cfg.lattice.k_grid.kx,
-                        d_cfg.lattice.k_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
+                        d_cfg.lattice.q_grid.kx,
+                        d_cfg.lattice.q_grid.ky, pdir=d_cfg.optics.output_path, name='F_cond_niw0')
 
     d_cfg.optics.save_data(f_cond, 'F_cond')
     del f_cond
-- 
2.43.0


From f7ea78e5c006450dc631e7aaccba545e3d605514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:46 +0000
Subject: [PATCH 34/42] fix: symmetrize took the box sizes from worm-last, not
 from the requested worm group

---
 src/dga/symmetrize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dga/symmetrize.py b/src/dga/symmetrize.py
index e33226d..62cabff 100644
--- a/src/dga/symmetrize.py
+++ b/src/dga/symmetrize.py
@@ -120,20 +120,20 @@ def check_sym(**kwargs):
           print('orbital symmetry not consistent!')
           sys.exit()
 
-def get_fbox(infile=None,target=None,**kwargs):
+def get_fbox(infile=None,target=None,worm_group='worm-last',**kwargs):
   conf = kwargs['conf']
   f=h5py.File(infile,'r')
   if target=='1freq_b':
-    n2iwb=f['worm-last/ineq-001/p2iw-worm/00001/value'].shape[0]
+    n2iwb=f['{}/ineq-001/p2iw-worm/00001/value'.format(worm_group)].shape[0]
     print(n2iwb)
     conf['n2iwb']=n2iwb//2
   elif target=='2freq':
-    n3iwf,n3iwb = f['worm-last/ineq-001/p3iw-worm/00001/value'].shape
+    n3iwf,n3iwb = f['{}/ineq-001/p3iw-worm/00001/value'.format(worm_group)].shape
     conf['n3iwf'],conf['n3iwb'] = n3iwf//2,n3iwb//2
     n3iwf,n3iwb=conf['n3iwf'],conf['n3iwb']
   elif target=='3freq':
     # new worm format -- f f b
-    _,n4iwf,n4iwb = f['worm-last/ineq-001/g4iw-worm/00001/value'].shape # always here
+    _,n4iwf,n4iwb = f['{}/ineq-001/g4iw-worm/00001/value'.format(worm_group)].shape # always here
     conf['n4iwf']=n4iwf//2
     conf['n4iwb']=n4iwb//2
     n4iwf,n4iwb=conf['n4iwf'],conf['n4iwb']
-- 
2.43.0


From 01cce55237cd2665fbbfa975b74becae9dddd2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:31 +0000
Subject: [PATCH 35/42] fix: the window of the asymptotic sum for a list of
 momenta assumed all bosonic frequencies up to the largest one

---
 src/dga/bubble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/bubble.py b/src/dga/bubble.py
index c1ecf60..c28cd85 100644
--- a/src/dga/bubble.py
+++ b/src/dga/bubble.py
@@ -276,7 +276,7 @@ class BubbleGenerator():
         if freq_notation is None:
             freq_notation = self.freq_notation
         chi0_asympt_sum = np.zeros((len(q_list), self.niw), dtype=complex)
-        v = 1 / (1j * mf.vn(self.beta, niv_sum + self.niw))
+        v = 1 / (1j * mf.vn(self.beta, niv_sum + np.max(np.abs(self.wn))))
         niv = v.size // 2
         fac1, fac2, fac3 = self.get_asympt_prefactors_q(q_list)
         for i, iwn in enumerate(self.wn):
-- 
2.43.0


From 4125e8a04e6f021518db016c21062228ab43c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:54 +0000
Subject: [PATCH 36/42] fix: polynomial extrapolations were taken from data
 shifted by pi at the momenta of the unshifted grid

---
 src/dga/dga_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/dga_io.py b/src/dga/dga_io.py
index 77b1f8f..7256f16 100644
--- a/src/dga/dga_io.py
+++ b/src/dga/dga_io.py
@@ -252,11 +252,11 @@ def default_giwk_checks(d_cfg: config.DgaConfig, giwk_dga, sigma_dga):
 def dga_poly_fit(d_cfg: config.DgaConfig, sigma_dga, giwk_dga):
     if d_cfg.do_poly_fitting and d_cfg.comm.rank == 0:
         # Extrapolate the self-energy to the Fermi-level via polynomial fit:
-        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full, pi_shift=True), d_cfg.sys.beta,
+        poly_fit(sigma_dga.get_siw(d_cfg.box.niv_full, pi_shift=False), d_cfg.sys.beta,
                  d_cfg.lattice.k_grid, d_cfg.n_fit,
                  d_cfg.o_fit, name='Siwk_poly_cont_', output_path=d_cfg.poly_fit_dir)
 
-        poly_fit(giwk_dga.g_full(pi_shift=True), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
+        poly_fit(giwk_dga.g_full(pi_shift=False), d_cfg.sys.beta, d_cfg.lattice.k_grid, d_cfg.n_fit,
                  d_cfg.o_fit,
                  name='Giwk_dga_poly_cont_',
                  output_path=d_cfg.poly_fit_dir)
-- 
2.43.0


From 83e8a9e2d7ba653dfed805cb2a1394a82a14f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:49 +0000
Subject: [PATCH 37/42] fix: real-frequency bubble shifted frequencies by mesh
 indices, wrong on every mesh that is not equidistant (as the default one)

---
 src/dga/optics.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/dga/optics.py b/src/dga/optics.py
index 7568c5e..54a3031 100644
--- a/src/dga/optics.py
+++ b/src/dga/optics.py
@@ -59,21 +59,26 @@ def vec_get_chijj_bubble_realf(gwk_obj: twop.RealFrequencyGF, hr: wannier.Wannie
     lv_b = hr.get_light_vertex(k_grid, der=der_b)
     w_0_ind = np.argmin(np.abs(gwk_obj.w))
     w_mbub_ind = np.argmin(np.abs(gwk_obj.w - w_max_bub))
-    w_int_ind = len(gwk_obj.w) - w_mbub_ind
-    nu = w_0_ind + w_int_ind
-    nl = w_0_ind - w_int_ind + len(gwk_obj.w) % 2
+    w_int_max = gwk_obj.w[-1] - gwk_obj.w[w_mbub_ind]
+    nl, nu = np.searchsorted(gwk_obj.w, [-w_int_max * (1 + 1e-10), w_int_max * (1 + 1e-10)])
     lv2 = lv_a * lv_b
+    gwk = gwk_obj.gwk()
     awk = gwk_obj.awk()[..., nl:nu]
     w_int = gwk_obj.w[nl:nu]
     nf = fermi_function(w_int, beta)[None, None, None, :]
     w_bub = gwk_obj.w[w_0_ind + 1:w_mbub_ind]
 
-    def get_chijj_bubble_realf_iw(i):
+    def get_gwk_at(w):
+        ''' The mesh need not be equidistant: interpolate the Green's function linearly to the frequencies w '''
+        ind = np.clip(np.searchsorted(gwk_obj.w, w), 1, len(gwk_obj.w) - 1)
+        t = (w - gwk_obj.w[ind - 1]) / (gwk_obj.w[ind] - gwk_obj.w[ind - 1])
+        return gwk[..., ind - 1] * (1 - t) + gwk[..., ind] * t
+
+    def get_chijj_bubble_realf_w(w):
         return -2 * np.mean(
-            lv2 * np.trapz(nf * awk * (gwk_obj.gwk()[..., nl + i:nu + i] + np.conj(gwk_obj.gwk())[..., nl - i:nu - i])
-                           , w_int, axis=-1))
+            lv2 * np.trapz(nf * awk * (get_gwk_at(w_int + w) + np.conj(get_gwk_at(w_int - w))), w_int, axis=-1))
 
-    chi_jj = np.array([get_chijj_bubble_realf_iw(i + 1) for i, _ in enumerate(w_bub)])
+    chi_jj = np.array([get_chijj_bubble_realf_w(w) for w in w_bub])
     return chi_jj, w_bub
 
 
-- 
2.43.0


From ab3882b0fef638ea9ee280a6c7cf8910cdd5ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:08 +0000
Subject: [PATCH 38/42] fix: symmetrize_irrk truncated the class averages of
 integer quantities

---
 src/dga/brillouin_zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/brillouin_zone.py b/src/dga/brillouin_zone.py
index 7e3c2c1..9c33b6b 100644
--- a/src/dga/brillouin_zone.py
+++ b/src/dga/brillouin_zone.py
@@ -298,7 +298,7 @@ class KGrid():
         '''Shape of mat has to be [kx,ky,kz,...]'''
         mat_reshape = self.map_fbz_mesh2list(mat)
         shp = np.shape(mat_reshape)
-        reduced = np.zeros((self.nk_irr,) + shp[1:], dtype=mat_reshape.dtype)
+        reduced = np.zeros((self.nk_irr,) + shp[1:], dtype=np.result_type(mat_reshape, float))
         for i in range(self.nk_irr):
             reduced[i, ...] = np.mean(mat_reshape[self.irrk_inv == i, ...], axis=0)
         return self.map_irrk2fbz(mat=reduced)
-- 
2.43.0


From b3d5a601e4915f19b6e9ef3541e0ab43e24892dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:08 +0000
Subject: [PATCH 39/42] fix: vn_centered_sum truncated the sums of integer and
 boolean arrays

---
 src/dga/matsubara_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index 727ef6a..547faa7 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -347,7 +347,7 @@ def vn_centered_sum_wn(mat, beta, iwn=0, niv_sum=-1):
 
 def vn_centered_sum(mat, w_n, beta, niv_sum=-1):
     '''Assumes [...,w,v,v'] '''
-    result = np.zeros((mat.shape[:-2]), dtype=mat.dtype)
+    result = np.zeros((mat.shape[:-2]), dtype=np.result_type(mat, float))
     for i, iwn in enumerate(w_n):
         result[..., i] = vn_centered_sum_wn(mat[..., i, :, :], beta, iwn=iwn, niv_sum=niv_sum)
     return result
-- 
2.43.0


From a73a4bba8134070a1c07a5fdd49475bac9d20f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:22 +0000
Subject: [PATCH 40/42] fix: add_bosonic failed for a real object of the larger
 range and a complex one of the smaller

---
 src/dga/matsubara_frequencies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/matsubara_frequencies.py b/src/dga/matsubara_frequencies.py
index 547faa7..5b7a164 100644
--- a/src/dga/matsubara_frequencies.py
+++ b/src/dga/matsubara_frequencies.py
@@ -237,12 +237,12 @@ def add_bosonic(mat1, mat2, axis=0):
     niw_1 = niw_from_mat(mat1, axis=axis)
     niw_2 = niw_from_mat(mat2, axis=axis)
     if niw_2 <= niw_1:
-        result = np.copy(mat1)
+        result = np.array(mat1, dtype=np.result_type(mat1, mat2))
         nl, nu = niw_1 - niw_2, niw_1 + niw_2 + 1
         np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat2, axis, 0)
         return result
     else:
-        result = np.copy(mat2)
+        result = np.array(mat2, dtype=np.result_type(mat1, mat2))
         nl, nu = niw_2 - niw_1, niw_2 + niw_1 + 1
         np.moveaxis(result, axis, 0)[nl:nu] += np.moveaxis(mat1, axis, 0)
         return result
-- 
2.43.0


From d9b3b23622e686340665a60e9c82c37fce3dbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:22 +0000
Subject: [PATCH 41/42] fix: the disconnected part lost its imaginary part when
 the two-particle function was a real array

---
 src/dga/local_four_point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dga/local_four_point.py b/src/dga/local_four_point.py
index c7077ea..5541253 100644
--- a/src/dga/local_four_point.py
+++ b/src/dga/local_four_point.py
@@ -234,7 +234,7 @@ def get_ggv(giw=None, niv_ggv=-1):
 
 def gchir_from_g2(g2: LocalFourPoint = None, giw=None):
     ''' gchi_r:1/eV^3 = beta:1/eV * (G2:1/eV^2 - 2 * GG:1/eV^2 delta_dens) '''
-    chir_mat = g2.beta * g2.mat
+    chir_mat = g2.beta * np.array(g2.mat, dtype=complex)
     if g2.channel == 'dens' and 0 in g2.wn:
         ggv = get_ggv(giw, niv_ggv=g2.niv)
         chir_mat[g2.wn == 0] = g2.beta * (g2.mat[g2.wn == 0] - 2. * ggv)
@@ -244,7 +244,7 @@ def gchir_from_g2(g2: LocalFourPoint = None, giw=None):
 
 def g2_from_chir(chir: LocalFourPoint = None, giw=None):
     ''' G2 = 1/beta * chi_r + 2*GG delta_dens'''
-    g2_mat = 1 / chir.beta * chir.mat
+    g2_mat = 1 / chir.beta * np.array(chir.mat, dtype=complex)
     if chir.channel == 'dens' and 0 in chir.wn:
         ggv = get_ggv(giw, niv_ggv=chir.niv)
         g2_mat[chir.wn == 0] = 1 / chir.beta * chir.mat[chir.wn == 0] + 2. * ggv
-- 
2.43.0


From 4930b3940493ba2bb6d7fb5aac7b8945a5205ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:22 +0000
Subject: [PATCH 42/42] fix: gram_schmidt failed for a real vector and a
 complex basis

---
 src/dga/eliashberg_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dga/eliashberg_equation.py b/src/dga/eliashberg_equation.py
index dd8a6c1..c374e9b 100644
--- a/src/dga/eliashberg_equation.py
+++ b/src/dga/eliashberg_equation.py
@@ -86,7 +86,7 @@ class EliashberPowerIteration():
 def gram_schmidt(v=None, basis=None):
     v_new = np.copy(v)
     for ui in basis:
-        v_new -= proj(v=v, u=ui)
+        v_new = v_new - proj(v=v, u=ui)
     return v_new
 
 
-- 
2.43.0

