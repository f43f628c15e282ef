From 033939ea6caa9b883e87ce7625f3184e5dbed425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:03 +0000
Subject: [PATCH 01/23] fix: dist_bound returns an empty range instead of
 failing on processes without work

---
 tbplas/parallel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tbplas/parallel.py b/tbplas/parallel.py
index c5dac5e..c05c331 100644
--- a/tbplas/parallel.py
+++ b/tbplas/parallel.py
@@ -115,8 +115,10 @@ class MPIEnv:
         :param n_max: upper bound of range
         :return: lower and upper bounds of subrange assigned to this process
         """
+        # NOTE: the subrange is empty if there are more processes than items.
+        # In that case i_max is i_min - 1.
         i_index = self.dist_range(n_max)
-        i_min, i_max = min(i_index), max(i_index)
+        i_min, i_max = i_index.start, i_index.stop - 1
         return i_min, i_max
 
     def reduce(self, data_local: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 1b6649016e895c12fc7c5b3ea2a5dcfffa4d1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:03 +0000
Subject: [PATCH 02/23] fix: reduce dynamic polarization over processes once,
 not once per q-point

---
 tbplas/diagonal/lindhard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 9fe8e13..4b4b3a1 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -409,7 +409,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
@@ -498,7 +498,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
-- 
2.43.0


From 2d91b537b3228053fff52d2ffdf935516a13c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:07 +0000
Subject: [PATCH 03/23] fix: estimate the rescale factor from the absolute
 values of on-site energies

---
 tbplas/cython/sample.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index c48e522..9e7998e 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -8,7 +8,7 @@
 # cython: warn.multiple_declarators=True
 
 import cython
-from libc.math cimport cos, sin, pi, sqrt
+from libc.math cimport cos, sin, pi, sqrt, fabs
 import numpy as np
 
 
@@ -104,7 +104,7 @@ def get_rescale(double [::1] orb_eng, long [::1] hop_i, long [::1] hop_j,
 
     ham_sum = np.zeros(num_orb_sc, dtype=np.float64)
     for io in range(num_orb_sc):
-        ham_sum[io] = orb_eng[io]
+        ham_sum[io] = fabs(orb_eng[io])
     for ih in range(num_hop_sc):
         ii, jj = hop_i[ih], hop_j[ih]
         hop_abs = sqrt(hop_v[ih].real**2 + hop_v[ih].imag**2)
-- 
2.43.0


From de64f828e787b1f67e442c9f33deccc581e8e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:07 +0000
Subject: [PATCH 04/23] fix: end with a failure status when a propagation
 breaks down

---
 tbplas/fortran/funcs.f90 | 2 +-
 tbplas/fortran/tbpm.f90  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/fortran/funcs.f90 b/tbplas/fortran/funcs.f90
index 8f0afaf..c9a72cf 100644
--- a/tbplas/fortran/funcs.f90
+++ b/tbplas/fortran/funcs.f90
@@ -187,7 +187,7 @@ subroutine check_norm(wf_t, norm_ref, eps)
         write (*,*) "= Wave function norm gets broken during proparation. First of all, check the ="
         write (*,*) "= Hermitianity of the Hamiltonian. Then try increasing 'rescale' in input.   ="
         write (*,*) "=============================================================================="
-        stop
+        error stop 1
     end if
 end subroutine check_norm
 
diff --git a/tbplas/fortran/tbpm.f90 b/tbplas/fortran/tbpm.f90
index e49df30..65cb2db 100644
--- a/tbplas/fortran/tbpm.f90
+++ b/tbplas/fortran/tbpm.f90
@@ -916,7 +916,7 @@ SUBROUTINE tbpm_kbdc(seed, s_indptr, n_indptr, s_indices, n_indices, &
             END DO
         ELSE
             if (rank == 0) PRINT*, "Error: wrong direction!"
-            STOP
+            ERROR STOP 1
         END IF
 
         ! calculate correlation
-- 
2.43.0


From d15803e9b36d55ee4c9c7ddd9779fc8228458a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:56 +0000
Subject: [PATCH 05/23] fix: keep files of different saves of a sample apart,
 and load them all or not at all

---
 tbplas/builder/sample.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index b164df4..97bc48a 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -226,6 +226,16 @@ class Sample(Observable):
         """
         if not os.path.exists(data_dir):
             os.mkdir(data_dir)
+
+        # Remove the files of earlier saves, so that files of different saves
+        # never coexist, even if we are interrupted below.
+        for name in ("orb_eng", "orb_pos", "hop_i", "hop_j", "hop_v", "dr",
+                     "rescale"):
+            try:
+                os.remove(f"{data_dir}/{name}.npy")
+            except FileNotFoundError:
+                pass
+
         if self.orb_eng is not None:
             np.save(f"{data_dir}/orb_eng", self.orb_eng)
         if self.orb_pos is not None:
@@ -244,23 +254,33 @@ class Sample(Observable):
         :param data_dir: directory in which data are saved
         :return: None
         """
+        # Load everything before changing any attribute, so that the sample is
+        # left as it was if any of the files turns out to be damaged.
+        orb_eng, orb_pos, hop = None, None, None
         try:
-            self.orb_eng = np.load(f"{data_dir}/orb_eng.npy")
+            orb_eng = np.load(f"{data_dir}/orb_eng.npy")
         except FileNotFoundError:
             print(f"Ignoring {data_dir}/orb_eng.npy")
         try:
-            self.orb_pos = np.load(f"{data_dir}/orb_pos.npy")
+            orb_pos = np.load(f"{data_dir}/orb_pos.npy")
         except FileNotFoundError:
             print(f"Ignoring {data_dir}/orb_pos.npy")
         try:
-            self.hop_i = np.load(f"{data_dir}/hop_i.npy")
-            self.hop_j = np.load(f"{data_dir}/hop_j.npy")
-            self.hop_v = np.load(f"{data_dir}/hop_v.npy")
-            self.dr = np.load(f"{data_dir}/dr.npy")
-            self._rescale = np.load(f"{data_dir}/rescale.npy").item()
+            hop = (np.load(f"{data_dir}/hop_i.npy"),
+                   np.load(f"{data_dir}/hop_j.npy"),
+                   np.load(f"{data_dir}/hop_v.npy"),
+                   np.load(f"{data_dir}/dr.npy"),
+                   np.load(f"{data_dir}/rescale.npy").item())
         except FileNotFoundError:
             print(f"Ignoring {data_dir}/hop_i.npy")
 
+        if orb_eng is not None:
+            self.orb_eng = orb_eng
+        if orb_pos is not None:
+            self.orb_pos = orb_pos
+        if hop is not None:
+            self.hop_i, self.hop_j, self.hop_v, self.dr, self._rescale = hop
+
     def update(self) -> None:
         """
         Interface for keeping data consistency in observer pattern.
-- 
2.43.0


From b1e5c6805571e0e4a18fb3d7d52cafec59d39478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:43 +0000
Subject: [PATCH 06/23] fix: creating an output directory no longer fails if
 another process creates it first

---
 tbplas/builder/sample.py | 3 +--
 tbplas/tbpm/solver.py    | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index 97bc48a..350a16a 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -224,8 +224,7 @@ class Sample(Observable):
         :param data_dir: directory to which data will be saved
         :return: None
         """
-        if not os.path.exists(data_dir):
-            os.mkdir(data_dir)
+        os.makedirs(data_dir, exist_ok=True)
 
         # Remove the files of earlier saves, so that files of different saves
         # never coexist, even if we are interrupted below.
diff --git a/tbplas/tbpm/solver.py b/tbplas/tbpm/solver.py
index 7dbbbc7..693e540 100644
--- a/tbplas/tbpm/solver.py
+++ b/tbplas/tbpm/solver.py
@@ -121,8 +121,7 @@ class Solver(MPIEnv):
         # slow. Other processes may try to access the directory before it is
         # created and run into I/O errors. So we need to put a barrier here.
         if self.is_master:
-            if not os.path.exists(directory):
-                os.mkdir(directory)
+            os.makedirs(directory, exist_ok=True)
         self.barrier()
 
         # Determine file names
-- 
2.43.0


From 826f170e96a1950740191392e621f1476b4aca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:22 +0000
Subject: [PATCH 07/23] fix: refuse incomplete Wannier90 output files instead
 of importing part of a model

---
 tbplas/adapter/wannier90.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index 1068cba..46d4788 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -18,6 +18,19 @@ rn5_type = Tuple[int, int, int, int, int]
 rn3_type = Tuple[int, int, int]
 
 
+def check_complete(file_name: str) -> None:
+    """
+    Check if the last line of a file written by Wannier90 is complete.
+
+    :param file_name: name of the file
+    :return: None
+    :raises ValueError: if the last line of the file is not complete
+    """
+    with open(file_name, "r") as in_file:
+        if not in_file.read().endswith("\n"):
+            raise ValueError(f"{file_name} is not complete")
+
+
 def read_lat_vec(seed_name: str = "wannier90") -> np.ndarray:
     """
     Read lattice vectors from seed_name.win.
@@ -25,7 +38,8 @@ def read_lat_vec(seed_name: str = "wannier90") -> np.ndarray:
     :param seed_name: seed_name of Wannier90 output files
     :return: (3, 3) float64 array
         lattice vectors in Angstrom
-    :raises ValueError: if units are not "Ang" or "Bohr"
+    :raises ValueError: if units are not "Ang" or "Bohr", or the definition of
+        lattice vectors is not complete
     """
     with open(f"{seed_name}.win", "r") as win_file:
         win_content = win_file.readlines()
@@ -48,6 +62,8 @@ def read_lat_vec(seed_name: str = "wannier90") -> np.ndarray:
         lat_vec_raw = lat_block[1:-1]
     lat_vec = np.array([[float(x) for x in line.split()]
                         for line in lat_vec_raw], dtype=np.float64)
+    if lat_vec.shape != (3, 3):
+        raise ValueError(f"Lattice vectors in {seed_name}.win not complete")
 
     # Unit conversion
     if units in ("Ang", "ang"):
@@ -68,9 +84,13 @@ def read_orb_pos(seed_name: str = "wannier90") -> np.ndarray:
     :param seed_name: seed_name of Wannier90 output files
     :return: (num_wan, 3) float64 array
         Cartesian coordinates of orbitals in Angstrom
+    :raises ValueError: if the file is not complete
     """
+    check_complete(f"{seed_name}_centres.xyz")
     with open(f"{seed_name}_centres.xyz", "r") as centre_file:
         centre_content = centre_file.readlines()
+    if len(centre_content) < 2 + int(centre_content[0]):
+        raise ValueError(f"{seed_name}_centres.xyz is not complete")
     orb_pos = []
     for line in centre_content[2:]:
         data = line.split()
@@ -88,7 +108,9 @@ def read_hop(seed_name: str = "wannier90") -> Tuple[List[rn5_type], List[complex
     :return: (hop_ind, hop_eng)
         hop_ind: hopping indices
         hop_eng: hopping energies in eV
+    :raises ValueError: if the file is not complete
     """
+    check_complete(f"{seed_name}_hr.dat")
     with open(f"{seed_name}_hr.dat", "r") as hr_file:
         hr_content = hr_file.readlines()
     nl_hopping = int(hr_content[2])
@@ -101,6 +123,8 @@ def read_hop(seed_name: str = "wannier90") -> Tuple[List[rn5_type], List[complex
         eng = float(data[5]) + 1j * float(data[6])
         hop_ind.append(ind)
         hop_eng.append(eng)
+    if len(hop_ind) != int(hr_content[1])**2 * nl_hopping:
+        raise ValueError(f"{seed_name}_hr.dat is not complete")
     return hop_ind, hop_eng
 
 
@@ -112,7 +136,9 @@ def read_wsvec(seed_name: str = "wannier90") -> Dict[rn5_type, List[rn3_type]]:
     :return: correction terms to vector R
         Keys should be (ra, rb, rc, orb_i, orb_j).
         Values should be (delta_ra, delta_rb, delta_rc).
+    :raises ValueError: if the last line of the file is not complete
     """
+    check_complete(f"{seed_name}_wsvec.dat")
     wsvec = dict()
     with open(f"{seed_name}_wsvec.dat", "r") as iterator:
         next(iterator)  # skip comment line
@@ -177,7 +203,8 @@ def wan2pc(seed_name: str = "wannier90",
     :param hop_eng_cutoff: energy cutoff for hopping terms in eV
         Hopping terms with energy below this threshold will be dropped.
     :return: primitive cell created from Wannier90 output files
-    :raise ValueError: if unit of lattice vectors is not "Ang" or "Bohr"
+    :raise ValueError: if unit of lattice vectors is not "Ang" or "Bohr", or
+        any of the files is not complete
     :raise FileNotFoundError: if seed_name_wsvec.dat is not found
     """
     # Read Wannier90 output
@@ -192,6 +219,8 @@ def wan2pc(seed_name: str = "wannier90",
     if correct_hop:
         if os.path.exists(f"{seed_name}_wsvec.dat"):
             wsvec = read_wsvec(seed_name)
+            if any(ind not in wsvec for ind in hop_ind):
+                raise ValueError(f"{seed_name}_wsvec.dat is not complete")
             apply_wsvec(wsvec, hop_ind, hop_eng)
         else:
             raise FileNotFoundError(f"{seed_name}_wsvec.dat not found")
-- 
2.43.0


From 13a7e22d7f251945787a5eecb23bf1ba6e4a174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:14 +0000
Subject: [PATCH 08/23] fix: measure elapsed times with a clock that is never
 stepped

---
 tbplas/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/utils.py b/tbplas/utils.py
index fb438f4..3f5abd5 100644
--- a/tbplas/utils.py
+++ b/tbplas/utils.py
@@ -45,7 +45,7 @@ class Timer:
         :param slot: name of the slot
         :return: None
         """
-        self._start_time[slot] = time.time()
+        self._start_time[slot] = time.perf_counter()
         self._track_status[slot] = True
 
     def toc(self, slot: str) -> None:
@@ -63,7 +63,7 @@ class Timer:
         if not status:
             raise RuntimeError(f"Record for slot '{slot}' not started")
         else:
-            time_usage = time.time() - self._start_time[slot]
+            time_usage = time.perf_counter() - self._start_time[slot]
             self._track_status[slot] = False
             self._time_usage[slot] = time_usage
             self._total_time_usage[slot] += time_usage
-- 
2.43.0


From 6cac83c41515069449ec07b502a6dfc5c4366307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:31 +0000
Subject: [PATCH 09/23] fix: rebuild the arrays of a primitive cell after an
 interrupted query or a change with equal hash

---
 tbplas/builder/primitive.py | 56 +++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 207d0a8..3f810d6 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -67,8 +67,9 @@ class PrimitiveCell(Observable):
         container of hopping terms in the primitive cell
         Only half of the hopping terms are stored. Conjugate terms are added
         automatically when constructing the Hamiltonian.
-    _hash_dict: Dict[str, int]
-        hashes of attributes to be used by 'sync_*' methods to update the arrays
+    _fp_dict: Dict[str, tuple]
+        fingerprints of attributes from which the arrays have been built, to be
+        used by 'sync_*' methods to update the arrays
     _orb_pos: (num_orb, 3) float64 array
         FRACTIONAL positions of all orbitals
     _orb_eng: (num_orb,) float64 array
@@ -116,9 +117,9 @@ class PrimitiveCell(Observable):
         self._orbital_list = []
         self._hopping_dict = IntraHopping()
 
-        # Setup hash values
-        self._hash_dict = {'orb': self._get_attr_hash('orb'),
-                           'hop': self._get_attr_hash('hop')}
+        # Setup fingerprints
+        self._fp_dict = {'orb': self._get_attr_fp('orb'),
+                         'hop': self._get_attr_fp('hop')}
 
         # Setup arrays.
         self._orb_pos = np.array([], dtype=np.float64)
@@ -136,37 +137,24 @@ class PrimitiveCell(Observable):
               self._hopping_dict, self.extended)
         return hash(fp)
 
-    def _get_attr_hash(self, attr: str) -> int:
+    def _get_attr_fp(self, attr: str) -> tuple:
         """
-        Get the hash of given attribute.
+        Get the fingerprint of given attribute.
+
+        NOTE: DO NOT use hash values as fingerprints, since different values may
+        have the same hash, e.g. hash(-1.0) == hash(-2.0).
 
         :param attr: name of the attribute
-        :return: hash of the attribute
+        :return: fingerprint of the attribute
         :raises ValueError: if attr is illegal
         """
         if attr == "orb":
-            new_hash = hash(tuple(self._orbital_list))
+            new_fp = tuple(self._orbital_list)
         elif attr == "hop":
-            new_hash = hash(self._hopping_dict)
+            new_fp = tuple(self._hopping_dict.to_list())
         else:
             raise ValueError(f"Illegal attribute name {attr}")
-        return new_hash
-
-    def _update_attr_hash(self, attr: str) -> bool:
-        """
-        Compare and update the hash of given attribute.
-
-        :param attr: name of the attribute
-        :return: whether the hash has been updated.
-        :raises ValueError: if attr is illegal
-        """
-        new_hash = self._get_attr_hash(attr)
-        if self._hash_dict[attr] != new_hash:
-            self._hash_dict[attr] = new_hash
-            status = True
-        else:
-            status = False
-        return status
+        return new_fp
 
     @staticmethod
     def _check_position(position: pos_type) -> pos3_type:
@@ -552,12 +540,16 @@ class PrimitiveCell(Observable):
             orbitals did not change
         :return: None
         """
-        to_update = self._update_attr_hash('orb')
-        if force_sync or to_update:
+        new_fp = self._get_attr_fp('orb')
+        if force_sync or self._fp_dict['orb'] != new_fp:
+            # The fingerprint is set only after the arrays have been updated.
+            # Otherwise, they will be out-of-date if we are interrupted.
+            self._fp_dict['orb'] = None
             self._orb_pos = np.array(
                 [orb.position for orb in self._orbital_list], dtype=np.float64)
             self._orb_eng = np.array(
                 [orb.energy for orb in self._orbital_list], dtype=np.float64)
+            self._fp_dict['orb'] = new_fp
 
     def sync_hop(self, force_sync: bool = False) -> None:
         """
@@ -567,11 +559,13 @@ class PrimitiveCell(Observable):
             hopping terms did not change
         :return: None
         """
-        to_update = self._update_attr_hash('hop')
-        if force_sync or to_update:
+        new_fp = self._get_attr_fp('hop')
+        if force_sync or self._fp_dict['hop'] != new_fp:
+            self._fp_dict['hop'] = None
             hop_ind, hop_eng = self._hopping_dict.to_array(use_int64=False)
             self._hop_ind = hop_ind
             self._hop_eng = hop_eng
+            self._fp_dict['hop'] = new_fp
 
     def sync_array(self, **kwargs) -> None:
         """
-- 
2.43.0


From 128e16ffe954aa29ce28e476a154cbc338635210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:31 +0000
Subject: [PATCH 10/23] fix: rebuild the arrays of supercells and samples after
 an interrupted or failed query

---
 tbplas/builder/sample.py | 17 ++++++++++-------
 tbplas/builder/super.py  | 28 ++++++++++------------------
 2 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index 350a16a..ed6871c 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -189,13 +189,16 @@ class Sample(Observable):
                 dr_tot.append(dr)
 
             # Assemble hopping terms
-            self.hop_i = np.concatenate(hop_i_tot)
-            self.hop_j = np.concatenate(hop_j_tot)
-            self.hop_v = np.concatenate(hop_v_tot)
-            self.dr = np.concatenate(dr_tot)
-
-            # Reset scaling factor
-            self._rescale = 1.0
+            hop_i = np.concatenate(hop_i_tot)
+            hop_j = np.concatenate(hop_j_tot)
+            hop_v = np.concatenate(hop_v_tot)
+            dr = np.concatenate(dr_tot)
+
+            # Set the arrays and reset scaling factor
+            # This must be done at once, otherwise the arrays will be partially
+            # initialized if we are interrupted.
+            self.hop_i, self.hop_j, self.hop_v, self.dr, self._rescale = \
+                hop_i, hop_j, hop_v, dr, 1.0
 
     def reset_array(self) -> None:
         """
diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 24b0958..27c9c76 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -182,22 +182,6 @@ class OrbitalSet(Observable):
             raise ValueError(f"Illegal attribute name {attr}")
         return new_hash
 
-    def _update_attr_hash(self, attr: str) -> bool:
-        """
-        Compare and update hash of given attribute.
-
-        :param attr: name of the attribute
-        :return: whether the hash has been updated
-        :raises ValueError: if attr is illegal
-        """
-        new_hash = self._get_attr_hash(attr)
-        if self._hash_dict[attr] != new_hash:
-            self._hash_dict[attr] = new_hash
-            status = True
-        else:
-            status = False
-        return status
-
     def _check_id_pc(self, id_pc: Union[id_pc_type, np.ndarray]) -> None:
         """
         Checks if orbital or vacancy index in primitive cell representation
@@ -300,11 +284,17 @@ class OrbitalSet(Observable):
         self._prim_cell.verify_hoppings()
 
         # Get update flags
-        update_pc = self._update_attr_hash("pc")
-        update_vac = self._update_attr_hash("vac")
+        new_hash = {'pc': self._get_attr_hash('pc'),
+                    'vac': self._get_attr_hash('vac')}
+        update_pc = self._hash_dict['pc'] != new_hash['pc']
+        update_vac = self._hash_dict['vac'] != new_hash['vac']
         to_update = update_pc or update_vac
 
         if force_sync or to_update:
+            # The hashes are set only after the arrays have been updated.
+            # Otherwise, they will be out-of-date if we fail or are interrupted.
+            self._hash_dict = {'pc': None, 'vac': None}
+
             # Update self._vac_id_sc
             if self.num_vac == 0:
                 self._vac_id_sc = np.array([], dtype=np.int64)
@@ -323,6 +313,8 @@ class OrbitalSet(Observable):
             self._orb_id_pc = core.build_orb_id_pc(self._dim, self.num_orb_pc,
                                                    self._vac_id_sc)
 
+            self._hash_dict = new_hash
+
             # Re-lock primitive cell
             self._prim_cell.lock(f"supercell #{id(self)}")
 
-- 
2.43.0


From 9be784bd038bfae26acbddff72e9cba32f6c8da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:31 +0000
Subject: [PATCH 11/23] fix: keep integer hopping indices if the hopping
 modifier only overwrites existing terms

---
 tbplas/builder/super.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 27c9c76..16717ad 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -793,10 +793,10 @@ class SuperCell(OrbitalSet):
                     dr_new.append(dr_i)
 
             # Append additional hopping terms
-            hop_i = np.append(hop_i, hop_i_new)
-            hop_j = np.append(hop_j, hop_j_new)
-            hop_v = np.append(hop_v, hop_v_new)
             if len(dr_new) != 0:
+                hop_i = np.append(hop_i, hop_i_new)
+                hop_j = np.append(hop_j, hop_j_new)
+                hop_v = np.append(hop_v, hop_v_new)
                 dr = np.vstack((dr, dr_new))
         return hop_i, hop_j, hop_v, dr
 
-- 
2.43.0


From b4935846c15129d4947ee6bc536810d90ffc2cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:31 +0000
Subject: [PATCH 12/23] fix: Peierls phase of the symmetric gauge

---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index 9e7998e..79200be 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -68,7 +68,7 @@ def set_mag_field(long [::1] hop_i, long [::1] hop_j,
             dx, dy = dr[ih, 0], dr[ih, 1]
             sx = orb_pos[jj, 0] + orb_pos[ii, 0]
             sy = orb_pos[jj, 1] + orb_pos[ii, 1]
-            phase = factor * 0.5 * intensity * (dx * sx - dy * sy)
+            phase = factor * 0.5 * intensity * (dx * sy - dy * sx)
             hop_v[ih] = hop_v[ih] * (cos(phase) + 1j * sin(phase))
 
 
-- 
2.43.0


From bee9b49afb4defe3c768c6714f6bb23810d4af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:51 +0000
Subject: [PATCH 13/23] fix: protect a model again after every announced
 change, and refuse removals from locked inter-hopping sets

---
 tbplas/builder/base.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index 9e5daee..c05bc69 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -165,6 +165,8 @@ class Observable:
         for sub_name, sub_obj in self.__subscribers.items():
             print(f"Updating {sub_name}")
             sub_obj.update()
+            # Protect the object again, whether or not it has actually changed.
+            self.lock(sub_name)
 
 
 class IntraHopping:
@@ -488,6 +490,44 @@ class InterHopping(Observable, IntraHopping):
         self.check_lock()
         super().add_hopping(rn, orb_i, orb_j, energy)
 
+    def remove_hopping(self, rn: rn_type,
+                       orb_i: int,
+                       orb_j: int) -> bool:
+        """
+        Remove an existing hopping term.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :param orb_i: orbital index or bra
+        :param orb_j: orbital index of ket
+        :return: where the hopping term is removed, False if not found
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_hopping(rn, orb_i, orb_j)
+
+    def remove_orbitals(self, indices: Union[Iterable[int], np.ndarray]) -> None:
+        """
+        Remove the hopping terms corresponding to a list of orbitals and update
+        remaining hopping terms.
+
+        :param indices: indices of orbitals to remove
+        :return: None
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        super().remove_orbitals(indices)
+
+    def remove_rn(self, rn: rn_type) -> bool:
+        """
+        Remove all the hopping terms of given cell index.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :return: where the hopping terms are removed, False if not found
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_rn(rn)
+
 
 class HopDict:
     """
-- 
2.43.0


From 0c070029132d4d9761aacb8b6f0faa12beba9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:05 +0000
Subject: [PATCH 14/23] fix: check all arguments before changing a model, so
 that refused operations leave it unchanged

---
 tbplas/builder/advanced.py  | 22 ++++++++++++++++++---
 tbplas/builder/base.py      | 24 +++++++++++------------
 tbplas/builder/primitive.py | 29 +++++++++++++++++++--------
 tbplas/builder/sample.py    |  8 ++++++--
 tbplas/builder/super.py     | 39 +++++++++++++++++++++++++++----------
 5 files changed, 87 insertions(+), 35 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index c3a1c55..36d2dd9 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -269,6 +269,10 @@ def spiral_prim_cell(prim_cell: PrimitiveCell,
     # Reset lattice vectors and origin without fixing the orbitals
     prim_cell.reset_lattice(lat_vec, origin, unit=consts.NM, fix_orb=False)
 
+    # Nothing more to do if there are no orbitals
+    if prim_cell.num_orb == 0:
+        return
+
     # Shift orbitals along z-axis
     orb_pos = prim_cell.orb_pos_nm + np.array([0, 0, shift])
 
@@ -316,6 +320,7 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
         PrimitiveCell or PCInterHopping, or any inter_hop_dict involves primitive
         cells not included in args, or lattice vectors of primitive cells do not
         match
+    :raises LockError: if any primitive cell is locked
     :raises PCOrbIndexError: if any orbital index in any inter_hop_dict is out
         of range
     """
@@ -348,6 +353,10 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
         if hop.pc_ket not in pc_list:
             raise ValueError(f"pc_ket of inter_hop #{i_h} not included in args")
 
+    # Check locks before changing any of the primitive cells
+    for pc in pc_list:
+        pc.check_lock()
+
     # Get numbers of orbitals of each component
     num_orb = [pc.num_orb for pc in pc_list]
 
@@ -371,9 +380,11 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
 
     # Add orbitals
     for pc in pc_list:
-        pc.reset_lattice(lat_ref, origin_ref, unit=consts.NM, fix_orb=True)
-        for orb in pc.orbitals:
-            merged_cell.add_orbital(position=orb.position, energy=orb.energy,
+        if pc.num_orb == 0:
+            continue
+        orb_pos = cart2frac(lat_ref, pc.orb_pos_nm, origin_ref)
+        for orb, pos in zip(pc.orbitals, orb_pos):
+            merged_cell.add_orbital(position=tuple(pos), energy=orb.energy,
                                     label=orb.label)
 
     # Add intra-hopping terms
@@ -396,6 +407,11 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
                 orb_j = orb_pair[1] + offset_ket
                 merged_cell.add_hopping(rn, orb_i=orb_i, orb_j=orb_j,
                                         energy=energy)
+
+    # Reset the lattice of each component to that of the merged cell
+    # This is done at last, when nothing can go wrong any more.
+    for pc in pc_list:
+        pc.reset_lattice(lat_ref, origin_ref, unit=consts.NM, fix_orb=True)
     return merged_cell
 
 
diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index c05bc69..a9eb3e4 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -579,14 +579,14 @@ class HopDict:
             raise ValueError(f"Shape of hopping matrix {hop_mat.shape} does not "
                              f"match {self._mat_shape}")
 
+        # Check for diagonal terms
+        if rn == (0, 0, 0):
+            self._check_diag(hop_mat)
+
         # Set hopping matrix
         # We copy the hopping matrix to avoid changing it accidentally.
         self._hoppings[rn] = hop_mat.copy()
 
-        # Check for diagonal terms
-        if rn == (0, 0, 0):
-            self._check_diag()
-
     def __getitem__(self, rn: rn_type) -> np.ndarray:
         """
         Get the hopping matrix according to cell index.
@@ -619,20 +619,19 @@ class HopDict:
             raise exc.CellIndexLenError(rn)
         return rn
 
-    def _check_diag(self) -> None:
+    @staticmethod
+    def _check_diag(hop_mat: Union[coo_matrix, np.ndarray]) -> None:
         """
         Check for diagonal hopping terms (on-site energies).
 
+        :param hop_mat: hopping matrix of the (0, 0, 0) cell
         :return: None
         :raises PCHopDiagonalError: if on-site energies are included in hopping
             matrix
         """
-        rn = (0, 0, 0)
-        if rn in self._hoppings.keys():
-            hop_mat = self._hoppings[rn]
-            for i, energy in enumerate(np.abs(np.diag(hop_mat))):
-                if energy >= 1e-5:
-                    raise exc.PCHopDiagonalError(rn, i)
+        for i, energy in enumerate(np.abs(hop_mat.diagonal())):
+            if energy >= 1e-5:
+                raise exc.PCHopDiagonalError((0, 0, 0), i)
 
     def to_spare(self) -> None:
         """
@@ -642,7 +641,8 @@ class HopDict:
         :raises PCHopDiagonalError: if on-site energies are included in hopping
             matrix
         """
-        self._check_diag()
+        if (0, 0, 0) in self._hoppings.keys():
+            self._check_diag(self._hoppings[(0, 0, 0)])
         new_hoppings = dict()
         for rn, hop_mat in self._hoppings.items():
             new_hoppings[rn] = coo_matrix(hop_mat)
diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 3f810d6..6b314db 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -1,10 +1,11 @@
 """Functions and classes for manipulating the primitive cell."""
 
 import math
+import operator
 from typing import List, Tuple, Dict, Hashable, Union, Iterable, Callable
 
 import numpy as np
-from scipy.sparse import dia_matrix, dok_matrix, csr_matrix
+from scipy.sparse import coo_matrix, dia_matrix, dok_matrix, csr_matrix
 import matplotlib.pyplot as plt
 
 from ..base import constants as consts
@@ -336,13 +337,14 @@ class PrimitiveCell(Observable):
         # Check arguments
         self.check_lock()
 
+        indices = sorted(set(operator.index(orb_i) for orb_i in indices))
+        for orb_i in indices:
+            if not (0 <= orb_i < self.num_orb):
+                raise exc.PCOrbIndexError(orb_i)
+
         # Delete the orbitals
-        indices = sorted(set(indices))
         for i, orb_i in enumerate(indices):
-            try:
-                self._orbital_list.pop(orb_i - i)
-            except IndexError as err:
-                raise exc.PCOrbIndexError(orb_i) from err
+            self._orbital_list.pop(orb_i - i)
 
         # Delete associated hopping terms
         self._hopping_dict.remove_orbitals(indices)
@@ -379,15 +381,26 @@ class PrimitiveCell(Observable):
         :param hop_dict: hopping dictionary
         :return: None
         :raises LockError: if the primitive cell is locked
+        :raises PCOrbIndexError: if any orbital index falls out of range
+        :raises PCHopDiagonalError: if on-site energies are included in hopping
+            matrix
         """
         self.check_lock()
-        hop_dict.to_spare()
+
+        # Collect and check all the terms before adding any of them
+        hop_terms = []
         for rn, hop_mat in hop_dict.hoppings.items():
+            hop_mat = coo_matrix(hop_mat)
             for i in range(hop_mat.nnz):
                 orb_i = hop_mat.row.item(i)
                 orb_j = hop_mat.col.item(i)
                 hop_eng = hop_mat.data.item(i)
-                self.add_hopping(rn, orb_i, orb_j, hop_eng)
+                self._check_hop_index(rn, orb_i, orb_j)
+                hop_terms.append((rn, orb_i, orb_j, hop_eng))
+
+        # Add the terms
+        for rn, orb_i, orb_j, hop_eng in hop_terms:
+            self.add_hopping(rn, orb_i, orb_j, hop_eng)
 
     def get_hopping(self, rn: rn_type,
                     orb_i: int,
diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index ed6871c..242b000 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -80,8 +80,6 @@ class Sample(Observable):
                 self._hop_list.append(arg)
             else:
                 raise exc.SampleCompError(i_arg)
-            arg.add_subscriber(f"sample #{id(self)}", self)
-            arg.lock(f"sample #{id(self)}")
 
         # Check closure of inter-hopping instances
         for i_h, hop in enumerate(self._hop_list):
@@ -90,6 +88,12 @@ class Sample(Observable):
             if hop.sc_ket not in self._sc_list:
                 raise exc.SampleClosureError(i_h, "sc_ket")
 
+        # Lock supercells and inter-hopping terms
+        # This is done only if all the arguments are legal.
+        for arg in args:
+            arg.add_subscriber(f"sample #{id(self)}", self)
+            arg.lock(f"sample #{id(self)}")
+
         # Declare arrays
         # The actual initialization will be done on-demand in init_* methods.
         self.orb_eng = None
diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 16717ad..5f114b8 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -118,10 +118,8 @@ class OrbitalSet(Observable):
         """
         super().__init__()
 
-        # Set and lock the primitive cell
+        # Set the primitive cell
         self._prim_cell = prim_cell
-        self._prim_cell.add_subscriber(f"supercell #{id(self)}", self)
-        self._prim_cell.lock(f"supercell #{id(self)}")
         self._prim_cell.verify_orbitals()
         self._prim_cell.verify_hoppings()
 
@@ -156,6 +154,11 @@ class OrbitalSet(Observable):
         if vacancies is not None:
             self.add_vacancies(vacancies)
 
+        # Lock the primitive cell
+        # This is done only if all the arguments are legal.
+        self._prim_cell.add_subscriber(f"supercell #{id(self)}", self)
+        self._prim_cell.lock(f"supercell #{id(self)}")
+
     def __hash__(self) -> int:
         """Return the hash of this instance."""
         fp = (self._prim_cell, tuple(self._dim), tuple(self._pbc),
@@ -215,6 +218,25 @@ class OrbitalSet(Observable):
         else:
             raise exc.IDPCTypeError(id_pc)
 
+    def _check_vacancies(self, vacancies: Union[Iterable[id_pc_type], np.ndarray]) -> Set[id_pc_type]:
+        """
+        Check if all the vacancies in the list are legal.
+
+        :param vacancies: list of (ia, ib, ic, io) or equivalent int32 arrays
+            list of indices of vacancies in primitive cell representation
+        :return: set of vacancies
+        :raises IDPCLenError: if length of vacancy index is not 4
+        :raises IDPCIndexError: if cell or orbital index of vacancy is
+            out of range
+        """
+        vacancy_set = set()
+        for vacancy in vacancies:
+            if not isinstance(vacancy, tuple):
+                vacancy = tuple(vacancy)
+            self._check_id_pc(vacancy)
+            vacancy_set.add(vacancy)
+        return vacancy_set
+
     def add_vacancy(self, vacancy: Union[id_pc_type, np.ndarray]) -> None:
         """
         Wrapper over 'add_vacancies' to add a single vacancy to the orbital set.
@@ -243,11 +265,7 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
-        for vacancy in vacancies:
-            if not isinstance(vacancy, tuple):
-                vacancy = tuple(vacancy)
-            self._check_id_pc(vacancy)
-            self._vacancy_set.add(vacancy)
+        self._vacancy_set = self._vacancy_set | self._check_vacancies(vacancies)
 
     def set_vacancies(self, vacancies: Union[Iterable[id_pc_type], np.ndarray] = None) -> None:
         """
@@ -262,8 +280,9 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
-        self._vacancy_set = set()
-        self.add_vacancies(vacancies)
+        if vacancies is None:
+            vacancies = []
+        self._vacancy_set = self._check_vacancies(vacancies)
 
     def sync_array(self, force_sync: bool = False) -> None:
         """
-- 
2.43.0


From 5cc8a007ec8f5f29b13fab6ebadf7ead43139e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:35 +0000
Subject: [PATCH 15/23] fix: refuse inter-hopping terms whose orbitals do not
 exist

---
 tbplas/builder/advanced.py | 4 ++++
 tbplas/builder/super.py    | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index 36d2dd9..e9215c8 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -403,6 +403,10 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
         offset_ket = ind_start[pc_list.index(hop.pc_ket)]
         for rn, hop_terms in hop.hoppings.items():
             for orb_pair, energy in hop_terms.items():
+                if not (0 <= orb_pair[0] < hop.pc_bra.num_orb):
+                    raise exc.PCOrbIndexError(orb_pair[0])
+                if not (0 <= orb_pair[1] < hop.pc_ket.num_orb):
+                    raise exc.PCOrbIndexError(orb_pair[1])
                 orb_i = orb_pair[0] + offset_bra
                 orb_j = orb_pair[1] + offset_ket
                 merged_cell.add_hopping(rn, orb_i=orb_i, orb_j=orb_j,
diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 5f114b8..a110a3f 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -986,6 +986,7 @@ class SCInterHopping(InterHopping):
             distances of hopping terms in accordance with hop_i and hop_j in nm
         :raises InterHopVoidError: if no hopping terms have been added to the
             instance
+        :raises SCOrbIndexError: if any orbital index falls out of range
         :raises ValueError: if duplicate terms have been detected
         """
         if self.num_hop == 0:
@@ -998,6 +999,11 @@ class SCInterHopping(InterHopping):
         # Build dr
         pos_bra = self._sc_bra.get_orb_pos()
         pos_ket = self._sc_ket.get_orb_pos()
+        for hop_ind_x, num_orb in ((hop_i, pos_bra.shape[0]),
+                                   (hop_j, pos_ket.shape[0])):
+            illegal = (hop_ind_x < 0) | (hop_ind_x >= num_orb)
+            if np.any(illegal):
+                raise exc.SCOrbIndexError(hop_ind_x[illegal][0])
         dr = core.build_inter_dr(hop_ind, pos_bra, pos_ket,
                                  self._sc_ket.sc_lat_vec)
 
-- 
2.43.0


From c9d8c31b20b120d4c1b016f3cacaccaa83def45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 16/23] fix: return a copy of the energy grid from Lindhard

Converting the returned energies in place, e.g. to meV, changed the grid on which all
following calculations with the same object were performed.
---
 tbplas/diagonal/lindhard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 4b4b3a1..33bcdc8 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -418,7 +418,7 @@ class Lindhard(DiagSolver):
         # Transpose dyn_pol back
         if use_fortran:
             dyn_pol = dyn_pol.T
-        return self._omegas, dyn_pol
+        return self._omegas.copy(), dyn_pol
 
     def calc_dyn_pol_arbitrary(self, q_points: np.ndarray,
                                use_fortran: bool = True) -> Tuple[np.ndarray, np.ndarray]:
@@ -507,7 +507,7 @@ class Lindhard(DiagSolver):
         # Transpose dyn_pol back
         if use_fortran:
             dyn_pol = dyn_pol.T
-        return self._omegas, dyn_pol
+        return self._omegas.copy(), dyn_pol
 
     def _get_vq(self, q_point: np.ndarray) -> float:
         """
@@ -643,7 +643,7 @@ class Lindhard(DiagSolver):
                                       f"implemented")
         ac_cond *= prefactor
         ac_cond /= self._cell.extended
-        return self._omegas, ac_cond
+        return self._omegas.copy(), ac_cond
 
     def calc_epsilon_q0(self, omegas: np.ndarray,
                         ac_cond: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 11390c79b599a25c8f23c8cc9dec3a27feb3e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 17/23] fix: update the arrays of the model before calculating
 Z2 phases

Phases calculated after a change of the model were those of the model at the time when
the calculator was created.
---
 tbplas/diagonal/z2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index 35397f5..e3e17ef 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -141,6 +141,8 @@ class Z2(DiagSolver):
             phases: (num_kpt, num_occ) float64 array
             phases of WF centers
         """
+        self._update_array()
+
         # Allocate working arrays
         if ka_array is None:
             ka_array = np.linspace(-0.5, 0.5, 200)
-- 
2.43.0


From 9522643d7740f69abd8b1c5bfce8f58794a4f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 18/23] fix: do not reuse the dense matrices of a previous
 diagonalization

A DiagSolver could not be used any more after orbitals were added or removed, and gave
NaN forever after a NaN or inf had been in the model once.
---
 tbplas/diagonal/base.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/tbplas/diagonal/base.py b/tbplas/diagonal/base.py
index 2d55dad..a8b8d33 100644
--- a/tbplas/diagonal/base.py
+++ b/tbplas/diagonal/base.py
@@ -129,10 +129,6 @@ class DiagSolver(MPIEnv):
     __overlap: 'Overlap' instance
         container for holding overlaps for primitive cells with non-orthogonal
         orbitals
-    __h_mat: (num_orb, num_orb) complex128 array
-        dense Hamiltonian matrix
-    __s_mat: (num_orb, num_orb) complex128 array
-        dense overlap matrix for the general eigenvalue problem
     """
     def __init__(self, model: Any,
                  overlap: Any = None,
@@ -147,8 +143,6 @@ class DiagSolver(MPIEnv):
         super().__init__(enable_mpi=enable_mpi, echo_details=echo_details)
         self.__model = model
         self.__overlap = overlap
-        self.__h_mat = None
-        self.__s_mat = None
         self._update_array()
 
     @property
@@ -245,28 +239,21 @@ class DiagSolver(MPIEnv):
         :raises RuntimeError: if diagonalization failed
         """
         # Set up the Hamiltonian
-        if self.__h_mat is None:
-            self.__h_mat = np.zeros((self.num_orb, self.num_orb),
-                                    dtype=np.complex128)
-        else:
-            self.__h_mat *= 0.0
-        self.__model.set_ham_dense(k_point, self.__h_mat, convention)
+        # NOTE: the matrices must not be reused, since the number of orbitals
+        # may have changed, and NaN or inf would survive multiplication by 0.
+        h_mat = np.zeros((self.num_orb, self.num_orb), dtype=np.complex128)
+        self.__model.set_ham_dense(k_point, h_mat, convention)
 
         # Set up the overlap matrix
         if self.__overlap is not None:
-            if self.__s_mat is None:
-                self.__s_mat = np.zeros((self.num_orb, self.num_orb),
-                                        dtype=np.complex128)
-            else:
-                self.__s_mat *= 0.0
-            self.__overlap.set_overlap_dense(k_point, self.__s_mat, convention)
+            s_mat = np.zeros((self.num_orb, self.num_orb), dtype=np.complex128)
+            self.__overlap.set_overlap_dense(k_point, s_mat, convention)
 
         # Diagonalization
         if self.__overlap is None:
-            eigenvalues, eigenstates, info = lapack.zheev(self.__h_mat)
+            eigenvalues, eigenstates, info = lapack.zheev(h_mat)
         else:
-            eigenvalues, eigenstates, info = \
-                lapack.zhegv(self.__h_mat, self.__s_mat)
+            eigenvalues, eigenstates, info = lapack.zhegv(h_mat, s_mat)
         if info != 0:
             raise RuntimeError("Diagonalization failed")
         return eigenvalues, eigenstates
-- 
2.43.0


From 064be84ad1363e185e289e112e7fb8a1c8c3ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 19/23] fix: spin texture of the current model and k-grid

The states were kept as long as the hash of the k-grid was the same, so the spin texture
was that of the old model after a change of the model, that of the old k-grid if the hash
happened to be equal (hash(-1.0) == hash(-2.0)), and None.__getitem__ after an interruption.
---
 tbplas/diagonal/magnetic.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tbplas/diagonal/magnetic.py b/tbplas/diagonal/magnetic.py
index 4ca6696..b591e33 100644
--- a/tbplas/diagonal/magnetic.py
+++ b/tbplas/diagonal/magnetic.py
@@ -22,9 +22,7 @@ class SpinTexture(DiagSolver):
     _spin_major: bool
         whether the orbitals are stored in spin-major order
     _states: (num_kpt, num_orb) complex128 array
-        cache of wave functions
-    _hash_k: int
-        hash of k-grid
+        wave functions on the k-grid
     """
     def __init__(self, cell: Any,
                  k_grid: np.ndarray,
@@ -40,7 +38,6 @@ class SpinTexture(DiagSolver):
         self._k_grid = k_grid
         self._spin_major = spin_major
         self._states = None
-        self._hash_k = None
 
     def update_states(self) -> None:
         """
@@ -48,10 +45,10 @@ class SpinTexture(DiagSolver):
 
         :return: None
         """
-        hash_new = hash(tuple([tuple(_) for _ in self._k_grid]))
-        if self._hash_k != hash_new:
-            self._hash_k = hash_new
-            self._states = self.calc_states(self._k_grid, all_reduce=False)[1]
+        # NOTE: the states depend on the model as well as on the k-grid. Changes
+        # of the model cannot be detected in general, e.g. for those derived from
+        # FakePC. So we need to update the states in each calculation.
+        self._states = self.calc_states(self._k_grid, all_reduce=False)[1]
 
     def split_spin(self, state: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         """
-- 
2.43.0


From cf79bcf21afb0ab8bc03bfdbfcd54e85c3833550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:49 +0000
Subject: [PATCH 20/23] fix: estimate the rescaling factor from the original
 energies

If the sample had been rescaled before, the factor was estimated from the rescaled
energies, i.e. too small, so the propagation of wave functions diverged.
---
 tbplas/builder/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index 242b000..eaeb389 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -318,8 +318,9 @@ class Sample(Observable):
         self.init_orb_eng()
         self.init_hop()
         if factor is None:
+            # The energies may have been rescaled already.
             factor = core.get_rescale(self.orb_eng, self.hop_i, self.hop_j,
-                                      self.hop_v)
+                                      self.hop_v) * self._rescale
         self.orb_eng *= (self._rescale / factor)
         self.hop_v *= (self._rescale / factor)
         self._rescale = factor
-- 
2.43.0


From 44a709cbee8f474b1ad68f7e4ec1428bd3586bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:21 +0000
Subject: [PATCH 21/23] fix: leave the sample as it was if resetting the arrays
 fails

Sample.reset_array replaced the orbital energies and positions before
building the hopping terms. If the latter failed, e.g. because an inter-
hopping set is empty, a mixture of reset and rescaled arrays was left behind.
---
 tbplas/builder/sample.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index eaeb389..e23ad8b 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -213,12 +213,20 @@ class Sample(Observable):
         :raises ValueError: if duplicate terms have been detected in any
             inter-hopping
         """
-        if self.orb_eng is not None:
-            self.init_orb_eng(force_init=True)
-        if self.orb_pos is not None:
-            self.init_orb_pos(force_init=True)
-        if self.hop_i is not None:
-            self.init_hop(force_init=True)
+        backup = (self.orb_eng, self.orb_pos, self.hop_i, self.hop_j,
+                  self.hop_v, self.dr, self._rescale)
+        try:
+            if self.orb_eng is not None:
+                self.init_orb_eng(force_init=True)
+            if self.orb_pos is not None:
+                self.init_orb_pos(force_init=True)
+            if self.hop_i is not None:
+                self.init_hop(force_init=True)
+        except BaseException:
+            # Never leave a mixture of reset and modified arrays behind.
+            (self.orb_eng, self.orb_pos, self.hop_i, self.hop_j,
+             self.hop_v, self.dr, self._rescale) = backup
+            raise
         for arg in self._sc_list:
             arg.lock(f"sample #{id(self)}")
         for arg in self._hop_list:
-- 
2.43.0


From 586aebbf1b9493b6d3ba62e92fbcd1bf4e5caf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:01 +0000
Subject: [PATCH 22/23] fix: convert q-points given as a list in
 Lindhard.calc_epsilon

---
 tbplas/diagonal/lindhard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 33bcdc8..b377d54 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -539,7 +539,7 @@ class Lindhard(DiagSolver):
             relative dielectric function
         """
         if not isinstance(q_points, np.ndarray):
-            q_points = np.ndarray(q_points, dtype=np.float64)
+            q_points = np.array(q_points, dtype=np.float64)
         num_qpt = q_points.shape[0]
         num_omega = self._omegas.shape[0]
         epsilon = np.zeros((num_qpt, num_omega), dtype=np.complex128)
-- 
2.43.0


From a94baeb02179cb4bf48097f5e8a6e448d2c71997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:01 +0000
Subject: [PATCH 23/23] fix: make plot_wfc3d work with its default number of
 replicas

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index 88e8070..038690d 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -503,7 +503,7 @@ class Visualizer(MPIEnv):
             k_point = [0, 0, 0]
         k_point = np.array(k_point, dtype=np.float64)
         if rn_max is None:
-            rn_max = np.zeros(3)
+            rn_max = np.zeros(3, dtype=np.int32)
         rn_frac = np.array([(i, j, k)
                             for i in range(-rn_max[0], rn_max[0] + 1)
                             for j in range(-rn_max[1], rn_max[1] + 1)
-- 
2.43.0

