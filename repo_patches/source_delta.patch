From c9bf85b5a1c4e60d1d3f7c5bd0ecc80f4a731999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:39 +0000
Subject: [PATCH 01/40] fix: arrays of PrimitiveCell miss edits whose values
 share the same hash

---
 tbplas/builder/primitive.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 207d0a8..df5f323 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -67,8 +67,9 @@ class PrimitiveCell(Observable):
         container of hopping terms in the primitive cell
         Only half of the hopping terms are stored. Conjugate terms are added
         automatically when constructing the Hamiltonian.
-    _hash_dict: Dict[str, int]
-        hashes of attributes to be used by 'sync_*' methods to update the arrays
+    _hash_dict: Dict[str, tuple]
+        snapshots of attributes to be used by 'sync_*' methods to update the
+        arrays
     _orb_pos: (num_orb, 3) float64 array
         FRACTIONAL positions of all orbitals
     _orb_eng: (num_orb,) float64 array
@@ -136,18 +137,21 @@ class PrimitiveCell(Observable):
               self._hopping_dict, self.extended)
         return hash(fp)
 
-    def _get_attr_hash(self, attr: str) -> int:
+    def _get_attr_hash(self, attr: str) -> tuple:
         """
-        Get the hash of given attribute.
+        Get the fingerprint of given attribute.
+
+        NOTE: the built-in hash function cannot be utilized here since different
+        values may share the same hash, e.g., hash(-1.0) == hash(-2.0).
 
         :param attr: name of the attribute
-        :return: hash of the attribute
+        :return: fingerprint of the attribute
         :raises ValueError: if attr is illegal
         """
         if attr == "orb":
-            new_hash = hash(tuple(self._orbital_list))
+            new_hash = tuple(self._orbital_list)
         elif attr == "hop":
-            new_hash = hash(self._hopping_dict)
+            new_hash = tuple(self._hopping_dict.to_list())
         else:
             raise ValueError(f"Illegal attribute name {attr}")
         return new_hash
-- 
2.43.0


From c7fb28cc034dadbcc5b04e3ef85514da99876fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:39 +0000
Subject: [PATCH 02/40] fix: remove_orbitals corrupts the cell for negative or
 out-of-range indices

---
 tbplas/builder/primitive.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index df5f323..8a260e5 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -352,13 +352,14 @@ class PrimitiveCell(Observable):
         # Check arguments
         self.check_lock()
 
-        # Delete the orbitals
         indices = sorted(set(indices))
+        for orb_i in indices:
+            if not (0 <= orb_i < self.num_orb):
+                raise exc.PCOrbIndexError(orb_i)
+
+        # Delete the orbitals
         for i, orb_i in enumerate(indices):
-            try:
-                self._orbital_list.pop(orb_i - i)
-            except IndexError as err:
-                raise exc.PCOrbIndexError(orb_i) from err
+            self._orbital_list.pop(orb_i - i)
 
         # Delete associated hopping terms
         self._hopping_dict.remove_orbitals(indices)
-- 
2.43.0


From a4eb827323a9e5f11cf484f7ddfdd60c1d8889a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:56 +0000
Subject: [PATCH 03/40] fix: a HopDict with intra-cell terms cannot be added to
 a second cell

---
 tbplas/builder/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index 9e5daee..6ed6297 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -590,7 +590,7 @@ class HopDict:
         rn = (0, 0, 0)
         if rn in self._hoppings.keys():
             hop_mat = self._hoppings[rn]
-            for i, energy in enumerate(np.abs(np.diag(hop_mat))):
+            for i, energy in enumerate(np.abs(hop_mat.diagonal())):
                 if energy >= 1e-5:
                     raise exc.PCHopDiagonalError(rn, i)
 
-- 
2.43.0


From 73a0f83d4bbc07b13502c2ecb038498ca1c6e667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:56 +0000
Subject: [PATCH 04/40] fix: a rejected HopDict leaves part of its terms in the
 cell

---
 tbplas/builder/primitive.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 8a260e5..5d021ef 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -396,15 +396,20 @@ class PrimitiveCell(Observable):
         :param hop_dict: hopping dictionary
         :return: None
         :raises LockError: if the primitive cell is locked
+        :raises PCOrbIndexError: if any orbital index falls out of range
         """
         self.check_lock()
         hop_dict.to_spare()
+        hop_terms = []
         for rn, hop_mat in hop_dict.hoppings.items():
             for i in range(hop_mat.nnz):
                 orb_i = hop_mat.row.item(i)
                 orb_j = hop_mat.col.item(i)
                 hop_eng = hop_mat.data.item(i)
-                self.add_hopping(rn, orb_i, orb_j, hop_eng)
+                self._check_hop_index(rn, orb_i, orb_j)
+                hop_terms.append((rn, orb_i, orb_j, hop_eng))
+        for rn, orb_i, orb_j, hop_eng in hop_terms:
+            self.add_hopping(rn, orb_i, orb_j, hop_eng)
 
     def get_hopping(self, rn: rn_type,
                     orb_i: int,
-- 
2.43.0


From 714300de6efe09c2845a7de7b0c6d07ab3c65db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:17 +0000
Subject: [PATCH 05/40] fix: DiagSolver keeps matrices of the old size after
 orbitals are added to the model

---
 tbplas/diagonal/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/base.py b/tbplas/diagonal/base.py
index 2d55dad..31fe00e 100644
--- a/tbplas/diagonal/base.py
+++ b/tbplas/diagonal/base.py
@@ -245,7 +245,7 @@ class DiagSolver(MPIEnv):
         :raises RuntimeError: if diagonalization failed
         """
         # Set up the Hamiltonian
-        if self.__h_mat is None:
+        if self.__h_mat is None or len(self.__h_mat) != self.num_orb:
             self.__h_mat = np.zeros((self.num_orb, self.num_orb),
                                     dtype=np.complex128)
         else:
@@ -254,7 +254,7 @@ class DiagSolver(MPIEnv):
 
         # Set up the overlap matrix
         if self.__overlap is not None:
-            if self.__s_mat is None:
+            if self.__s_mat is None or len(self.__s_mat) != self.num_orb:
                 self.__s_mat = np.zeros((self.num_orb, self.num_orb),
                                         dtype=np.complex128)
             else:
-- 
2.43.0


From ac432ffd3d81682395982c1e6fd8e88a7c0dbce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:27 +0000
Subject: [PATCH 06/40] fix: reshape_prim_cell misses orbitals of skewed cells
 and orbitals outside the home cell

---
 tbplas/builder/advanced.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index c3a1c55..49f4490 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -181,24 +181,23 @@ def reshape_prim_cell(prim_cell: PrimitiveCell,
     res_cell.extended = prim_cell.extended * (vol_res / vol_prim)
 
     # Determine searching range
-    # sum_vec is actually a0+a1, a1+a2 or a2+a0 depending on j, i.e., the
-    # diagonal vector. If it is not taken into consideration, orbitals and
-    # hopping terms in the top right corner of reshaped cell may be missing.
+    # All the corners of the reshaped cell should be taken into consideration.
+    # Otherwise, orbitals and hopping terms may be missing. The orbitals may
+    # also fall out of the (0, 0, 0) primitive cell.
+    orb_pos = prim_cell.orb_pos
+    corners = np.array([(ia, ib, ic) for ia in range(2) for ib in range(2)
+                        for ic in range(2)]) @ lat_frac
     rn_range = np.zeros((3, 2), dtype=np.int32)
-    for i in range(3):
-        sum_vec = lat_frac.sum(axis=0) - lat_frac[i]
-        for j in range(3):
-            rn_range[j, 0] = min(rn_range[j, 0], floor(sum_vec[j]))
-            rn_range[j, 1] = max(rn_range[j, 1], ceil(sum_vec[j]))
-    rn_range[:, 0] -= 1
-    rn_range[:, 1] += 1
+    for j in range(3):
+        pos_j = orb_pos[:, j] if prim_cell.num_orb > 0 else np.zeros(1)
+        rn_range[j, 0] = floor(np.min(corners[:, j]) - np.max(pos_j)) - 1
+        rn_range[j, 1] = ceil(np.max(corners[:, j]) - np.min(pos_j)) + 1
 
     # Function for getting cell index from fractional coordinates
     def _get_cell_index(x):
         return floor(x.item(0)), floor(x.item(1)), floor(x.item(2))
 
     # Add orbitals
-    orb_pos = prim_cell.orb_pos
     orb_map = OrbitalMap()
     for i_a in range(rn_range.item(0, 0), rn_range.item(0, 1)+1):
         for i_b in range(rn_range.item(1, 0), rn_range.item(1, 1)+1):
-- 
2.43.0


From 3e0348f8bc90fc9ac5350b3fa0eef5bb8460305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:26 +0000
Subject: [PATCH 07/40] fix: merge_prim_cell resets 'extended' only if the
 first cell has the smaller value

---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index 49f4490..bb53f4d 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -362,7 +362,7 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
     # Determine the 'extended' attribute
     extended = pc_list[0].extended
     for pc in pc_list:
-        if (pc.extended - extended) >= 1.e-3:
+        if abs(pc.extended - extended) >= 1.e-3:
             print(f"INFO: resetting extend to 1.0")
             extended = 1.0
             break
-- 
2.43.0


From 91e83eb5e13086051eead1b846bc8bac09856895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:26 +0000
Subject: [PATCH 08/40] fix: merge_prim_cell modifies its arguments and rejects
 locked cells

---
 tbplas/builder/advanced.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index bb53f4d..d916754 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -370,9 +370,11 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
 
     # Add orbitals
     for pc in pc_list:
-        pc.reset_lattice(lat_ref, origin_ref, unit=consts.NM, fix_orb=True)
-        for orb in pc.orbitals:
-            merged_cell.add_orbital(position=orb.position, energy=orb.energy,
+        if pc.num_orb == 0:
+            continue
+        orb_pos = cart2frac(lat_ref, pc.orb_pos_nm, origin_ref)
+        for pos, orb in zip(orb_pos, pc.orbitals):
+            merged_cell.add_orbital(position=tuple(pos), energy=orb.energy,
                                     label=orb.label)
 
     # Add intra-hopping terms
-- 
2.43.0


From 23a7ae362faf2b03741895123ac4280bffd3cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 09/40] fix: set_vacancies fails with its default argument

---
 tbplas/builder/super.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 24b0958..ad27327 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -279,7 +279,8 @@ class OrbitalSet(Observable):
         """
         self.check_lock()
         self._vacancy_set = set()
-        self.add_vacancies(vacancies)
+        if vacancies is not None:
+            self.add_vacancies(vacancies)
 
     def sync_array(self, force_sync: bool = False) -> None:
         """
-- 
2.43.0


From 98435a9003ba3901a132a9bc4727b61610cd25f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 10/40] fix: orb_id_sc2pc accepts negative indices

---
 tbplas/builder/super.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index ad27327..e6945a2 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -341,11 +341,9 @@ class OrbitalSet(Observable):
         :raises IDSCIndexError: if id_sc is out of range
         """
         self.sync_array()
-        try:
-            id_pc = self._orb_id_pc[id_sc]
-        except IndexError as err:
-            raise exc.IDSCIndexError(id_sc) from err
-        return id_pc
+        if not (0 <= id_sc < self.num_orb_sc):
+            raise exc.IDSCIndexError(id_sc)
+        return self._orb_id_pc[id_sc]
 
     def orb_id_pc2sc(self, id_pc: Union[id_pc_type, np.ndarray]) -> int:
         """
-- 
2.43.0


From e17d1515bd3e807150a9e4dda3e492f71ce32fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:50 +0000
Subject: [PATCH 11/40] fix: get_hop returns float indices if the modifier only
 overwrites existing terms

---
 tbplas/builder/super.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index e6945a2..e12f1b5 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -800,10 +800,12 @@ class SuperCell(OrbitalSet):
                     dr_new.append(dr_i)
 
             # Append additional hopping terms
-            hop_i = np.append(hop_i, hop_i_new)
-            hop_j = np.append(hop_j, hop_j_new)
-            hop_v = np.append(hop_v, hop_v_new)
+            # NOTE: appending empty lists will change the types of hop_i and
+            # hop_j from integer to float.
             if len(dr_new) != 0:
+                hop_i = np.append(hop_i, hop_i_new)
+                hop_j = np.append(hop_j, hop_j_new)
+                hop_v = np.append(hop_v, hop_v_new)
                 dr = np.vstack((dr, dr_new))
         return hop_i, hop_j, hop_v, dr
 
-- 
2.43.0


From 62c5b9dc07c28f05620abbf6e82c42e50e040315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:30 +0000
Subject: [PATCH 12/40] fix: symmetric gauge of set_magnetic_field gives wrong
 Peierls phases

---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index c48e522..90e3d0c 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -68,7 +68,7 @@ def set_mag_field(long [::1] hop_i, long [::1] hop_j,
             dx, dy = dr[ih, 0], dr[ih, 1]
             sx = orb_pos[jj, 0] + orb_pos[ii, 0]
             sy = orb_pos[jj, 1] + orb_pos[ii, 1]
-            phase = factor * 0.5 * intensity * (dx * sx - dy * sy)
+            phase = factor * 0.5 * intensity * (dx * sy - dy * sx)
             hop_v[ih] = hop_v[ih] * (cos(phase) + 1j * sin(phase))
 
 
-- 
2.43.0


From 5a4299590eaf2e498c1c213138f5391471bcf395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:52 +0000
Subject: [PATCH 13/40] fix: automatic rescaling factor ignores the sign of
 on-site energies and may not bound the spectrum

---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index 90e3d0c..dfa7fc2 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -104,7 +104,7 @@ def get_rescale(double [::1] orb_eng, long [::1] hop_i, long [::1] hop_j,
 
     ham_sum = np.zeros(num_orb_sc, dtype=np.float64)
     for io in range(num_orb_sc):
-        ham_sum[io] = orb_eng[io]
+        ham_sum[io] = abs(orb_eng[io])
     for ih in range(num_hop_sc):
         ii, jj = hop_i[ih], hop_j[ih]
         hop_abs = sqrt(hop_v[ih].real**2 + hop_v[ih].imag**2)
-- 
2.43.0


From c52a5f72402442fe562acac5ee455b9b89754a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:52 +0000
Subject: [PATCH 14/40] fix: automatic rescaling of an already rescaled sample
 undoes the rescaling

---
 tbplas/builder/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index b164df4..406de2a 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -292,8 +292,9 @@ class Sample(Observable):
         self.init_orb_eng()
         self.init_hop()
         if factor is None:
-            factor = core.get_rescale(self.orb_eng, self.hop_i, self.hop_j,
-                                      self.hop_v)
+            # NOTE: the arrays may have already been rescaled.
+            factor = self._rescale * core.get_rescale(self.orb_eng, self.hop_i,
+                                                      self.hop_j, self.hop_v)
         self.orb_eng *= (self._rescale / factor)
         self.hop_v *= (self._rescale / factor)
         self._rescale = factor
-- 
2.43.0


From 56480ef9466b1d0d4b72de2560629548e289412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:28 +0000
Subject: [PATCH 15/40] fix: frac2cart fails for coordinates given as lists

---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index e91babb..c09ff17 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -116,7 +116,7 @@ def frac2cart(lattice_vectors: np.ndarray,
     if not isinstance(lattice_vectors, np.ndarray):
         lattice_vectors = np.array(lattice_vectors)
     if not isinstance(fractional_coordinates, np.ndarray):
-        fractional_coordinates = np.ndarray(fractional_coordinates)
+        fractional_coordinates = np.array(fractional_coordinates)
     cartesian_coordinates = np.zeros(fractional_coordinates.shape)
     conversion_matrix = lattice_vectors.T
     for i, row in enumerate(fractional_coordinates):
-- 
2.43.0


From bc8c848a6c09159cf4d1af006802b1ee46c214bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:28 +0000
Subject: [PATCH 16/40] fix: rotate_coord truncates the result for integer
 coordinates

---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index c09ff17..8c34da5 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -172,7 +172,7 @@ def rotate_coord(coord: np.ndarray,
     rot_mat = cos_ang * np.eye(3) + sin_ang * u_prod + (1 - cos_ang) * u_tens
 
     # Rotate coordinates
-    coord_rot = np.zeros(shape=coord.shape, dtype=coord.dtype)
+    coord_rot = np.zeros(shape=coord.shape)
     for i in range(coord.shape[0]):
         coord_rot[i] = np.matmul(rot_mat, coord[i] - center) + center
     return coord_rot
-- 
2.43.0


From 2ce6a6f78fa4a87b70c731a0525e26495c13fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:18 +0000
Subject: [PATCH 17/40] fix: wan2pc ignores the degeneracies of R-vectors in
 seed_name_hr.dat

---
 tbplas/adapter/wannier90.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index 1068cba..104f4d3 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -91,14 +91,20 @@ def read_hop(seed_name: str = "wannier90") -> Tuple[List[rn5_type], List[complex
     """
     with open(f"{seed_name}_hr.dat", "r") as hr_file:
         hr_content = hr_file.readlines()
+    num_wan = int(hr_content[1])
     nl_hopping = int(hr_content[2])
     nl_skip = 3 + int(np.ceil(nl_hopping / 15))
+
+    # Degeneracies of R-vectors, in the same order as the blocks of num_wan**2
+    # hopping terms. The terms should be divided by the degeneracies.
+    num_deg = [int(x) for line in hr_content[3:nl_skip] for x in line.split()]
     hop_ind, hop_eng = [], []
-    for line in hr_content[nl_skip:]:
+    for i_h, line in enumerate(hr_content[nl_skip:]):
         data = line.split()
         ind = (int(data[0]), int(data[1]), int(data[2]),
                int(data[3])-1, int(data[4])-1)
         eng = float(data[5]) + 1j * float(data[6])
+        eng /= num_deg[i_h // num_wan**2]
         hop_ind.append(ind)
         hop_eng.append(eng)
     return hop_ind, hop_eng
-- 
2.43.0


From 5c2e189def73cd472fdd31cb9e7e1a1d3018e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:18 +0000
Subject: [PATCH 18/40] fix: wan2pc loses hopping terms if corrections of
 seed_name_wsvec.dat move them to the same place

---
 tbplas/adapter/wannier90.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index 104f4d3..57f7ba9 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -152,23 +152,17 @@ def apply_wsvec(wsvec: dict,
     :param hop_eng: hopping energies in eV
     :return: None
     """
-    for ind_0 in wsvec.keys():
-        # Back up and reset original hopping term
-        ih_0 = hop_ind.index(ind_0)
-        eng_bak = hop_eng[ih_0]
-        hop_eng[ih_0] = 0.0
-
-        # Apply correction vector
-        num_vec = len(wsvec[ind_0])
-        for vec in wsvec[ind_0]:
+    # NOTE: different hopping terms may be moved to the same place. So the
+    # contributions must be accumulated without touching the original terms.
+    hop_new = dict()
+    for ind_0, eng_0 in zip(hop_ind, hop_eng):
+        sites_cor = wsvec.get(ind_0, [(0, 0, 0)])
+        for vec in sites_cor:
             ind_1 = (ind_0[0] + vec[0], ind_0[1] + vec[1], ind_0[2] + vec[2],
                      ind_0[3], ind_0[4])
-            if ind_1 in hop_ind:
-                ih_1 = hop_ind.index(ind_1)
-                hop_eng[ih_1] = eng_bak / num_vec
-            else:
-                hop_ind.append(ind_1)
-                hop_eng.append(eng_bak / num_vec)
+            hop_new[ind_1] = hop_new.get(ind_1, 0.0) + eng_0 / len(sites_cor)
+    hop_ind[:] = hop_new.keys()
+    hop_eng[:] = hop_new.values()
 
 
 def wan2pc(seed_name: str = "wannier90",
-- 
2.43.0


From 4f8642c9e3b392609db00f31c868cd4a11230d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:35 +0000
Subject: [PATCH 19/40] fix: calc_epsilon of Lindhard fails for q-points given
 as a list

---
 tbplas/diagonal/lindhard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 9fe8e13..01248e9 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -539,7 +539,7 @@ class Lindhard(DiagSolver):
             relative dielectric function
         """
         if not isinstance(q_points, np.ndarray):
-            q_points = np.ndarray(q_points, dtype=np.float64)
+            q_points = np.array(q_points, dtype=np.float64)
         num_qpt = q_points.shape[0]
         num_omega = self._omegas.shape[0]
         epsilon = np.zeros((num_qpt, num_omega), dtype=np.complex128)
-- 
2.43.0


From 2ea538272623c8f80af6c967fe6e33d786b234df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:40 +0000
Subject: [PATCH 20/40] fix: SpinTexture keeps the wave functions of the old
 model or k-grid

---
 tbplas/diagonal/magnetic.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/tbplas/diagonal/magnetic.py b/tbplas/diagonal/magnetic.py
index 4ca6696..4b9f83d 100644
--- a/tbplas/diagonal/magnetic.py
+++ b/tbplas/diagonal/magnetic.py
@@ -22,9 +22,7 @@ class SpinTexture(DiagSolver):
     _spin_major: bool
         whether the orbitals are stored in spin-major order
     _states: (num_kpt, num_orb) complex128 array
-        cache of wave functions
-    _hash_k: int
-        hash of k-grid
+        wave functions on the k-grid
     """
     def __init__(self, cell: Any,
                  k_grid: np.ndarray,
@@ -40,7 +38,6 @@ class SpinTexture(DiagSolver):
         self._k_grid = k_grid
         self._spin_major = spin_major
         self._states = None
-        self._hash_k = None
 
     def update_states(self) -> None:
         """
@@ -48,10 +45,7 @@ class SpinTexture(DiagSolver):
 
         :return: None
         """
-        hash_new = hash(tuple([tuple(_) for _ in self._k_grid]))
-        if self._hash_k != hash_new:
-            self._hash_k = hash_new
-            self._states = self.calc_states(self._k_grid, all_reduce=False)[1]
+        self._states = self.calc_states(self._k_grid, all_reduce=False)[1]
 
     def split_spin(self, state: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         """
-- 
2.43.0


From 88ae99d2ce65b83f4f1fd2f1a212586b74544e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:41 +0000
Subject: [PATCH 21/40] fix: count_crossing misses crossings at which a phase
 equals the reference value

---
 tbplas/diagonal/z2.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index 35397f5..b81cddd 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -287,14 +287,14 @@ class Z2(DiagSolver):
         :param phase_ref: reference value
         :return: number of crossing
         """
-        num_kpt = phases.shape[0]
         num_occ = phases.shape[1]
         num_crossing = 0
-        for ik in range(0, num_kpt - 1):
-            for ib in range(num_occ):
-                d1 = phases.item(ik, ib) - phase_ref
-                d2 = phases.item(ik+1, ib) - phase_ref
-                if d1 * d2 < 0.0:
+        for ib in range(num_occ):
+            # Phases equal to phase_ref are on neither side and must be skipped
+            diff = phases[:, ib] - phase_ref
+            diff = diff[diff != 0.0]
+            for ik in range(0, diff.shape[0] - 1):
+                if diff.item(ik) * diff.item(ik+1) < 0.0:
                     num_crossing += 1
         return num_crossing
 
-- 
2.43.0


From e3fc462493bbb098578bf6b71e4984922374eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:20 +0000
Subject: [PATCH 22/40] fix: calc_phases of Z2 misses changes of the model

---
 tbplas/diagonal/z2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index b81cddd..bc36c6a 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -141,6 +141,8 @@ class Z2(DiagSolver):
             phases: (num_kpt, num_occ) float64 array
             phases of WF centers
         """
+        self._update_array()
+
         # Allocate working arrays
         if ka_array is None:
             ka_array = np.linspace(-0.5, 0.5, 200)
-- 
2.43.0


From 1c4a77bb0e9a8565ca2eb34f67c10bc5d2e08dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:39 +0000
Subject: [PATCH 23/40] fix: AC correlation function at time zero is never
 stored

---
 tbplas/fortran/tbpm.f90 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tbplas/fortran/tbpm.f90 b/tbplas/fortran/tbpm.f90
index e49df30..fd77fe9 100644
--- a/tbplas/fortran/tbpm.f90
+++ b/tbplas/fortran/tbpm.f90
@@ -301,6 +301,12 @@ SUBROUTINE tbpm_accond(Bes, n_Bes, beta, mu, s_indptr, n_indptr, &
             REAL(corrval(4)), AIMAG(corrval(4))
 #endif
 
+        ! update output array
+        corr(1, 1) = corr(1, 1) + corrval(1) / n_ran_samples
+        corr(2, 1) = corr(2, 1) + corrval(2) / n_ran_samples
+        corr(3, 1) = corr(3, 1) + corrval(3) / n_ran_samples
+        corr(4, 1) = corr(4, 1) + corrval(4) / n_ran_samples
+
         ! iterate over time
         ! Norm check is performed for psi2. It can also be done for psi1_x
         ! and psi1_y.
-- 
2.43.0


From 3d176bae6d34cbb2af889eb18eab930c7a42e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:39 +0000
Subject: [PATCH 24/40] fix: Haydock recursion returns NaN if the chain
 terminates exactly

---
 tbplas/fortran/propagation.f90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tbplas/fortran/propagation.f90 b/tbplas/fortran/propagation.f90
index cc68b7f..f67c24b 100644
--- a/tbplas/fortran/propagation.f90
+++ b/tbplas/fortran/propagation.f90
@@ -126,6 +126,9 @@ SUBROUTINE Haydock_coef(n1, n_depth, H_csr, H_rescale, coefa, coefb)
     coefa(1) = inner_prod(n1, n_buf)   ! a1 = <n1|H|n1> = <n1|n_buf>
     CALL axpy(-coefa(1), n1, n_buf)    ! m2 = (H - a1)|n1> = |n_buf> - a1|n1>
     coefb(1) = norm(n_buf)             ! b2 = |m2|
+    coefa(2:) = 0D0
+    coefb(2:) = 0D0
+    IF (coefb(1) == 0D0) RETURN        ! the chain terminates exactly
     n2 = n_buf / coefb(1)              ! n2 = m2 / b2
 
     ! initialize pointers
@@ -144,6 +147,7 @@ SUBROUTINE Haydock_coef(n1, n_depth, H_csr, H_rescale, coefa, coefb)
         ! mi+1 = (H - ai)|ni> - bi|ni-1> = n_buf - ai|ni> - bi|ni-1>
         CALL axpbypz(-coefa(i), p2, -coefb(i-1), p1, p_buf)
         coefb(i) = norm(p_buf)             ! bi+1 = |mi+1|
+        IF (coefb(i) == 0D0) RETURN        ! the chain terminates exactly
         p_buf = p_buf / coefb(i)           ! ni+1 = mi+1 / bi+1
 
         ! update pointers
-- 
2.43.0


From c588838c5b2c7f45af4b51d06c49a91ffc73b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:39 +0000
Subject: [PATCH 25/40] fix: time steps needing less than 3 Bessel functions
 read out of bounds

---
 tbplas/tbpm/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tbplas/tbpm/solver.py b/tbplas/tbpm/solver.py
index 7dbbbc7..99321a7 100644
--- a/tbplas/tbpm/solver.py
+++ b/tbplas/tbpm/solver.py
@@ -221,6 +221,10 @@ class Solver(MPIEnv):
         # Check and return results
         if not converged:
             raise ValueError("Bessel_max too low")
+
+        # The propagator takes at least 3 terms
+        while len(bessel_series) < 3:
+            bessel_series.append(spec.jv(len(bessel_series), time_scaled))
         return bessel_series
 
     def _get_beta_mu_re(self) -> Tuple[float, float]:
-- 
2.43.0


From 91ce2c0a8a2ca6b61dd07ca1f87a77a29ffc8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:53 +0000
Subject: [PATCH 26/40] fix: spin degeneracy is counted twice in calc_dc_cond

---
 tbplas/tbpm/analysis.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tbplas/tbpm/analysis.py b/tbplas/tbpm/analysis.py
index 787aa81..3b3ca97 100644
--- a/tbplas/tbpm/analysis.py
+++ b/tbplas/tbpm/analysis.py
@@ -448,10 +448,8 @@ class Analyzer(MPIEnv):
                         c_exp = cos(phi) - 1j * sin(phi)
                         add_dcv = w * (c_exp * corr_dc.item(i, j, k)).real
                         dc_val += add_dcv
+                    # dos_val has already been corrected for spin
                     dc[i, j] = dc_prefactor * t_step * dos_val * dc_val
-            # correct for spin
-            if self._config.generic['correct_spin']:
-                dc = 2. * dc
         else:
             pass
         self.bcast(dc)
-- 
2.43.0


From 3c04f393d22d515129e317ec67a4463c29e976d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:53 +0000
Subject: [PATCH 27/40] fix: dist_bound fails if there are more processes than
 items

---
 tbplas/parallel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tbplas/parallel.py b/tbplas/parallel.py
index c5dac5e..5723e18 100644
--- a/tbplas/parallel.py
+++ b/tbplas/parallel.py
@@ -110,13 +110,14 @@ class MPIEnv:
     def dist_bound(self, n_max: int) -> Tuple[int, int]:
         """
         Same as dist_range, but returns the lower and upper bounds.
-        Both of the bounds are close, i.e. [i_min, i_max].
+        Both of the bounds are close, i.e. [i_min, i_max]. If nothing is
+        assigned to this process, i_max is i_min - 1.
 
         :param n_max: upper bound of range
         :return: lower and upper bounds of subrange assigned to this process
         """
         i_index = self.dist_range(n_max)
-        i_min, i_max = min(i_index), max(i_index)
+        i_min, i_max = i_index.start, i_index.stop - 1
         return i_min, i_max
 
     def reduce(self, data_local: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 1f942bb2233cadf1caae19506f1d484c4a72ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:53 +0000
Subject: [PATCH 28/40] fix: dynamic polarisation of several q-points is summed
 repeatedly under MPI

---
 tbplas/diagonal/lindhard.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 01248e9..ad877c6 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -409,7 +409,9 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+
+        # Collect contributions from all processes
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
@@ -498,7 +500,9 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+
+        # Collect contributions from all processes
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
-- 
2.43.0


From 91833d57842e3c0e6ae577912d7899519891f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:46 +0000
Subject: [PATCH 29/40] fix: make_graphene_rect ignores c if not built from
 scratch

---
 tbplas/materials/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/materials/graphene.py b/tbplas/materials/graphene.py
index 7891deb..10ff245 100644
--- a/tbplas/materials/graphene.py
+++ b/tbplas/materials/graphene.py
@@ -66,7 +66,7 @@ def make_graphene_rect(from_scratch: bool = True,
         cell.add_hopping((1, 0), 3, 1, t)
         cell.add_hopping((1, 0), 2, 0, t)
     else:
-        cell = make_graphene_diamond(t=t)
+        cell = make_graphene_diamond(c=c, t=t)
         lat_frac = np.array([[1, 0, 0], [-1, 2, 0], [0, 0, 1]])
         cell = reshape_prim_cell(cell, lat_frac)
     return cell
-- 
2.43.0


From a00d74f6bb226a6884501400c3b36e951724a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:58 +0000
Subject: [PATCH 30/40] fix: ParamFit.fit fails if leastsq is asked for full
 output

---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index d916754..4ea4e80 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -1499,7 +1499,7 @@ class ParamFit(ABC):
         :raises RuntimeError: if the fitting fails
         """
         result = leastsq(self.estimate_error, params0, **kwargs)
-        params, status = result[0], result[1]
+        params, status = result[0], result[-1]
         if status not in (1, 2, 3, 4):
             raise RuntimeError(f"Fitting failed with status {status}")
         return params
-- 
2.43.0


From 7fb8bdf0607db8b5a9fb94dd97b7284dc48d0097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:17 +0000
Subject: [PATCH 31/40] fix: plot_wfc3d fails if rn_max is not given

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index 88e8070..af5d611 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -503,7 +503,7 @@ class Visualizer(MPIEnv):
             k_point = [0, 0, 0]
         k_point = np.array(k_point, dtype=np.float64)
         if rn_max is None:
-            rn_max = np.zeros(3)
+            rn_max = np.zeros(3, dtype=np.int64)
         rn_frac = np.array([(i, j, k)
                             for i in range(-rn_max[0], rn_max[0] + 1)
                             for j in range(-rn_max[1], rn_max[1] + 1)
-- 
2.43.0


From ca67cc39fab5075ca3fbfc8b6039a006ac908898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:17 +0000
Subject: [PATCH 32/40] fix: plot_scalar scrambles the data if the grid is not
 square

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index af5d611..463689f 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -338,7 +338,7 @@ class Visualizer(MPIEnv):
                 x_grid, y_grid = np.meshgrid(x_fi, y_fi)
                 xy_fi = np.c_[x_grid.ravel(), y_grid.ravel()]
                 z_fi = griddata((x, y), z, xy_fi, method="cubic")
-                z_fi = z_fi.reshape(num_grid)
+                z_fi = z_fi.reshape(x_grid.shape)
                 extent = (x_min, x_max, y_min, y_max)
                 img = ax.imshow(z_fi, cmap=cmap, interpolation="none",
                                 origin="lower", extent=extent, **kwargs)
-- 
2.43.0


From 230fb99dce2010ccf63e7a88f5cfcb1c1bce6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:17 +0000
Subject: [PATCH 33/40] fix: s orbitals vanish at the nucleus in cube files

---
 tbplas/cython/atom.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/atom.pyx b/tbplas/cython/atom.pyx
index a0fee2f..029c416 100644
--- a/tbplas/cython/atom.pyx
+++ b/tbplas/cython/atom.pyx
@@ -203,7 +203,7 @@ def set_cube(double [::1] c0, int[::1] qn, double[::1] cube_origin,
             for k in range(num_grid[2]):
                 dz = zmin + res * k - c0[2]
                 r = sqrt(dx2y2 + dz**2)
-                if r < 1.0e-7:
+                if r < 1.0e-7 and l > 0:
                     gridval = 0.0
                 else:
                     gridval = _radial(z, n, l, r) * _ylm(l, m, dx, dy, dz, r) * factor
-- 
2.43.0


From 851cd9e0f550733afb218fcccbfb5f95e90599c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:23 +0000
Subject: [PATCH 34/40] fix: check_params accepts undefined parameters of two
 sections

---
 tbplas/tbpm/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tbplas/tbpm/config.py b/tbplas/tbpm/config.py
index 5df56a4..b8677bb 100644
--- a/tbplas/tbpm/config.py
+++ b/tbplas/tbpm/config.py
@@ -140,6 +140,8 @@ class Config:
         self._legal_params = {
             'generic': set(self.generic.keys()),
             'LDOS': set(self.LDOS.keys()),
+            'DC_conductivity': set(self.DC_conductivity.keys()),
+            'quasi_eigenstates': set(self.quasi_eigenstates.keys()),
             'dyn_pol': set(self.dyn_pol.keys()),
             'dckb': set(self.dckb.keys())
         }
@@ -161,6 +163,8 @@ class Config:
 
         _check(self.generic, 'generic')
         _check(self.LDOS, 'LDOS')
+        _check(self.DC_conductivity, 'DC_conductivity')
+        _check(self.quasi_eigenstates, 'quasi_eigenstates')
         _check(self.dyn_pol, 'dyn_pol')
         _check(self.dckb, 'dckb')
 
-- 
2.43.0


From ef7086e3d4043b5803f05020f8cbe70caf099a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:39 +0000
Subject: [PATCH 35/40] fix: plot of PrimitiveCell without conjugate terms may
 miss the home cell

---
 tbplas/builder/primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 5d021ef..72dd929 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -663,8 +663,8 @@ class PrimitiveCell(Observable):
                     rn_range[i, 0] = min([ri_min, ri_max, -ri_min, -ri_max])
                     rn_range[i, 1] = max([ri_min, ri_max, -ri_min, -ri_max])
                 else:
-                    rn_range[i, 0] = ri_min
-                    rn_range[i, 1] = ri_max
+                    rn_range[i, 0] = min(ri_min, 0)
+                    rn_range[i, 1] = max(ri_max, 0)
         ra_min, ra_max = rn_range.item(0, 0), rn_range.item(0, 1)
         rb_min, rb_max = rn_range.item(1, 0), rn_range.item(1, 1)
         rc_min, rc_max = rn_range.item(2, 0), rn_range.item(2, 1)
-- 
2.43.0


From eecfcc35ca335fc2ac2f82e74a65df3ab859442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:18 +0000
Subject: [PATCH 36/40] fix: gen_seeds returns fewer seeds than requested if
 numbers coincide

---
 tbplas/utils.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/tbplas/utils.py b/tbplas/utils.py
index fb438f4..d079e2d 100644
--- a/tbplas/utils.py
+++ b/tbplas/utils.py
@@ -278,16 +278,12 @@ def gen_seeds(num_seeds: int) -> List[int]:
     :param num_seeds: number of seeds
     :return seeds: generated seeds
     """
-    num_bytes = [random.randint(1, 4) for _ in range(num_seeds)]
-    byte_order = ['big' if random.randint(1, 2) == 1 else 'little'
-                  for _ in range(num_seeds)]
-    # signed = [True if random.randint(1, 2) == 1 else False
-    #           for _ in range(num_seeds)]
-    signed = [True for _ in range(num_seeds)]
     seeds = []
-    for item in zip(num_bytes, byte_order, signed):
-        rand_int = int().from_bytes(os.urandom(item[0]), byteorder=item[1],
-                                    signed=item[2])
+    while len(seeds) < num_seeds:
+        num_bytes = random.randint(1, 4)
+        byte_order = 'big' if random.randint(1, 2) == 1 else 'little'
+        rand_int = int().from_bytes(os.urandom(num_bytes),
+                                    byteorder=byte_order, signed=True)
         if rand_int not in seeds:
             seeds.append(rand_int)
     return seeds
-- 
2.43.0


From f5449608c2eccb529da4e43e8696b9a7ab0bdc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:17 +0000
Subject: [PATCH 37/40] fix: projections on orbitals given as an iterator
 vanish but for the first band

---
 tbplas/diagonal/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tbplas/diagonal/base.py b/tbplas/diagonal/base.py
index 31fe00e..d62c4c3 100644
--- a/tbplas/diagonal/base.py
+++ b/tbplas/diagonal/base.py
@@ -352,6 +352,8 @@ class DiagSolver(MPIEnv):
         # Initialize working arrays
         bands = np.zeros((num_kpt, num_bands), dtype=np.float64)
         if orbital_indices is not None:
+            # orbital_indices will be iterated for each k-point and band
+            orbital_indices = list(orbital_indices)
             proj = np.zeros((num_kpt, num_bands), dtype=np.float64)
         else:
             proj = np.ones((num_kpt, num_bands), dtype=np.float64)
-- 
2.43.0


From 53c9029a5f8cad0b6241d7e2c9de63301caca137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:57 +0000
Subject: [PATCH 38/40] fix: vacancies at orbitals the cell has lost are not
 always reported

The vacancies were checked only if the hash of the primitive cell differed
from that of the last synchronization, and the hashes were updated even if
the check failed. Vacancies at orbitals that had been added and removed in
between, or asking again after the error, gave arrays with wrong orbitals.
---
 tbplas/builder/super.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index e12f1b5..917bab7 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -296,6 +296,7 @@ class OrbitalSet(Observable):
         :return: None
         :raises PCOrbEmptyError: if cell does not contain orbitals
         :raises PCHopEmptyError: if cell does not contain hopping terms
+        :raises IDPCIndexError: if any vacancy is not in the primitive cell
         """
         self._prim_cell.verify_orbitals()
         self._prim_cell.verify_hoppings()
@@ -310,10 +311,14 @@ class OrbitalSet(Observable):
             if self.num_vac == 0:
                 self._vac_id_sc = np.array([], dtype=np.int64)
             else:
-                # Check for invalid vacancies if primitive cell changes
-                if update_pc:
+                # Check for vacancies that are not in the primitive cell
+                try:
                     for vac in self._vacancy_set:
                         self._check_id_pc(vac)
+                except exc.IDPCIndexError:
+                    # The arrays are still outdated.
+                    self._hash_dict = dict.fromkeys(self._hash_dict)
+                    raise
                 vac_id_pc = np.array(sorted(self._vacancy_set), dtype=np.int32)
                 vac_id_sc = core.build_vac_id_sc(self._dim, self.num_orb_pc,
                                                  vac_id_pc)
-- 
2.43.0


From f9563e28b2566c0bc0823705183ed63f1657f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:35 +0000
Subject: [PATCH 39/40] fix: Lindhard hands out its own energy grid with the
 results

calc_dyn_pol_regular(), calc_dyn_pol_arbitrary() and calc_ac_cond() returned
the array the object works with, so that editing a returned grid (units, for
example) changed every later calculation of the same object.
---
 tbplas/diagonal/lindhard.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index ad877c6..29b8921 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -420,7 +420,7 @@ class Lindhard(DiagSolver):
         # Transpose dyn_pol back
         if use_fortran:
             dyn_pol = dyn_pol.T
-        return self._omegas, dyn_pol
+        return self._omegas.copy(), dyn_pol
 
     def calc_dyn_pol_arbitrary(self, q_points: np.ndarray,
                                use_fortran: bool = True) -> Tuple[np.ndarray, np.ndarray]:
@@ -511,7 +511,7 @@ class Lindhard(DiagSolver):
         # Transpose dyn_pol back
         if use_fortran:
             dyn_pol = dyn_pol.T
-        return self._omegas, dyn_pol
+        return self._omegas.copy(), dyn_pol
 
     def _get_vq(self, q_point: np.ndarray) -> float:
         """
@@ -647,7 +647,7 @@ class Lindhard(DiagSolver):
                                       f"implemented")
         ac_cond *= prefactor
         ac_cond /= self._cell.extended
-        return self._omegas, ac_cond
+        return self._omegas.copy(), ac_cond
 
     def calc_epsilon_q0(self, omegas: np.ndarray,
                         ac_cond: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 9b2e40d0fae55955f4ff99001bd4d7ad7bf5938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:20 +0000
Subject: [PATCH 40/40] fix: orb_id_sc2pc hands out a row of the orbital table
 itself

Going on from a returned index to another cell (id_pc[0] += 1) changed the
index, position and energy of that orbital in the supercell.
---
 tbplas/builder/super.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 917bab7..b3fd8f7 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -348,7 +348,7 @@ class OrbitalSet(Observable):
         self.sync_array()
         if not (0 <= id_sc < self.num_orb_sc):
             raise exc.IDSCIndexError(id_sc)
-        return self._orb_id_pc[id_sc]
+        return self._orb_id_pc[id_sc].copy()
 
     def orb_id_pc2sc(self, id_pc: Union[id_pc_type, np.ndarray]) -> int:
         """
-- 
2.43.0

