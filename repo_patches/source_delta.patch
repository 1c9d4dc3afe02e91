From 82226c0c76797523025f4eb6c3650fdebcf6f8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 01/40] fix: convert the dielectric units in
 from_total_fc_with_dipole

---
 euphonic/force_constants.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 252b595..46abf6b 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1787,11 +1787,13 @@ class ForceConstants:
         sc_born = np.tile(born.to(ureg('e')).magnitude,
                           (n_cells, 1, 1))
         # Now initialise, calculate and subtract the dipole correction
+        dielectric_mag = dielectric.to(
+            ureg('e**2/(bohr*hartree)')).magnitude
         dipole_data = cls._dipole_correction_init(
-            sc_crystal, sc_born, dielectric.magnitude)
+            sc_crystal, sc_born, dielectric_mag)
         corr = cls._calculate_dipole_correction(
             np.array([0., 0., 0.]), sc_crystal, sc_born,
-            dielectric.magnitude, dipole_data)
+            dielectric_mag, dipole_data)
         corr = np.transpose(
             np.reshape(corr[:, :3*n_atoms], (n_cells, 3*n_atoms, 3*n_atoms)),
             axes=[0, 2, 1])
-- 
2.43.0


From 31a55bd8bea72ad32f3e1eeea510044a451f5d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 02/40] fix: supercell atom positions for non-symmetric
 supercell matrices in from_total_fc_with_dipole

---
 euphonic/force_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 46abf6b..cced473 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1777,7 +1777,7 @@ class ForceConstants:
         # First create Crystal and Born charges for supercell
         sc_atom_r = (np.repeat(cell_origins, n_atoms, axis=0)
                      + np.tile(crystal.atom_r, (n_cells, 1)))
-        sc_to_u_matrix = np.linalg.inv(sc_matrix).transpose()
+        sc_to_u_matrix = np.linalg.inv(sc_matrix)
         sc_atom_r_scell = np.einsum('ij,jk->ik', sc_atom_r, sc_to_u_matrix)
         sc_vecs = np.einsum('ji,ik->jk', sc_matrix, crystal._cell_vectors)
         sc_mass = np.tile(crystal._atom_mass, n_cells)
-- 
2.43.0


From 432e9df72cab4dcda8cbd2f01c5d4bea0809824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 03/40] fix: include the real space Ewald sum for single-atom
 cells

---
 euphonic/force_constants.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index cced473..372df6b 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1059,9 +1059,11 @@ class ForceConstants:
                         - np.einsum('i,jk->ijk', f2, inv_dielectric))
             # End series when current terms are less than the fractional
             # tolerance multiplied by the term for the cell at R=0
-            if n == 0:
-                r0_max = np.amax(np.abs(H_ab_tmp))
-            if np.amax(np.abs(H_ab_tmp)) > frac_tol*r0_max:
+            # (with a single atom there is no R=0 term: use the next shell)
+            shell_max = np.amax(np.abs(H_ab_tmp))
+            if n == 0 or r0_max == 0.:
+                r0_max = shell_max
+            if n == 0 or shell_max > frac_tol*r0_max:
                 H_ab = np.concatenate((H_ab, H_ab_tmp))
                 cells = np.concatenate((cells, cells_tmp))
             else:
-- 
2.43.0


From 8f76677c08e996363dcbc48185283e6f0f86505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 04/40] fix: cell volume is positive for left-handed cell
 vectors

---
 c/util.c            | 2 +-
 euphonic/crystal.py | 4 ++--
 euphonic/util.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/util.c b/c/util.c
index a4aeab4..f7802ff 100644
--- a/c/util.c
+++ b/c/util.c
@@ -57,7 +57,7 @@ double cell_volume(const double *cell_vec) {
     for (i = 0; i < 3; i++) {
         vol += cell_vec[i]*bxc[i];
     }
-    return vol;
+    return fabs(vol);
 }
 
 void cmult(const double c1[2], const double c2[2], double result[2]) {
diff --git a/euphonic/crystal.py b/euphonic/crystal.py
index 57191a5..5eea22a 100644
--- a/euphonic/crystal.py
+++ b/euphonic/crystal.py
@@ -118,8 +118,8 @@ class Crystal:
         bxc = np.cross(cv[1], cv[2])
         cxa = np.cross(cv[2], cv[0])
         axb = np.cross(cv[0], cv[1])
-        vol = self.cell_volume()
-        norm = 2*np.pi/vol
+        # Triple product, negative if the cell vectors are left-handed
+        norm = 2*np.pi/np.dot(cv[0], bxc)
 
         return np.vstack((norm * bxc, norm * cxa, norm * axb))
 
diff --git a/euphonic/util.py b/euphonic/util.py
index f1d3d0a..70efe46 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -439,7 +439,7 @@ def _cell_vectors_to_volume(cell_vectors: Quantity) -> Quantity:
     volume = np.dot(cell_vectors[0],
                     np.cross(cell_vectors[1], cell_vectors[2]))
     assert isinstance(volume, Quantity)
-    return volume
+    return abs(volume)
 
 
 def _get_unique_elems_and_idx(
-- 
2.43.0


From 1b521d61745f73c9377d6788e6427c5fa87a5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 05/40] fix: discard cached values when force constants, Born
 charges or dielectric are reassigned

---
 euphonic/force_constants.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 372df6b..6828ca0 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -131,6 +131,8 @@ class ForceConstants:
     def force_constants(self, value: Quantity) -> None:
         self.force_constants_unit = str(value.units)
         self._force_constants = value.to('hartree/bohr**2').magnitude
+        # Clear values calculated from the old force constants
+        self.__dict__.pop('_force_constants_asr', None)
 
     @property
     def born(self) -> Union[Quantity, None]:
@@ -143,6 +145,8 @@ class ForceConstants:
     def born(self, value: Quantity) -> None:
         self.born_unit = str(value.units)
         self._born = value.to('e').magnitude
+        # Clear values calculated from the old Born charges
+        self.__dict__.pop('_dipole_init_data', None)
 
     @property
     def dielectric(self) -> Union[Quantity, None]:
@@ -156,6 +160,8 @@ class ForceConstants:
     def dielectric(self, value: Quantity) -> None:
         self.dielectric_unit = str(value.units)
         self._dielectric = value.to('e**2/(bohr*hartree)').magnitude
+        # Clear values calculated from the old dielectric tensor
+        self.__dict__.pop('_dipole_init_data', None)
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-- 
2.43.0


From df96938ecf0ce273d7644fcd2a2a26f1edb3c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:12 +0000
Subject: [PATCH 06/40] fix: get_all_origins with step other than 1 returned
 duplicated origins

---
 euphonic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 70efe46..e29cae5 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -122,7 +122,7 @@ def get_all_origins(max_xyz: tuple[int, int, int],
         Shape (prod(max_xyz - min_xyz)/step, 3) int ndarray. The cell
         origins
     """
-    diff = np.absolute(np.subtract(max_xyz, min_xyz))
+    diff = [len(range(mn, mx, step)) for mn, mx in zip(min_xyz, max_xyz)]
     nx = np.repeat(range(min_xyz[0], max_xyz[0], step), diff[1]*diff[2])
     ny = np.repeat(np.tile(range(min_xyz[1], max_xyz[1], step), diff[0]),
                    diff[2])
-- 
2.43.0


From 28cfd292ed9792bdc57a86a3ab06f7c18788c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 07/40] fix: convert_fc_phases uses the cell of the atom each
 force constants row belongs to

---
 euphonic/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index e29cae5..1a6a9f9 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -423,8 +423,7 @@ def convert_fc_phases(force_constants: np.ndarray, atom_r: np.ndarray,
         # shaped array may not be in the same cell within the supercell,
         # but Euphonic's interpolation requires this, so use equivalent
         # cell vector indices to arrange the force constants correctly
-        atom_idx = np.where(sc_to_uc_atom_idx == i)[0][0]
-        cell_idx = cell_origins_map[atom_idx]
+        cell_idx = cell_origins_map[uc_to_sc_atom_idx[i]]
         sc_relative_idx = _get_supercell_relative_idx(cell_origins, sc_matrix)
         fc_converted[i, sc_relative_idx[cell_idx]] = fc_tmp
 
-- 
2.43.0


From 3bb7374833a31dfd110d969c876553af30c961c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 08/40] fix: get_reference_data dropped values written as
 integers

---
 euphonic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 1a6a9f9..9be48e6 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -258,7 +258,7 @@ def get_reference_data(collection: str = 'Sears1992',
 
     return {key: value * unit
             for key, value in data.items()
-            if isinstance(value, (float, complex))}
+            if isinstance(value, (int, float, complex))}
 
 
 def mode_gradients_to_widths(mode_gradients: Quantity, cell_vectors: Quantity
-- 
2.43.0


From 26973ffab825ff051a5d3b5c2c5080de0997d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:15 +0000
Subject: [PATCH 09/40] fix: keep the q-point weights in
 calculate_structure_factor

---
 euphonic/qpoint_phonon_modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 2f63253..d58c564 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -293,7 +293,7 @@ class QpointPhononModes(QpointFrequencies):
         return StructureFactor(
             self.crystal, self.qpts, self.frequencies,
             sf*ureg('bohr**2').to('mbarn'),
-            temperature=temperature)
+            weights=self.weights, temperature=temperature)
 
     def calculate_debye_waller(
         self, temperature: Quantity,
-- 
2.43.0


From 0dc1c8168769aba2079aaa73285d2bcbb731db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 10/40] fix: keep reorder_frequencies a permutation when
 overlaps vanish

---
 euphonic/qpoint_phonon_modes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index d58c564..4e1762e 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -150,9 +150,10 @@ class QpointPhononModes(QpointFrequencies):
                     mode = int(max_i/n_branches)
                     # Prev q-pt modes are columns
                     prev_mode = max_i % n_branches
-                    # Ensure modes aren't mapped more than once
-                    dot_mat[mode, :] = 0
-                    dot_mat[:, prev_mode] = 0
+                    # Ensure modes aren't mapped more than once, even if
+                    # all of the remaining dot products are zero
+                    dot_mat[mode, :] = -1
+                    dot_mat[:, prev_mode] = -1
 
                     prev_mode_idx = np.where(mode_map[i-1] == prev_mode)[0][0]
                     mode_map[i, prev_mode_idx] = mode
-- 
2.43.0


From d84997402cd13063d2e9acc93df19d15a421509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 11/40] fix: scale the spectral data of Spectrum2DCollection,
 not its y-axis

---
 euphonic/spectra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index e260927..5074612 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -793,6 +793,11 @@ class SpectrumCollectionMixin(ABC):
         ...
 
     # Mixin methods
+    def __imul__(self, other: Real) -> Self:
+        """Scale spectral data in-place"""
+        self._set_raw_spectrum_data(self._get_raw_spectrum_data() * other)
+        return self
+
     def __len__(self):
         return self._get_raw_spectrum_data().shape[0]
 
-- 
2.43.0


From f3c097bd085307960ae65fc5a2085b8aa5e84196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:22 +0000
Subject: [PATCH 12/40] fix: convert spectrum data with the
 reciprocal_spectroscopy context when setting and summing

---
 euphonic/spectra.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 5074612..367372b 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -55,7 +55,8 @@ class Spectrum(ABC):
     @x_data.setter
     def x_data(self, value: Quantity) -> None:
         self.x_data_unit = str(value.units)
-        self._x_data = value.to(self._internal_x_data_unit).magnitude
+        self._x_data = value.to(self._internal_x_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     @property
     def y_data(self) -> Quantity:
@@ -65,7 +66,8 @@ class Spectrum(ABC):
     @y_data.setter
     def y_data(self, value: Quantity) -> None:
         self.y_data_unit = str(value.units)
-        self._y_data = value.to(self._internal_y_data_unit).magnitude
+        self._y_data = value.to(self._internal_y_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -777,7 +779,7 @@ class SpectrumCollectionMixin(ABC):
         summed_s_data = ureg.Quantity(
             np.sum(self._get_raw_spectrum_data(), axis=0),
             units=self._get_internal_spectrum_data_unit()
-        ).to(self._get_spectrum_data_unit())
+        ).to(self._get_spectrum_data_unit(), "reciprocal_spectroscopy")
         return self._item_type(
             **self._get_bin_kwargs(),
             **{self._spectrum_data_name(): summed_s_data},
@@ -1506,7 +1508,8 @@ class Spectrum2D(Spectrum):
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(self._internal_z_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -1925,7 +1928,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(self._internal_z_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
-- 
2.43.0


From 8010e97d501f6d9508174eea2c358425dfb17c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:22 +0000
Subject: [PATCH 13/40] fix: get bin edges and centres of Spectrum2DCollection
 along the right axis

---
 euphonic/spectra.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 367372b..cde3ea4 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1721,7 +1721,7 @@ class Spectrum2D(Spectrum):
         bin_ax
             The axis to get the bin edges for, 'x' or 'y'
         """
-        enum = {'x': 0, 'y': 1}
+        enum = {'x': -2, 'y': -1}
         bin_data = getattr(self, f'{bin_ax}_data')
         data_ax_len = self.z_data.shape[enum[bin_ax]]
         if self._is_bin_edge(data_ax_len, bin_data.shape[0]):
@@ -1744,7 +1744,7 @@ class Spectrum2D(Spectrum):
         bin_ax
             The axis to get the bin centres for, 'x' or 'y'
         """
-        enum = {'x': 0, 'y': 1}
+        enum = {'x': -2, 'y': -1}
         bin_data = getattr(self, f'{bin_ax}_data')
         data_ax_len = self.z_data.shape[enum[bin_ax]]
         if self._is_bin_edge(data_ax_len, bin_data.shape[0]):
@@ -1907,6 +1907,12 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
         self.metadata = metadata if metadata is not None else {}
         self._check_metadata()
 
+    # The last two axes of z_data are those of a Spectrum2D
+    get_bin_edges = Spectrum2D.get_bin_edges
+    get_bin_centres = Spectrum2D.get_bin_centres
+    get_bin_widths = Spectrum2D.get_bin_widths
+    assert_regular_bins = Spectrum2D.assert_regular_bins
+
     def _split_by_indices(self, indices: Sequence[int] | np.ndarray
                           ) -> List[Self]:
         """Split data along x axis at given indices"""
-- 
2.43.0


From 7378dbc5724391cb282d2b0aac9065ce0e24894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:22 +0000
Subject: [PATCH 14/40] fix: use data in the current units in
 Spectrum2DCollection.from_spectra

---
 euphonic/spectra.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index cde3ea4..fdc97ab 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1963,9 +1963,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
         for i, spectrum in enumerate(spectra[1:]):
             _type_check(spectrum)
-            spectrum_i_raw_data = cls._get_item_raw_data(spectrum)
-            spectrum_i_data_units = cls._get_item_data_unit(spectrum)
-            assert spectrum_i_data_units == spectrum_data_units
+            spectrum_i_data = cls._get_item_data(spectrum)
+            assert spectrum_i_data.units == spectrum_data_units
 
             for key, ref_bins in bins_data.items():
                 item_bins = getattr(spectrum, key)
@@ -1973,7 +1972,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                 assert item_bins.units == ref_bins.units
 
             assert spectrum.x_tick_labels == x_tick_labels
-            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_raw_data
+            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_data.magnitude
 
         metadata = cls._combine_metadata([spec.metadata for spec in spectra])
         spectrum_data = Quantity(spectrum_data_magnitude, spectrum_data_units)
-- 
2.43.0


From 602b0b58a55684cd02742dd6a2aa9c58c3143a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:00 +0000
Subject: [PATCH 15/40] fix: refuse a list of bool as index of a spectrum
 collection

---
 euphonic/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index fdc97ab..c9fff0c 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -851,7 +851,9 @@ class SpectrumCollectionMixin(ABC):
                 raise IndexError(f'index "{item.stop}" out of range')
             return
 
-        if not all(isinstance(i, Integral) for i in item):
+        # bool is a subclass of int, but Numpy would use it as a mask
+        if not all(isinstance(i, Integral) and not isinstance(i, bool)
+                   for i in item):
             raise TypeError(
                 f'Index "{item}" should be an integer, slice '
                 f'or sequence of ints')
-- 
2.43.0


From 45bf480b5c941121ac5b15c6bac4edc6213dc81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:49 +0000
Subject: [PATCH 16/40] fix: recognise unequal bins in any unit when broadening

---
 euphonic/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index c9fff0c..ebd24cc 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -250,7 +250,8 @@ class Spectrum(ABC):
             for ax, (width, bin_data) in enumerate(zip(widths, bin_centres)):
                 if width is not None:
                     bin_widths = np.diff(bin_data)
-                    if not np.all(np.isclose(bin_widths, bin_widths[0])):
+                    if not np.all(np.isclose(bin_widths, bin_widths[0],
+                                             atol=0.)):
                         unequal_bin_axes += [axes[ax]]
             if len(unequal_bin_axes) > 0:
                 msg = (f'{" and ".join(unequal_bin_axes)} bin widths are '
-- 
2.43.0


From 969b674cd9eaff4bcb845f0ca978d9cf8b6c40cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:49 +0000
Subject: [PATCH 17/40] fix: Spectrum2D.broaden always returns a new spectrum

---
 euphonic/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index ebd24cc..576ac69 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1630,7 +1630,7 @@ class Spectrum2D(Spectrum):
                                   copy.copy(self.x_tick_labels),
                                   copy.deepcopy(self.metadata))
         else:
-            spectrum = self
+            spectrum = self.copy()
 
         # Then apply variable-width broadening to any axes with Callable
         for axis, width, lower_limit in (('x', x_width, x_width_lower_limit),
-- 
2.43.0


From 62f04d5a3d91c0dd2e8e90a3baad774e97bc3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:08 +0000
Subject: [PATCH 18/40] fix: read temperatures in offset units (e.g. degC) from
 dictionaries

---
 euphonic/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index e89a095..30be5dc 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -91,7 +91,9 @@ def _process_dict(dictionary: Dict[str, Any], quantities: Sequence[str] = [],
     for qkey in quantities:
         val = dictionary.pop(qkey)
         if val is not None:
-            val = val*ureg(dictionary.pop(qkey + '_unit'))
+            # Don't multiply by unit, not allowed for offset units e.g. degC
+            val = ureg.Quantity(
+                val, ureg(dictionary.pop(qkey + '_unit')).units)
         dictionary[qkey] = val
     return dictionary
 
-- 
2.43.0


From ee159b61125c9b5488318234718d9a7563ff66cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:08 +0000
Subject: [PATCH 19/40] fix: to_dict copies the metadata

---
 euphonic/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index 30be5dc..1c762ce 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -61,8 +61,8 @@ def _obj_to_dict(obj: T, attrs: Sequence[str]) -> Dict[str, Any]:
 
         if isinstance(val, np.ndarray):
             dout[attr] = np.copy(val)
-        elif isinstance(val, list):
-            dout[attr] = val.copy()
+        elif isinstance(val, (list, dict)):
+            dout[attr] = copy.deepcopy(val)
         elif isinstance(val, Quantity):
             if isinstance(val.magnitude, np.ndarray):
                 dout[attr] = np.copy(val.magnitude)
-- 
2.43.0


From 986943f3d469f537a70a0b1179db9a8524cf7a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:08 +0000
Subject: [PATCH 20/40] fix: write eigenvectors of any memory layout to JSON

---
 euphonic/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index 1c762ce..fd46bc2 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -17,7 +17,8 @@ def _to_json_dict(dictionary: Dict[str, Any]) -> Dict[str, Any]:
     for key, val in dictionary.items():
         if isinstance(val, np.ndarray):
             if val.dtype == np.complex128:
-                val = val.view(np.float64).reshape(val.shape + (2,))
+                # Only C-contiguous arrays can be viewed as pairs of floats
+                val = np.ascontiguousarray(val).view(np.float64).reshape(val.shape + (2,))
             dictionary[key] = val.tolist()
         elif isinstance(val, dict):
             if key != 'metadata':
-- 
2.43.0


From 7332e2f7d3b7c75acf7847acbc6f6d2e29a5665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:31 +0000
Subject: [PATCH 21/40] fix: allow reciprocal unit conversions for spectra
 only, check z_data_unit of collections

---
 euphonic/spectra.py  | 8 ++------
 euphonic/validate.py | 8 +++++---
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 576ac69..af0cd8b 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -38,7 +38,8 @@ class Spectrum(ABC):
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-                               ['x_data_unit', 'y_data_unit'])
+                               ['x_data_unit', 'y_data_unit', 'z_data_unit'],
+                               "reciprocal_spectroscopy")
         super().__setattr__(name, value)
 
     def _set_data(self, data: Quantity, attr_name: str) -> None:
@@ -1519,11 +1520,6 @@ class Spectrum2D(Spectrum):
         self.z_data = self.z_data * other
         return self
 
-    def __setattr__(self, name: str, value: Any) -> None:
-        _check_unit_conversion(self, name, value,
-                               ['z_data_unit'])
-        super(Spectrum2D, self).__setattr__(name, value)
-
     def _split_by_indices(self,
                           indices: Union[Sequence[int], np.ndarray]
                           ) -> List[T]:
diff --git a/euphonic/validate.py b/euphonic/validate.py
index 21d38cc..a2ddc0d 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -56,7 +56,7 @@ def _check_constructor_inputs(
 
 
 def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
-                           unit_attrs: List[str]) -> None:
+                           unit_attrs: List[str], *contexts: str) -> None:
     """
     If setting an attribute on an object that relates to the units of a
     Quantity (e.g. 'frequencies_unit' in QpointPhononModes) check that
@@ -73,6 +73,9 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     unit_attrs
         Only check the unit conversion if the attribute is one of
         unit_attrs
+    *contexts
+        Any Pint contexts the units can be converted with, other than
+        those enabled by default
 
     Raises
     ------
@@ -82,8 +85,7 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     if hasattr(obj, attr_name):
         if attr_name in unit_attrs:
             try:
-                ureg(getattr(obj, attr_name)).ito(attr_value,
-                                                  "reciprocal_spectroscopy")
+                ureg(getattr(obj, attr_name)).ito(attr_value, *contexts)
             except DimensionalityError:
                 raise ValueError((
                     f'"{attr_value}" is not a known dimensionally-consistent '
-- 
2.43.0


From be0498bf3a003792e6440acd975eb43476647072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:31 +0000
Subject: [PATCH 22/40] fix: convert frequencies to wavelength units correctly

---
 euphonic/qpoint_frequencies.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/euphonic/qpoint_frequencies.py b/euphonic/qpoint_frequencies.py
index 63310b2..80d870d 100644
--- a/euphonic/qpoint_frequencies.py
+++ b/euphonic/qpoint_frequencies.py
@@ -79,7 +79,9 @@ class QpointFrequencies:
 
     @property
     def frequencies(self) -> Quantity:
-        return self._frequencies*ureg('hartree').to(self.frequencies_unit)
+        # Not a product, as wavelengths are not proportional to energies
+        return ureg.Quantity(self._frequencies,
+                             'hartree').to(self.frequencies_unit)
 
     @frequencies.setter
     def frequencies(self, value: Quantity) -> None:
-- 
2.43.0


From c06eb1f03cce714349b24a1022e427f9b1b9be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:31 +0000
Subject: [PATCH 23/40] fix: convert the units of a dielectric tensor given
 without Born charges

---
 euphonic/force_constants.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 6828ca0..5e6331b 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -111,12 +111,14 @@ class ForceConstants:
         if born is not None:
             self._born = born.to(ureg.e).magnitude
             self.born_unit = str(born.units)
+        else:
+            self._born = born
+            self.born_unit = str(ureg.e)
+        if born is not None or dielectric is not None:
             self._dielectric = dielectric.to(ureg(
                 'e**2/(bohr*hartree)')).magnitude
             self.dielectric_unit = str(dielectric.units)
         else:
-            self._born = born
-            self.born_unit = str(ureg.e)
             self._dielectric = dielectric
             self.dielectric_unit = str(ureg((
                 'e**2/(bohr*hartree)')))
-- 
2.43.0


From b247c25fef98d82a4bfdb2a8232a62b38382b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:40 +0000
Subject: [PATCH 24/40] fix: find the backscattering turning point of angle
 ranges beyond 3 pi

---
 euphonic/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index af0cd8b..9dc8a91 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -2084,13 +2084,13 @@ def _get_cos_range(angle_range: Tuple[float]) -> Tuple[float]:
     a cosine max/min point lies within the angle range, 1/-1 respectively.
 
     Method: the angle range is translated such that it starts within 0-2π; then
-    we check for the presence of turning points at π and 2π.
+    we check for the presence of turning points at π, 2π and 3π.
     """
     limiting_values = np.cos(angle_range).tolist()
 
     shift, lower_angle = divmod(min(angle_range), np.pi * 2)
     upper_angle = max(angle_range) - (shift * 2 * np.pi)
-    if lower_angle < np.pi < upper_angle:
+    if lower_angle < np.pi < upper_angle or 3 * np.pi < upper_angle:
         limiting_values.append(-1.)
     if lower_angle < 2 * np.pi < upper_angle:
         limiting_values.append(1.)
-- 
2.43.0


From ce790f2e918aa140203042bcda39fdccc90cd2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:40 +0000
Subject: [PATCH 25/40] fix: do not mask elastic bins because of rounding
 errors

---
 euphonic/spectra.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 9dc8a91..bb24651 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -2049,21 +2049,18 @@ def apply_kinematic_constraints(spectrum: Spectrum2D,
     cos_values = np.asarray(
         _get_cos_range(np.asarray(angle_range) * np.pi / 180.))
 
-    # Momentum goes negative where final energy greater than incident
-    # energy; detect this as complex component and set extreme q-bounds to
-    # enforce conservation of energy
-
-    # (Complex number sqrt separated from units sqrt for compatibility with
-    # older library versions; in newer versions this is not necessary.)
-    q_bounds = np.sqrt(k2_i + k2_f
-                       - 2 * cos_values[:, np.newaxis]
-                           * np.sqrt(k2_i.magnitude * k2_f.magnitude,
-                                     dtype=complex)
-                           * (k2_i.units * k2_f.units)**0.5
-                       )
-    q_bounds.magnitude.T[np.any(q_bounds.imag, axis=0)] = [float('Inf'),
-                                                           float('-Inf')]
-    q_bounds = q_bounds.real
+    # Where the final energy would be negative no q is accessible; set extreme
+    # q-bounds to enforce conservation of energy
+    k2_product = k2_i.magnitude * k2_f.magnitude
+    q2_bounds = (k2_i + k2_f
+                 - 2 * cos_values[:, np.newaxis]
+                     * np.sqrt(np.maximum(k2_product, 0.))
+                     * (k2_i.units * k2_f.units)**0.5
+                 )
+    # Close to the elastic line rounding errors can make q^2 negative
+    q_bounds = (np.sqrt(np.maximum(q2_bounds.magnitude, 0.))
+                * q2_bounds.units**0.5)
+    q_bounds.magnitude[:, k2_product < 0.] = [[float('Inf')], [float('-Inf')]]
 
     mask = np.logical_or((spectrum.get_bin_edges(bin_ax='x')[1:, np.newaxis]
                           < q_bounds[0][np.newaxis, :]),
-- 
2.43.0


From cb5518da2a43723db0fc97aad36ea7dcf4e6dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:54 +0000
Subject: [PATCH 26/40] fix: jitter spherical_polar_grid with a single row or
 column

---
 euphonic/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index b36f9bc..56964b8 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -218,12 +218,12 @@ def spherical_polar_grid(n_phi: int, n_theta: int,
         (r, phi, theta) spherical coordinates.
     """
     phi_sequence = np.linspace(-np.pi, np.pi, n_phi + 1)[:-1]
-    phi_spacing = phi_sequence[1] - phi_sequence[0]
+    phi_spacing = 2 * np.pi / n_phi
 
     # Offset theta samples to avoid redundancy at pole
     theta_sequence = (np.linspace(0, np.pi, n_theta + 1)[:-1]
                       + np.pi / (2 * n_theta))
-    theta_spacing = theta_sequence[1] - theta_sequence[0]
+    theta_spacing = np.pi / n_theta
 
     for phi, theta in product(phi_sequence, theta_sequence):
         if jitter:
-- 
2.43.0


From 997290f724a3e7a6b8a862e6700fe3f3b66dba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:03 +0000
Subject: [PATCH 27/40] fix: keep the last point of spherical_polar_improved

---
 euphonic/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index 56964b8..097d9c7 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -300,7 +300,7 @@ def spherical_polar_improved(npts: int,
     theta_circumferences = 2 * np.pi * np.abs(np.sin(theta_sequence))
     bin_edges = np.concatenate([[0], np.cumsum(theta_circumferences)])
 
-    counts, _ = np.histogram(np.linspace(0, theta_circumferences.sum(), npts),
+    counts, _ = np.histogram(np.linspace(0, bin_edges[-1], npts),
                              bins=bin_edges, density=False)
 
     for row_theta, count in zip(theta_sequence, counts):
-- 
2.43.0


From 86f5bb52c33d0219a41fb24244b5506d72657ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:03 +0000
Subject: [PATCH 28/40] fix: accept sampling scheme names in any case

---
 euphonic/powder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/powder.py b/euphonic/powder.py
index b51105e..d949955 100644
--- a/euphonic/powder.py
+++ b/euphonic/powder.py
@@ -364,6 +364,8 @@ def _get_qpts_sphere(npts: int,
                                    spherical_polar_improved,
                                    random_sphere)
 
+    sampling = sampling.lower()
+
     if sampling == 'golden':
         return np.asarray(list(golden_sphere(npts, jitter=jitter)))
     elif sampling == 'sphere-projected-grid':
-- 
2.43.0


From 734554829a28cde821de53d8ddf74060962fa29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:44 +0000
Subject: [PATCH 29/40] fix: label special points given with negative
 coordinates or rounding errors

---
 euphonic/util.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 9be48e6..351c065 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -641,19 +641,20 @@ def _get_qpt_label(qpt: np.ndarray,
     labels = list(point_labels)
     # Ensure symmetry points in label_keys and label_values are in the
     # same order (not guaranteed if using .values() function)
-    label_coords = [point_labels[x] for x in labels]
+    label_coords = np.array([point_labels[x] for x in labels])
 
     # Check for matching symmetry point coordinates (roll q-point
     # coordinates if no match is found)
     TOL = 1e-6
-    matching_label_index = np.where((np.isclose(
-        label_coords, qpt_norm, atol=TOL)).all(axis=1))[0]
-    if matching_label_index.size == 0:
-        matching_label_index = np.where((np.isclose(
-            label_coords, np.roll(qpt_norm, 1), atol=TOL)).all(axis=1))[0]
-    if matching_label_index.size == 0:
-        matching_label_index = np.where((np.isclose(
-            label_coords, np.roll(qpt_norm, 2), atol=TOL)).all(axis=1))[0]
+    rolled_qpts = [np.roll(qpt_norm, n) for n in range(3)]
+    # Label coordinates may be outside [0,1), so if there is still no match
+    # use the periodic image of the q-point closest to each of them
+    images = [q + np.rint(label_coords - q) for q in rolled_qpts]
+    for coords in rolled_qpts + images:
+        matching_label_index = np.where(np.isclose(
+            label_coords, coords, atol=TOL).all(axis=1))[0]
+        if matching_label_index.size > 0:
+            break
 
     label = ''
     if matching_label_index.size > 0:
-- 
2.43.0


From f616e755915db1bd8991520f9a268ef005be47b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:14 +0000
Subject: [PATCH 30/40] fix: euphonic-dos combines adaptive widths with the
 FWHM of --instrument-broadening as if it were a standard deviation, and fails
 for 1/cm or THz

---
 euphonic/cli/dos.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/euphonic/cli/dos.py b/euphonic/cli/dos.py
index 7933932..52013be 100644
--- a/euphonic/cli/dos.py
+++ b/euphonic/cli/dos.py
@@ -2,7 +2,7 @@ from argparse import ArgumentParser
 from typing import List, Optional
 
 import matplotlib.style
-from numpy import sqrt
+from numpy import log, sqrt
 from numpy.polynomial import Polynomial
 
 from euphonic import ureg, ForceConstants, QpointFrequencies
@@ -75,11 +75,11 @@ def main(params: Optional[List[str]] = None) -> None:
                 # Combine instrumental broadening and adaptive sample
                 # broadening: the convolution of a Gaussian with a Gaussian is
                 # a Gaussian with sigma = sqrt(sigma1^2 + sigma2^2)
-                mode_widths = sqrt(
-                    mode_widths**2
-                    + (energy_broadening_poly(modes.frequencies
-                                              .to(args.energy_unit).magnitude
-                                              ) * ureg(args.energy_unit))**2)
+                inst_fwhm = (energy_broadening_poly(
+                    modes.frequencies.to(args.energy_unit).magnitude)
+                             * ureg(args.energy_unit)).to(mode_widths.units)
+                inst_sigma = inst_fwhm / (2 * sqrt(2 * log(2)))
+                mode_widths = sqrt(mode_widths**2 + inst_sigma**2)
         else:
             modes = data.calculate_qpoint_phonon_modes(
                 mp_grid(grid_spec), **_calc_modes_kwargs(args))
-- 
2.43.0


From d59944a05b99572e827e3d72185ea62f8611ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:33 +0000
Subject: [PATCH 31/40] fix: --pdos raises KeyError for a crystal with a single
 species

---
 euphonic/cli/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/cli/utils.py b/euphonic/cli/utils.py
index 4dd3628..b32e0c2 100644
--- a/euphonic/cli/utils.py
+++ b/euphonic/cli/utils.py
@@ -400,8 +400,10 @@ def _arrange_pdos_groups(pdos: Spectrum1DCollection,
         # Only label total DOS if there are other lines on the plot
         dos.metadata['label'] = 'Total'
         pdos = pdos.group_by('species')
-        for line_metadata in pdos.metadata['line_data']:
-            line_metadata['label'] = line_metadata['species']
+        # If there is only one species its metadata is at the top level
+        for line_metadata in pdos.metadata.get('line_data', [pdos.metadata]):
+            line_metadata['label'] = pdos.metadata.get(
+                'species', line_metadata.get('species'))
         if len(cl_arg_pdos) > 0:
             pdos = pdos.select(species=cl_arg_pdos)
             dos = pdos
-- 
2.43.0


From a07b7d73b23a7f6d73437e11f7cdc46fbdcb702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:30 +0000
Subject: [PATCH 32/40] fix: euphonic-intensity-map ignores all but the first
 coefficient of --energy-broadening

---
 euphonic/cli/intensity_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/euphonic/cli/intensity_map.py b/euphonic/cli/intensity_map.py
index 3256489..46a49d5 100755
--- a/euphonic/cli/intensity_map.py
+++ b/euphonic/cli/intensity_map.py
@@ -9,6 +9,7 @@ from euphonic import ureg, Spectrum2D, QpointFrequencies, ForceConstants
 import euphonic.plot
 from euphonic.util import get_qpoint_labels
 from euphonic.styles import base_style
+from .powder_map import _get_broaden_kwargs
 from .utils import (_bands_from_force_constants, _calc_modes_kwargs,
                     _compose_style, _plot_label_kwargs,
                     get_args, _get_debye_waller,
@@ -72,11 +73,11 @@ def main(params: Optional[List[str]] = None) -> None:
 
     if args.q_broadening or args.energy_broadening:
         spectrum = spectrum.broaden(
-            x_width=(args.q_broadening * recip_length_unit
-                     if args.q_broadening else None),
-            y_width=(args.energy_broadening[0] * ebins.units
-                     if args.energy_broadening else None),
-            shape=args.shape, method='convolve')
+            shape=args.shape, method='convolve',
+            **_get_broaden_kwargs(q_broadening=args.q_broadening,
+                                  q_unit=recip_length_unit,
+                                  energy_broadening=args.energy_broadening,
+                                  energy_unit=args.energy_unit))
 
     print("Plotting figure")
     plot_label_kwargs = _plot_label_kwargs(
-- 
2.43.0


From 0cf9a2f3743eb08769e49e2570d8b9b26be4ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:16 +0000
Subject: [PATCH 33/40] fix: Phonopy supercell_matrix holds the supercell
 vectors in its columns

---
 euphonic/readers/phonopy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index b1b0bc9..117c100 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -516,8 +516,11 @@ def _extract_summary(filename: str, fc_extract: bool = False
     summary_dict['atom_mass'] = atom_mass
 
     if fc_extract:
-        # Get matrix to convert from primitive cell to unit cell
-        u_to_sc_matrix = np.array(summary_object['supercell_matrix'])
+        # Get matrix to convert from primitive cell to unit cell. In
+        # Phonopy the columns of supercell_matrix are the supercell
+        # vectors, but in Euphonic they are the rows
+        u_to_sc_matrix = np.array(
+            summary_object['supercell_matrix']).transpose()
         if 'primitive_matrix' in summary_object:
             u_to_p_matrix = np.array(summary_object['primitive_matrix'])
             # Matrix to convert from primitive to supercell
-- 
2.43.0


From aa61bafade30505258d0f13d295fe1cdc7046a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:16 +0000
Subject: [PATCH 34/40] fix: read Phonopy force constants from files with h5 or
 hd5 extensions

---
 euphonic/readers/phonopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 117c100..62962d0 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -716,7 +716,7 @@ def read_interpolation_data(
             with open(fc_pathname, 'r') as fc_file:
                 summary_dict['force_constants'] = _extract_force_constants(
                     fc_pathname, n_atoms, n_cells, summary_pathname)
-        elif fc_format in 'hdf5':
+        elif fc_format in hdf5_exts:
             summary_dict['force_constants'] =  _extract_force_constants_hdf5(
                 fc_pathname, n_atoms, n_cells, summary_pathname)
         else:
-- 
2.43.0


From 54289c0dd3bae76e11f4305acfd512ab8205a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:17 +0000
Subject: [PATCH 35/40] fix: use the same atom coordinates for cell origins and
 crystal in the Phonopy reader

---
 euphonic/readers/phonopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 62962d0..917965b 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -766,7 +766,7 @@ def read_interpolation_data(
     cry_dict['atom_mass_unit'] = atom_mass_unit
 
     fc, cell_origins = convert_fc_phases(
-         summary_dict['force_constants'], summary_dict['atom_r'],
+         summary_dict['force_constants'], cry_dict['atom_r'],
          summary_dict['sc_atom_r'], summary_dict['pc_to_sc_atom_idx'],
          summary_dict['sc_to_pc_atom_idx'], summary_dict['sc_matrix'])
     data_dict['force_constants'] = fc*ureg(
-- 
2.43.0


From e6390126abc9e1d769ab20c589f49bcff40ad911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:47 +0000
Subject: [PATCH 36/40] fix: sign of the second term of the determinant in the
 C extension

---
 c/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/util.c b/c/util.c
index f7802ff..90b34c6 100644
--- a/c/util.c
+++ b/c/util.c
@@ -23,7 +23,7 @@ void copy_array(const int size, const double *arr, double *copy) {
 
 double det_array(const double arr[9]) {
    double det;
-   det = arr[0]*(arr[4]*arr[8] - arr[7]*arr[5]) +
+   det = arr[0]*(arr[4]*arr[8] - arr[7]*arr[5]) -
          arr[1]*(arr[3]*arr[8] - arr[6]*arr[5]) +
          arr[2]*(arr[3]*arr[7] - arr[6]*arr[4]);
    return det;
-- 
2.43.0


From 2db08bd14384c99eb3eb31031d9875e7704200ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:36 +0000
Subject: [PATCH 37/40] fix: pass contiguous fractional coordinates to the C
 extension

---
 euphonic/force_constants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 5e6331b..2fdba64 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -688,10 +688,11 @@ class ForceConstants:
                  dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
                  all_origins_cart)
             attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
-            dipole_attrs = ['atom_r', '_born', '_dielectric', '_H_ab',
+            dipole_attrs = ['_born', '_dielectric', '_H_ab',
                             '_cells', '_gvec_phases', '_gvecs_cart',
                             '_dipole_q0']
             _ensure_contiguous_attrs(self, attrs, opt_attrs=dipole_attrs)
+            _ensure_contiguous_attrs(self.crystal, ['atom_r'])
             with threadpool_limits(limits=1):
                 euphonic_c.calculate_phonons(
                     self, cell_vectors, recip_vectors, reduced_qpts,
-- 
2.43.0


From 296e993fcccaacd1a6871531f5f0e7dbd7e55068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:15 +0000
Subject: [PATCH 38/40] fix: convert integer inputs to floats before calling
 the C extension

---
 euphonic/force_constants.py | 12 +++++++++---
 euphonic/validate.py        | 11 ++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 2fdba64..7644e3c 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -678,6 +678,9 @@ class ForceConstants:
             # a very small difference and can only be seen in near-flat
             # mode gradients, but should be corrected anyway
             recip_asr_correction =  recip_asr_correction.conj().T
+            # C expects floats here, but integers may have been provided
+            cell_vectors = cell_vectors.astype(np.float64, copy=False)
+            reduced_qpts = reduced_qpts.astype(np.float64, copy=False)
             # Make sure all arrays are contiguous before calling C
             (cell_vectors, recip_vectors, reduced_qpts, split_idx, q_dirs,
              fc_img_weighted, sc_origins, recip_asr_correction,
@@ -688,11 +691,14 @@ class ForceConstants:
                  dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
                  all_origins_cart)
             attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
-            dipole_attrs = ['_born', '_dielectric', '_H_ab',
-                            '_cells', '_gvec_phases', '_gvecs_cart',
+            dipole_attrs = ['_H_ab', '_cells', '_gvec_phases', '_gvecs_cart',
                             '_dipole_q0']
             _ensure_contiguous_attrs(self, attrs, opt_attrs=dipole_attrs)
-            _ensure_contiguous_attrs(self.crystal, ['atom_r'])
+            _ensure_contiguous_attrs(self, [],
+                                     opt_attrs=['_born', '_dielectric'],
+                                     dtype=np.float64)
+            _ensure_contiguous_attrs(self.crystal, ['atom_r'],
+                                     dtype=np.float64)
             with threadpool_limits(limits=1):
                 euphonic_c.calculate_phonons(
                     self, cell_vectors, recip_vectors, reduced_qpts,
diff --git a/euphonic/validate.py b/euphonic/validate.py
index a2ddc0d..c4c26ab 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -105,7 +105,8 @@ def _replace_dim(expected_shape: Tuple[int, ...],
 
 
 def _ensure_contiguous_attrs(obj: object, required_attrs: List[str],
-                             opt_attrs: List[str] = []) -> None:
+                             opt_attrs: List[str] = [],
+                             dtype: Optional[Type] = None) -> None:
     """
     Make sure all listed attributes of obj are C Contiguous and of the
     correct type (int32, float64, complex128). This should only be used
@@ -123,16 +124,20 @@ def _ensure_contiguous_attrs(obj: object, required_attrs: List[str],
         The attributes of obj to be checked, but if they don't exist
         will not throw an error. e.g. Depending on the material
         ForceConstants objects may or may not have 'born' defined
+    dtype
+        The type the attributes should be converted to. If None, this
+        depends on the type of each attribute
     """
     for attr_name in required_attrs:
         attr = getattr(obj, attr_name)
-        attr = attr.astype(_get_dtype(attr), order='C', copy=False)
+        attr = attr.astype(dtype or _get_dtype(attr), order='C', copy=False)
         setattr(obj, attr_name, attr)
 
     for attr_name in opt_attrs:
         try:
             attr = getattr(obj, attr_name)
-            attr = attr.astype(_get_dtype(attr), order='C', copy=False)
+            attr = attr.astype(dtype or _get_dtype(attr), order='C',
+                               copy=False)
             setattr(obj, attr_name, attr)
         except AttributeError:
             pass
-- 
2.43.0


From 5712daa4a6293ac71984b6b428ef552372439169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:28 +0000
Subject: [PATCH 39/40] fix: make the split q-point search in the C extension
 thread-local

---
 c/_euphonic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index 84ce901..a5a153b 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -86,7 +86,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
     int modegs_len;
     int asr_corr_len;
     int n_split_qpts;
-    int q, i, qpos;
+    int q;
     int max_ims;
     int dmat_elems;
     // Extra vars only required if dipole = True
@@ -254,7 +254,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
             // Calculate non-analytical correction for LO-TO splitting
             if (splitting && is_gamma(qpt)) {
                 // Find q-direction for this q-point
-                qpos = -1;
+                int i, qpos = -1;
                 for (i = 0; i < n_split_qpts; i++) {
                     if (split_idx[i] == q) {
                         qpos = i;
-- 
2.43.0


From 735b0075fc3eaf788e3d686d48e30267a7f7e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:49 +0000
Subject: [PATCH 40/40] fix: do not modify the interpolation options given to
 BrilleInterpolator

---
 euphonic/brille.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/brille.py b/euphonic/brille.py
index 4b33a62..a65dc7a 100644
--- a/euphonic/brille.py
+++ b/euphonic/brille.py
@@ -240,8 +240,10 @@ class BrilleInterpolator:
                'Calculating frequencies/eigenvectors...')
         if interpolation_kwargs is None:
             interpolation_kwargs = {}
-        interpolation_kwargs['insert_gamma'] = False
-        interpolation_kwargs['reduce_qpts'] = False
+        # Do not modify the caller's dict
+        interpolation_kwargs = {**interpolation_kwargs,
+                                'insert_gamma': False,
+                                'reduce_qpts': False}
         phonons = force_constants.calculate_qpoint_phonon_modes(
             grid.rlu, **interpolation_kwargs)
 
-- 
2.43.0

