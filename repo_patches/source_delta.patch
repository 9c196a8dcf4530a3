From 9c4056cc4a2e0b487a0cd05be3696b149b1c353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 01/22] fix: compare list lengths by value, so that lists
 longer than 256 are accepted

---
 ramannoodle/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/exceptions.py b/ramannoodle/exceptions.py
index a900de9..a18b272 100644
--- a/ramannoodle/exceptions.py
+++ b/ramannoodle/exceptions.py
@@ -119,8 +119,8 @@ def verify_list_len(name: str, array: list[Any], length: int | None) -> None:
     """
     if not isinstance(array, list):
         raise get_type_error(name, array, "list")
-    if length is not None and len(array) is not length:
-        raise ValueError(f"{name} has wrong length: {len(array)} != length")
+    if length is not None and len(array) != length:
+        raise ValueError(f"{name} has wrong length: {len(array)} != {length}")
 
 
 def verify_positions(name: str, array: NDArray[Any]) -> None:
-- 
2.43.0


From 33071b9c0b2d88c65288ffe35b0eba2e098f6cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 02/22] fix: Raman spectra hand out copies, so that editing
 results cannot corrupt a spectrum

---
 ramannoodle/spectrum/_raman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 8066e47..6b2f51a 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -191,7 +191,7 @@ class PhononRamanSpectrum(RamanSpectrum):
                 self._phonon_wavenumbers, temperature
             )
 
-        return self._phonon_wavenumbers, intensities
+        return self._phonon_wavenumbers.copy(), intensities
 
 
 class MDRamanSpectrum(RamanSpectrum):
@@ -224,7 +224,7 @@ class MDRamanSpectrum(RamanSpectrum):
         :
             Array with shape (S,3,3) where S is the number of configurations.
         """
-        return self._polarizability_ts
+        return self._polarizability_ts.copy()
 
     @property
     def timestep(self) -> float:
-- 
2.43.0


From 84ce08d746383e4056d83a9fdca7b14c11c98962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 03/22] fix: models copy an assigned mask, so that models
 cannot share one mask array

---
 ramannoodle/pmodel/_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 3714a8a..ca1c540 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -186,7 +186,7 @@ class InterpolationModel(PolarizabilityModel):
             "masked" and excluded from polarizability calculations.
         """
         verify_ndarray_shape("mask", value, self._mask.shape)
-        self._mask = value
+        self._mask = value.copy()
 
     def calc_polarizabilities(
         self, positions_batch: NDArray[np.float64]
-- 
2.43.0


From c1662a040fd5c4c97b173d0327aac3959b72ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 04/22] fix: adding degrees of freedom leaves the model
 unchanged when it fails

---
 ramannoodle/pmodel/_interpolation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index ca1c540..12e1ded 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -400,11 +400,13 @@ class InterpolationModel(PolarizabilityModel):
                 )
             )
 
+        # Anything that might fail is done before the model is changed.
+        # FALSE -> not masking, TRUE -> masking
+        mask = np.append(self._mask, [False] * len(basis_vectors_to_add))
         self._cart_basis_vectors += basis_vectors_to_add
         if not self._is_dummy_model:
             self._interpolations += interpolations_to_add
-        # FALSE -> not masking, TRUE -> masking
-        self._mask = np.append(self._mask, [False] * len(basis_vectors_to_add))
+        self._mask = mask
 
     # pylint: disable=too-many-arguments,too-many-positional-arguments
     def add_dof(
-- 
2.43.0


From 72362b081459ef2d5a54c40cafe66fca90c9a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 05/22] fix: ARTModel specification tuples hand out copies of
 the model's directions

---
 ramannoodle/pmodel/_art.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 8e5752d..7913a8f 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -368,7 +368,7 @@ class ARTModel(InterpolationModel):
         """Return specified art cartesian direction vectors for an atom."""
         indexes = self.get_dof_indexes(atom_index)
         cart_directions = [
-            self._cart_basis_vectors[index][atom_index] for index in indexes
+            self._cart_basis_vectors[index][atom_index].copy() for index in indexes
         ]
         return cart_directions
 
-- 
2.43.0


From ff7a0539e73110a1e058ebd73a218a93dceecbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 06/22] fix: apply symmetry operations of hexagonal, oblique
 and screw-axis structures correctly

---
 ramannoodle/structure/_reference.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 98cbd7e..3ab1668 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -72,6 +72,22 @@ def _get_positions_permutation_matrix(
     return permutation_matrix
 
 
+def _are_symmetries(
+    rotations: NDArray[np.float64],
+    permutation_matrices: NDArray[np.float64],
+    lattice: NDArray[np.float64],
+    atomic_numbers: list[int],
+) -> bool:
+    """Check whether operations (row-vector convention) preserve the structure."""
+    metric = lattice @ lattice.T
+    rotated_metrics = rotations @ metric @ np.transpose(rotations, (0, 2, 1))
+    if np.max(np.abs(rotated_metrics - metric)) > 1e-3 * np.max(metric):
+        return False
+    if not (np.sum(permutation_matrices, axis=(1, 2)) == len(atomic_numbers)).all():
+        return False
+    return bool((permutation_matrices @ atomic_numbers == atomic_numbers).all())
+
+
 class ReferenceStructure:
     """Reference crystal structure, typically used by polarizability models.
 
@@ -123,6 +139,15 @@ class ReferenceStructure:
         self._permutation_matrices = _compute_permutation_matrices(
             self._rotations, self._translations, self._positions
         )
+        # spglib's rotations act on column vectors, whereas positions are row vectors.
+        # For many structures, the operations form the same group either way.
+        if not _are_symmetries(
+            self._rotations, self._permutation_matrices, lattice, atomic_numbers
+        ):
+            self._rotations = np.transpose(self._rotations, (0, 2, 1))
+            self._permutation_matrices = _compute_permutation_matrices(
+                self._rotations, self._translations, self._positions
+            )
 
     @property
     def atomic_numbers(self) -> list[int]:
-- 
2.43.0


From 2aea6b3f255a20e936d4113ac8788be49d3473f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 07/22] fix: compare and rotate symmetry-equivalent degrees of
 freedom in Cartesian coordinates

---
 ramannoodle/pmodel/_interpolation.py | 6 +++++-
 ramannoodle/structure/_reference.py  | 9 ++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 12e1ded..6f2bbf4 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -301,6 +301,9 @@ class InterpolationModel(PolarizabilityModel):
             self._ref_structure.get_equivalent_displacements(parent_displacement)
         )
 
+        lattice = self._ref_structure.lattice
+        inverse_lattice = np.linalg.inv(lattice)
+
         basis_vectors: list[NDArray[np.float64]] = []
         interpolation_xs: list[list[float]] = []
         interpolation_ys: list[list[NDArray[np.float64]]] = []
@@ -323,7 +326,8 @@ class InterpolationModel(PolarizabilityModel):
 
                 for amplitude, polarizability in zip(amplitudes, polarizabilities):
                     interpolation_x.append(multiplier * amplitude)
-                    rotation = transformation[0]
+                    # Polarizabilities are rotated in Cartesian coordinates.
+                    rotation = inverse_lattice @ transformation[0] @ lattice
                     delta_polarizability = polarizability - self._ref_polarizability
 
                     interpolation_y.append(
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 3ab1668..5ca02bb 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -248,8 +248,11 @@ class ReferenceStructure:
                 candidate_positions,
             )
 
+            # Angles are only meaningful in Cartesian coordinates.
+            cart_candidate = self.get_cart_displacement(candidate_displacement)
+
             orthogonal_result = _symmetry_utils.is_orthogonal_to_all(
-                candidate_displacement.flatten(),
+                cart_candidate.flatten(),
                 [item.flatten() for item in orthogonal_displacements],
             )
 
@@ -261,11 +264,11 @@ class ReferenceStructure:
                         "transformations": [(rotation, translation)],
                     }
                 )
-                orthogonal_displacements.append(candidate_displacement)
+                orthogonal_displacements.append(cart_candidate)
             else:
                 # Candidate can be collinear to maximum of one orthogonal vector
                 collinear_result = _symmetry_utils.is_non_collinear_with_all(
-                    candidate_displacement,
+                    cart_candidate,
                     orthogonal_displacements,
                 )
                 if collinear_result != -1:  # collinear
-- 
2.43.0


From ae92b39d041a7c9bf39b6c53a28b50888e3e5a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 08/22] fix: imaginary modes read from vasprun.xml get negative
 wavenumbers, as for OUTCAR

---
 ramannoodle/io/vasp/vasprun.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 5559f8c..d5ac6d6 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -343,9 +343,8 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
     eigenvalues = np.array([float(i) for i in element.text.split()])
-    eigenvalues = np.sqrt(np.abs(-eigenvalues)) * 1 / 0.0299792458
-    eigenvalues *= np.sign(eigenvalues)
-    return eigenvalues
+    # Eigenvalues of stable modes are negative; imaginary modes get negative wavenumbers.
+    return -np.sign(eigenvalues) * np.sqrt(np.abs(eigenvalues)) / 0.0299792458
 
 
 def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
-- 
2.43.0


From 1be865467f5c8bb39d2e8019e309ed0b183eeb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 09/22] fix: apply POSCAR scale factors to Cartesian positions
 and support volume scaling

---
 ramannoodle/io/vasp/poscar.py | 47 +++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 24b1ff0..aefc506 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -15,8 +15,12 @@ from ramannoodle.io.vasp.outcar import _get_lattice_vector_from_outcar_line
 # pylint: disable=R0801
 
 
-def _read_lattice(file: TextIO) -> NDArray[np.float64]:
-    """Read all three lattice vectors (in angstroms) from a VASP POSCAR file.
+def _read_scale_factor_and_lattice(
+    file: TextIO,
+) -> tuple[float, NDArray[np.float64]]:
+    """Read scale factor and all three scaled lattice vectors from a VASP POSCAR file.
+
+    A negative scale factor in the file specifies the volume of the unit cell.
 
     Raises
     ------
@@ -40,7 +44,19 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
             raise InvalidFileException(f"lattice could not be parsed: {line}")
         lattice.append(vector)
 
-    return np.array(lattice) * scale_factor
+    if scale_factor < 0:
+        scale_factor = np.cbrt(-scale_factor / np.abs(np.linalg.det(lattice)))
+    return scale_factor, np.array(lattice) * scale_factor
+
+
+def _read_lattice(file: TextIO) -> NDArray[np.float64]:
+    """Read all three lattice vectors (in angstroms) from a VASP POSCAR file.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    return _read_scale_factor_and_lattice(file)[1]
 
 
 def _read_atomic_symbols(file: TextIO) -> list[str]:
@@ -80,7 +96,10 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
 
 
 def _read_positions(
-    file: TextIO, lattice: NDArray[np.float64], num_atoms: int
+    file: TextIO,
+    lattice: NDArray[np.float64],
+    num_atoms: int,
+    scale_factor: float = 1.0,
 ) -> NDArray[np.float64]:
     """Read atomic symbols from a VASP POSCAR file.
 
@@ -116,7 +135,7 @@ def _read_positions(
         positions.append(position)
 
     if cart_mode:
-        return np.array(positions) @ np.linalg.inv(lattice)
+        return scale_factor * np.array(positions) @ np.linalg.inv(lattice)
     return np.array(positions)
 
 
@@ -143,9 +162,11 @@ def read_positions(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        scale_factor, lattice = _read_scale_factor_and_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, len(atomic_symbols), scale_factor
+        )
         return positions
 
 
@@ -167,10 +188,12 @@ def read_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        scale_factor, lattice = _read_scale_factor_and_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, len(atomic_symbols), scale_factor
+        )
         return lattice, atomic_numbers, positions
 
 
@@ -194,10 +217,12 @@ def read_ref_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        scale_factor, lattice = _read_scale_factor_and_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, len(atomic_symbols), scale_factor
+        )
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
-- 
2.43.0


From d0415c9f0798ca3eed5f2beaf511cb59b156f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 10/22] fix: reading an XDATCAR no longer silently drops
 configurations after a blank line

---
 ramannoodle/io/vasp/xdatcar.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index dd2e6fc..c43d5b3 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -50,9 +50,15 @@ def read_positions_ts(
                 positions = _read_positions(file, lattice, len(atomic_symbols))
                 positions_ts.append(positions)
             except InvalidFileException as exc:
-                if "missing first character in coordinate format:" in str(exc):
+                # Only blank lines may follow the final configuration.
+                if (
+                    "missing first character in coordinate format:" in str(exc)
+                    and file.read().strip() == ""
+                ):
                     break
                 raise exc
+        if len(positions_ts) == 0:
+            raise InvalidFileException("no trajectory found")
         return np.array(positions_ts)
 
 
-- 
2.43.0


From d388e5191cf3b54fde6202f420c9a8054120807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 11/22] fix: readers report truncated and unparsable files as
 InvalidFileException

---
 ramannoodle/io/_utils.py       | 23 ++++++++++++++++++++-
 ramannoodle/io/vasp/outcar.py  | 30 +++++++++++++++------------
 ramannoodle/io/vasp/poscar.py  | 10 +++++----
 ramannoodle/io/vasp/vasprun.py | 37 ++++++++++++++++++++++++----------
 ramannoodle/io/vasp/xdatcar.py |  4 ++--
 5 files changed, 73 insertions(+), 31 deletions(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index 5d39667..ddedb9f 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -1,6 +1,7 @@
 """Universal IO utility functions."""
 
-from typing import TextIO, Callable
+from typing import TextIO, Callable, Iterator
+from contextlib import contextmanager
 from pathlib import Path
 
 import numpy as np
@@ -8,6 +9,7 @@ from numpy.typing import NDArray
 from tqdm import tqdm
 
 from ramannoodle.exceptions import (
+    InvalidFileException,
     NoMatchingLineFoundException,
     verify_ndarray_shape,
     verify_positions,
@@ -25,6 +27,25 @@ except UserError:
     TORCH_PRESENT = False
 
 
+@contextmanager
+def open_for_parsing(filepath: Path) -> Iterator[TextIO]:
+    """Open a file for parsing, ensuring unparsable content is always reported as such.
+
+    :meta private:
+
+    Raises
+    ------
+    FileNotFoundError
+    InvalidFileException
+    """
+    # Undecodable bytes are replaced, and are thus reported if (and where) they matter.
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
+        try:
+            yield file
+        except (ValueError, IndexError, KeyError) as exc:
+            raise InvalidFileException(f"{filepath} could not be parsed") from exc
+
+
 def _skip_file_until_line_contains(file: TextIO, content: str) -> str:
     """Read through a file until a line containing specific content is found."""
     for line in file:
diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index b552dea..b3c1430 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -7,6 +7,7 @@ from numpy.typing import NDArray
 
 from ramannoodle.io._utils import (
     _skip_file_until_line_contains,
+    open_for_parsing,
     pathify,
     _read_polarizability_dataset,
 )
@@ -79,6 +80,8 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
         atomic_symbols = []
         for symbol, number in zip(potcar_symbols, atomic_numbers):
             atomic_symbols += [symbol] * number
+        if len(atomic_symbols) == 0:
+            raise InvalidFileException(f"no atoms found: {line}")
         return atomic_symbols
     except (NoMatchingLineFoundException, IndexError) as exc:
         raise InvalidFileException(
@@ -127,7 +130,7 @@ def _read_cart_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_coordinates.append([float(item) for item in line.split()[0:3]])
+            cart_coordinates.append(_get_lattice_vector_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"cartesian positions could not be parsed: {line}"
@@ -154,7 +157,7 @@ def _read_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            positions.append([float(item) for item in line.split()[0:3]])
+            positions.append(_get_lattice_vector_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"fractional positions could not be parsed: {line}"
@@ -185,7 +188,7 @@ def _read_polarizability(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            polarizability.append([float(item) for item in line.split()[0:3]])
+            polarizability.append(_get_lattice_vector_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"polarizability could not be parsed: {line}"
@@ -202,11 +205,12 @@ def _get_lattice_vector_from_outcar_line(line: str) -> NDArray[np.float64]:
     ValueError
     """
     try:
-        return np.array([float(item) for item in line.split()[0:3]])
+        vector = np.array([float(item) for item in line.split()[0:3]])
     except TypeError as exc:
         raise TypeError("line is not a str") from exc
-    except IndexError as exc:
-        raise ValueError("line does not have the expected format") from exc
+    if vector.shape != (3,):
+        raise ValueError("line does not have the expected format")
+    return vector
 
 
 def _read_lattice(file: TextIO) -> NDArray[np.float64]:
@@ -263,7 +267,7 @@ def read_phonons(filepath: str | Path) -> Phonons:
     eigenvectors = []
 
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
 
         # get atom information
         atomic_symbols = _read_atomic_symbols(file)
@@ -330,7 +334,7 @@ def read_positions_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as outcar_file:
+    with open_for_parsing(filepath) as outcar_file:
         num_atoms = len(_read_atomic_symbols(outcar_file))
         positions = _read_positions(outcar_file, num_atoms)
         polarizability = _read_polarizability(outcar_file)
@@ -357,7 +361,7 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         num_atoms = len(_read_atomic_symbols(file))
         positions = _read_positions(file, num_atoms)
         return positions
@@ -392,7 +396,7 @@ def read_structure_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as outcar_file:
+    with open_for_parsing(filepath) as outcar_file:
         atomic_symbols = _read_atomic_symbols(outcar_file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
         lattice = _read_lattice(outcar_file)
@@ -446,7 +450,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
         lattice = _read_lattice(file)
@@ -469,7 +473,7 @@ def _read_next_cart_positions_ts(file: TextIO, num_atoms: int) -> NDArray[np.flo
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_positions.append([float(item) for item in line.split()[0:3]])
+            cart_positions.append(_get_lattice_vector_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"Cartesian positions could not be parsed: {line}"
@@ -509,7 +513,7 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         atomic_symbols = _read_atomic_symbols(file)
         timestep = _read_timestep(file)
         lattice = _read_lattice(file)
diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index aefc506..29dea4d 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -6,7 +6,7 @@ from typing import TextIO
 import numpy as np
 from numpy.typing import NDArray
 
-from ramannoodle.io._utils import verify_structure, pathify
+from ramannoodle.io._utils import verify_structure, pathify, open_for_parsing
 from ramannoodle.exceptions import InvalidFileException
 from ramannoodle.constants import ATOM_SYMBOLS, ATOMIC_NUMBERS
 from ramannoodle.structure._reference import ReferenceStructure
@@ -92,6 +92,8 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
     result = []
     for symbol, int_count in zip(symbols, int_counts):
         result += [symbol] * int_count
+    if len(result) == 0:
+        raise InvalidFileException(f"no atoms found: {line}")
     return result
 
 
@@ -161,7 +163,7 @@ def read_positions(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         scale_factor, lattice = _read_scale_factor_and_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         positions = _read_positions(
@@ -187,7 +189,7 @@ def read_structure(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         scale_factor, lattice = _read_scale_factor_and_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -216,7 +218,7 @@ def read_ref_structure(
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         scale_factor, lattice = _read_scale_factor_and_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index d5ac6d6..9603612 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -8,8 +8,16 @@ import defusedxml.ElementTree as ET
 import numpy as np
 from numpy.typing import NDArray
 
-from ramannoodle.io._utils import pathify, _read_polarizability_dataset
-from ramannoodle.exceptions import InvalidFileException, UserError
+from ramannoodle.io._utils import (
+    open_for_parsing,
+    pathify,
+    _read_polarizability_dataset,
+)
+from ramannoodle.exceptions import (
+    InvalidFileException,
+    UserError,
+    verify_ndarray_shape,
+)
 from ramannoodle.constants import ATOMIC_WEIGHTS, ATOMIC_NUMBERS
 from ramannoodle.dynamics._phonon import Phonons
 from ramannoodle.dynamics._trajectory import Trajectory
@@ -66,7 +74,9 @@ def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
         if text is None:
             raise InvalidFileException("varray child text not found")
         positions.append([float(i) for i in text.split()])
-    return np.array(positions)
+    result = np.array(positions)
+    verify_ndarray_shape("positions", result, (None, 3))
+    return result
 
 
 def _parse_polarizability(root: Element) -> NDArray[np.float64]:
@@ -88,7 +98,9 @@ def _parse_polarizability(root: Element) -> NDArray[np.float64]:
         if text is None:
             raise InvalidFileException("varray child text not found")
         polarizability.append([float(i) for i in text.split()])
-    return np.array(polarizability)
+    result = np.array(polarizability)
+    verify_ndarray_shape("polarizability", result, (3, 3))
+    return result
 
 
 def _parse_lattice(root: Element) -> NDArray[np.float64]:
@@ -110,7 +122,9 @@ def _parse_lattice(root: Element) -> NDArray[np.float64]:
         if text is None:
             raise InvalidFileException("varray child text not found")
         lattice.append([float(i) for i in text.split()])
-    return np.array(lattice)
+    result = np.array(lattice)
+    verify_ndarray_shape("lattice", result, (3, 3))
+    return result
 
 
 def read_positions_and_polarizability(
@@ -140,7 +154,7 @@ def read_positions_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         root = _get_root_element(file)
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
@@ -179,7 +193,7 @@ def read_structure_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         root = _get_root_element(file)
         atomic_symbols = _parse_atomic_symbols(root)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -188,6 +202,7 @@ def read_structure_and_polarizability(
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
         positions = _parse_positions(structure_varray)
+        verify_ndarray_shape("positions", positions, (len(atomic_numbers), 3))
         polarizability = _parse_polarizability(root)
         return lattice, atomic_numbers, positions, polarizability
 
@@ -237,7 +252,7 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         root = _get_root_element(file)
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
@@ -267,7 +282,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         root = _get_root_element(file)
         atomic_symbols = _parse_atomic_symbols(root)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -310,7 +325,7 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         root = _get_root_element(file)
 
         structures = root.iterfind("structure")
@@ -390,7 +405,7 @@ def read_phonons(filepath: str | Path) -> Phonons:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         root = _get_root_element(file)
 
         atomic_symbols = _parse_atomic_symbols(root)
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index c43d5b3..3a2c4d8 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -5,7 +5,7 @@ from pathlib import Path
 import numpy as np
 from numpy.typing import NDArray
 
-from ramannoodle.io._utils import verify_trajectory, pathify
+from ramannoodle.io._utils import verify_trajectory, pathify, open_for_parsing
 from ramannoodle.exceptions import InvalidFileException
 from ramannoodle.dynamics._trajectory import Trajectory
 from ramannoodle.io.vasp.poscar import (
@@ -42,7 +42,7 @@ def read_positions_ts(
     """
     filepath = pathify(filepath)
     positions_ts = []
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open_for_parsing(filepath) as file:
         lattice = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
-- 
2.43.0


From 59912f92b7352abe3f78bc607bb892602923ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 12/22] fix: rescaled datasets keep the default data type, so
 that models can train on them

---
 ramannoodle/dataset/torch/_dataset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/dataset/torch/_dataset.py b/ramannoodle/dataset/torch/_dataset.py
index b43d016..fc5b15f 100644
--- a/ramannoodle/dataset/torch/_dataset.py
+++ b/ramannoodle/dataset/torch/_dataset.py
@@ -212,9 +212,8 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
         scaled = self._polarizabilities.detach().clone()
         scaled = scaled - torch.tensor(mean)
         scaled /= torch.tensor(stddev)
-        self._scaled_polarizabilities = (
-            rn_torch_utils.polarizability_tensors_to_vectors(scaled)
-        )
+        scaled = rn_torch_utils.polarizability_tensors_to_vectors(scaled)
+        self._scaled_polarizabilities = scaled.type(torch.get_default_dtype())
 
     def __len__(self) -> int:
         """Get number of samples."""
-- 
2.43.0


From 92ef828d76ae859a8a690bd90c36e8239ad3f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 13/22] fix: threads predicting with one PotGNN no longer
 receive each other's batch triplets

---
 ramannoodle/pmodel/torch/_utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ramannoodle/pmodel/torch/_utils.py b/ramannoodle/pmodel/torch/_utils.py
index ef3cc49..a9878bb 100644
--- a/ramannoodle/pmodel/torch/_utils.py
+++ b/ramannoodle/pmodel/torch/_utils.py
@@ -164,13 +164,12 @@ class BatchTriplets:
         assert len(self._ref_triplets) == 7  # type hint
         self._num_triplets = self._ref_triplets[2].size(0)
 
-        self._cached_batch_size = 1
-        self._cached_triplets = self._ref_triplets
+        self._cache = (1, self._ref_triplets)
 
     @property
     def cached_batch_size(self) -> int:
         """Get batch size of current cache."""
-        return self._cached_batch_size
+        return self._cache[0]
 
     def get_triplets(
         self, batch_size: int
@@ -192,7 +191,9 @@ class BatchTriplets:
                 with size [T,].
 
         """
-        if batch_size != self._cached_batch_size:
+        # The cache is read and replaced as a whole, as threads may share a model.
+        cached_batch_size, triplets = self._cache
+        if batch_size != cached_batch_size:
             i, j, index_i, index_j, index_k, index_ji, index_kj = tuple(
                 t.repeat(batch_size) for t in self._ref_triplets
             )
@@ -211,7 +212,7 @@ class BatchTriplets:
             for index in [index_ji, index_kj]:
                 index += batch_indexes * self._num_edges
 
-            self._cached_triplets = (
+            triplets = (
                 i,
                 j,
                 index_i,
@@ -220,9 +221,9 @@ class BatchTriplets:
                 index_ji,
                 index_kj,
             )
-            self._cached_batch_size = batch_size
+            self._cache = (batch_size, triplets)
 
-        return self._cached_triplets
+        return triplets
 
 
 def batch_positions(
-- 
2.43.0


From 9b4290359c5c41d9ac9ad2c6584f39f0b37df3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 14/22] fix: gradients left by an interrupted epoch do not leak
 into the next epoch

---
 ramannoodle/pmodel/torch/_train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramannoodle/pmodel/torch/_train.py b/ramannoodle/pmodel/torch/_train.py
index 5af8808..69c8e14 100644
--- a/ramannoodle/pmodel/torch/_train.py
+++ b/ramannoodle/pmodel/torch/_train.py
@@ -61,6 +61,7 @@ def train_single_epoch(
     )
 
     model.train()
+    optimizer.zero_grad()  # an interrupted epoch may have left gradients behind
     train_losses = []
     for lattice, atomic_numbers, position, polarizability in train_loader:
         out = model.forward(
-- 
2.43.0


From 2854e5d558cfea968ad8d145b8e3c19f930f399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 15/22] fix: structures with NaN or infinite coordinates no
 longer crash the interpreter

---
 ramannoodle/structure/_reference.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 5ca02bb..f7dbfe3 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -122,6 +122,9 @@ class ReferenceStructure:
         verify_list_len("atomic_numbers", atomic_numbers, None)
         verify_ndarray_shape("lattice", lattice, (3, 3))
         verify_ndarray_shape("positions", positions, (len(atomic_numbers), 3))
+        # spglib crashes the interpreter if given NaN or infinity.
+        if not (np.isfinite(lattice).all() and np.isfinite(positions).all()):
+            raise SymmetryException("Structure has coordinates that are not finite.")
 
         self._atomic_numbers = atomic_numbers
         self._lattice = lattice
-- 
2.43.0


From f121bd51a48d58dc3a848ee0a1a3520587cc2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 16/22] fix: absurdly large atom counts are reported as
 InvalidFileException

---
 ramannoodle/io/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index ddedb9f..2446776 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -42,7 +42,7 @@ def open_for_parsing(filepath: Path) -> Iterator[TextIO]:
     with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         try:
             yield file
-        except (ValueError, IndexError, KeyError) as exc:
+        except (ValueError, IndexError, KeyError, OverflowError) as exc:
             raise InvalidFileException(f"{filepath} could not be parsed") from exc
 
 
-- 
2.43.0


From c8b2dff840f12eb29f3806b6fc1ff036a7e88a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 17/22] fix: adding degrees of freedom ignores the length of
 long displacements, as documented

---
 ramannoodle/pmodel/_art.py           | 6 +++++-
 ramannoodle/pmodel/_interpolation.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 7913a8f..0f3805b 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -170,7 +170,11 @@ class ARTModel(InterpolationModel):
             Provided ART was invalid.
 
         """
-        direction = self.ref_structure.get_frac_direction(cart_direction)
+        verify_ndarray_shape("direction", cart_direction, (3,))
+        # Periodic boundary conditions would alter long directions.
+        direction = self.ref_structure.get_frac_direction(
+            cart_direction / np.linalg.norm(cart_direction * 10.0)
+        )
         if not isinstance(atom_index, int):
             raise get_type_error("atom_index", atom_index, "int")
         try:
diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 6f2bbf4..45d5812 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -456,8 +456,12 @@ class InterpolationModel(PolarizabilityModel):
             Provided degree of freedom was invalid.
 
         """
+        verify_ndarray_shape("cart_displacement", cart_displacement, (None, 3))
         try:
-            displacement = self.ref_structure.get_frac_displacement(cart_displacement)
+            # Periodic boundary conditions would alter long displacements.
+            displacement = self.ref_structure.get_frac_displacement(
+                cart_displacement / np.linalg.norm(cart_displacement * 10.0)
+            )
 
             parent_displacement = displacement / np.linalg.norm(displacement * 10.0)
         except TypeError as exc:
-- 
2.43.0


From a192d0770685994715a0b00494333f3c7717f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 18/22] fix: equivalent displacements hand out copies of the
 structure's symmetry operations

---
 ramannoodle/structure/_reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index f7dbfe3..aee6491 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -264,7 +264,7 @@ class ReferenceStructure:
                 result.append(
                     {
                         "displacements": [candidate_displacement],
-                        "transformations": [(rotation, translation)],
+                        "transformations": [(rotation.copy(), translation.copy())],
                     }
                 )
                 orthogonal_displacements.append(cart_candidate)
@@ -291,7 +291,7 @@ class ReferenceStructure:
                             candidate_displacement
                         )
                         result[collinear_result]["transformations"].append(
-                            (rotation, translation)
+                            (rotation.copy(), translation.copy())
                         )
 
         return result
-- 
2.43.0


From c72e949869c30354192e4f9e6da21356ff531204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 19/22] fix: a structure without a prediction no longer spoils
 the rest of its batch

---
 ramannoodle/pmodel/torch/_gnn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/pmodel/torch/_gnn.py b/ramannoodle/pmodel/torch/_gnn.py
index 802d11b..aded763 100644
--- a/ramannoodle/pmodel/torch/_gnn.py
+++ b/ramannoodle/pmodel/torch/_gnn.py
@@ -658,9 +658,11 @@ class PotGNN(
         # Isolate polarizabilities from batch graphs.
         polarizability = torch.zeros((positions.size(0), 6))
         for structure_i in range(positions.size(0)):
-            mask = (edge_index[0:1] == structure_i).T
+            # Edges are selected, as multiplying by zero would not remove the NaNs of
+            # another structure.
+            mask = edge_index[0] == structure_i
             count = torch.sum(mask)
-            polarizability[structure_i] = torch.sum(edge_polarizability * mask, dim=0)
+            polarizability[structure_i] = torch.sum(edge_polarizability[mask], dim=0)
             polarizability[structure_i] /= count
         return polarizability
 
-- 
2.43.0


From 2f121f082823fd8ca37b942a2d7c6928d5323ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 20/22] fix: PotGNN predicts reversed views of positions

---
 ramannoodle/pmodel/torch/_gnn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/torch/_gnn.py b/ramannoodle/pmodel/torch/_gnn.py
index aded763..40f15de 100644
--- a/ramannoodle/pmodel/torch/_gnn.py
+++ b/ramannoodle/pmodel/torch/_gnn.py
@@ -708,7 +708,8 @@ class PotGNN(
             polarizability = self.forward(
                 lattice.type(default_type),
                 atomic_numbers,
-                torch.tensor(positions_subbatch).type(default_type),
+                # torch does not take views with negative strides, such as X[::-1]
+                torch.tensor(positions_subbatch.copy()).type(default_type),
             )
             polarizability = polarizability_vectors_to_tensors(polarizability)
             end_index = start_index + subbatch_size
-- 
2.43.0


From 69c80ebab992b3f89c7b0e515eb125143c43cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 21/22] fix: training works after predictions in inference mode

---
 ramannoodle/pmodel/torch/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramannoodle/pmodel/torch/_utils.py b/ramannoodle/pmodel/torch/_utils.py
index a9878bb..c325ef2 100644
--- a/ramannoodle/pmodel/torch/_utils.py
+++ b/ramannoodle/pmodel/torch/_utils.py
@@ -171,6 +171,8 @@ class BatchTriplets:
         """Get batch size of current cache."""
         return self._cache[0]
 
+    # Cached tensors may be needed for training later.
+    @torch.inference_mode(False)
     def get_triplets(
         self, batch_size: int
     ) -> tuple[Tensor, Tensor, Tensor, Tensor, Tensor, Tensor, Tensor]:
-- 
2.43.0


From ca4b087c5ffc5196f41aac804348abc2bc6824c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 22/22] fix: files of a dataset are compared with its first
 file, not with their predecessor

---
 ramannoodle/io/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/io/_utils.py b/ramannoodle/io/_utils.py
index 2446776..77bc554 100644
--- a/ramannoodle/io/_utils.py
+++ b/ramannoodle/io/_utils.py
@@ -168,8 +168,9 @@ def _read_polarizability_dataset(
                 raise IncompatibleStructureException(
                     f"incompatible atomic positions: {filepath}"
                 )
-        lattice = read_lattice
-        atomic_numbers = read_atomic_numbers
+        else:  # every file is compared with the first one, so that lattices cannot drift
+            lattice = read_lattice
+            atomic_numbers = read_atomic_numbers
         positions_list.append(positions)
         polarizabilities.append(polarizability)
 
-- 
2.43.0

